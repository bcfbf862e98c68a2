"""Reference definitions: block header helpers (read by the analysis, never run)."""
import binascii
import hashlib
import struct


def dhash(data):
    return hashlib.sha256(hashlib.sha256(data).digest()).digest()


def block_header(version, prev_block, merkle_root, timestamp, bits, nonce):
    return (struct.pack('<I', version) + struct.pack('<32s', prev_block) + struct.pack('<32s', merkle_root)
            + struct.pack('<I', timestamp) + struct.pack('<I', bits) + struct.pack('<I', nonce))


def merkle(hashes):
    level = list(hashes)
    while len(level) > 1:
        if len(level) % 2 == 1:
            level = level + [level[len(level) - 1]]
        level = [dhash(level[2 * i] + level[2 * i + 1]) for i in range(len(level) // 2)]
    return level[0]


def merkle_of(transactions):
    return merkle([x.hash for x in transactions])


def target_number(bits):
    return (bits % 0x800000) * 256 ** (bits // 0x1000000 - 3)


def target(bits):
    return target_number(bits).to_bytes(32, 'big')


def meets(coin, header):
    work = coin.proof_of_work(header.binary()[:80])
    return int.from_bytes(work, 'little') <= target_number(header.bits)


def split_version(v):
    return (v // 1000000, v // 10000 % 100, v // 100 % 100, v % 100)


def join_version(a, b, c, d):
    if b < 0 or b > 99 or c < 0 or c > 99 or d < 0 or d > 99:
        raise ValueError()
    return a * 1000000 + b * 10000 + c * 100 + d


def hex_rev(data):
    return binascii.hexlify(bytes(reversed(data)))


def unhex_rev(text):
    return bytes(reversed(binascii.unhexlify(text)))


class HasHash(object):
    """anything with a hash"""


class Header(object):
    """a block header as seen by the target test"""

    def binary(self):
        return self.data


class Work(object):
    """a chain with any proof of work"""

    def proof_of_work(self, data):
        return __app__('work', 'bytes32', data)
