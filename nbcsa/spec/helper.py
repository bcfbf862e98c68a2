"""Reference definitions: hashes, numbers and texts (read by the analysis, never run)."""
import hashlib
import os
from spec.keys import number


def sha1(data):
    return hashlib.sha1(data).digest()


def sha256(data):
    return hashlib.sha256(data).digest()


def sha256d(data):
    return sha256(sha256(data))


def ripemd160(data):
    return hashlib.new('ripemd160', data).digest()


def hash160(data):
    return ripemd160(sha256(data))


def octets(n):
    """big-endian, as short as possible, one octet for zero"""
    if n < 0:
        raise ValueError()
    size = 1
    while 256 ** size <= n:
        size = size + 1
    return n.to_bytes(size, 'big')


def digest_number(n):
    return number(sha1(octets(n)))


def signed(n, bits):
    """a number of so many bits, read as two's complement"""
    if n // 2 ** (bits - 1) % 2 == 1:
        return n - 2 ** bits
    return n


def difficulty(bits):
    return 26959535291011309493156476344723991336010898738574164086137773096960.0 / (bits % 0x800000 * 256 ** (bits // 0x1000000 - 3))


def home():
    return os.path.expanduser('~/.newbitcoin/data')
