"""Reference definitions: wallets at rest (read by the analysis, never run)."""
import json
from spec.modes import cbc_encrypt, cbc_decrypt, blocks, joined
from spec.keys import num32


def text(data):
    return data.hex()


def cipher_key(passphrase):
    """the first sixteen octets, filled up with zeros"""
    return passphrase[:16].ljust(16, bytes(1))


def filled(data):
    n = len(data) % 16
    if n:
        return data + bytes(16 - n)
    return data


def prefixed(key):
    n = len(key)
    return bytes([b'0123456789abcdef'[n // 16], b'0123456789abcdef'[n % 16]]) + key


def hidden(key, passphrase):
    return joined(cbc_encrypt(cipher_key(passphrase), None, blocks(filled(prefixed(key)))))


def stored(cfg, key, passphrase):
    if passphrase:
        if not isinstance(passphrase, bytes):
            raise ValueError()
        cfg['encrypted'] = True
        cfg['prvkey'] = text(hidden(key, passphrase))
    else:
        cfg['encrypted'] = False
        cfg['prvkey'] = text(prefixed(key))
    return cfg


def address_secret(wif, vcn, testnet, passphrase):
    return stored({'type': 'default', 'vcn': vcn % 0x10000, 'testnet': testnet, 'pubkey': None}, wif, passphrase)


def address_public(key, vcn, testnet):
    return {'type': 'default', 'encrypted': False, 'vcn': vcn % 0x10000, 'testnet': testnet, 'prvkey': None, 'pubkey': text(key)}


def tree(chain, vcn, testnet, depth, parentfp, childnum):
    return {'type': 'HD', 'encrypted': False, 'chain': text(chain), 'vcn': vcn % 0x10000, 'testnet': testnet,
            'depth': depth, 'parentfp': text(bytes(4) if depth == 0 else parentfp), 'childnum': childnum, 'prvkey': None, 'pubkey': None}


def hd_secret(secret, chain, vcn, testnet, depth, parentfp, childnum, passphrase):
    return stored(tree(chain, vcn, testnet, depth, parentfp, childnum), num32(secret), passphrase)


def hd_public(key, chain, vcn, testnet, depth, parentfp, childnum):
    cfg = tree(chain, vcn, testnet, depth, parentfp, childnum)
    cfg['pubkey'] = text(key)
    return cfg


def opened(data, passphrase):
    if len(data) == 0 or len(data) % 16 or len(data) >= 256:
        raise ValueError()
    if not isinstance(passphrase, bytes):
        passphrase = passphrase.encode('latin-1')
    return joined(cbc_decrypt(cipher_key(passphrase), None, blocks(data)))


def inner(data):
    """what the length prefix delimits; at most one block is filled up"""
    n = int(data[:2], 16)
    if len(data) < n + 2 or len(data) - 2 - n > 15:
        raise ValueError()
    return data[2:2 + n]


def through_json(cfg):
    return json.loads(json.dumps(cfg))
