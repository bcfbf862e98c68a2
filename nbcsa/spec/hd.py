"""Reference definitions: hierarchical wallets, BIP32 (read by the analysis, never run)."""
import hashlib
import hmac
from spec.keys import P, A, N, GX, GY, number, num32, base_times, small, point_of, dhash, full


def mac(key, data):
    return hmac.new(key, data, hashlib.sha512).digest()


def hash160(data):
    return hashlib.new('ripemd160', hashlib.sha256(data).digest()).digest()


def fingerprint(pt):
    return hash160(small(pt))[:4]


def be4(n):
    return n.to_bytes(4, 'big')


def view(w):
    """everything a wallet says about itself"""
    return (w.prvkey(), w.pubkey(), w.chain(), w.depth(), w.parentfp(), w.childnum(), w.vcn, w._testnet)


def shape(secret, pt, chain, depth, parentfp, childnum, vcn, testnet):
    return (None if secret is None else num32(secret), num32(pt[0]) + num32(pt[1]), chain, depth, parentfp, childnum, vcn, testnet)


def master(seed, vcn, testnet):
    d = mac(b'Bitcoin seed', seed)
    k = number(d[:32])
    if k == 0 or k >= N:
        raise ValueError()
    return shape(k, base_times(k), d[32:], 0, bytes(4), 0, vcn % 0x10000, testnet)


def child_secret(k, chain, i, depth, vcn, testnet):
    if i < 0 or i > 0xffffffff or depth >= 255:
        raise ValueError()
    pt = base_times(k)
    if i >= 0x80000000:
        d = mac(chain, b'\x00' + num32(k) + be4(i))
    else:
        d = mac(chain, small(pt) + be4(i))
    m = number(d[:32])
    if m >= N:
        raise ValueError()
    c = (k + m) % N
    if c == 0:
        raise ValueError()
    return shape(c, base_times(c), d[32:], depth + 1, fingerprint(pt), i, vcn % 0x10000, testnet)


def child_public(key, chain, i, depth, vcn, testnet):
    pt = point_of(key)
    if i < 0 or i >= 0x80000000 or depth >= 255:
        raise ValueError()
    d = mac(chain, small(pt) + be4(i))
    m = number(d[:32])
    if m >= N:
        raise ValueError()
    c = __gadd__(P, A, pt, base_times(m))
    if c is None:
        raise ValueError()
    return shape(None, c, d[32:], depth + 1, fingerprint(pt), i, vcn % 0x10000, testnet)


def make_secret(k, chain, vcn, testnet, depth, parentfp, childnum):
    if k <= 0 or k >= N or len(chain) != 32 or depth > 255:
        raise ValueError()
    return shape(k, base_times(k), chain, depth, bytes(4) if depth == 0 else parentfp, childnum, vcn % 0x10000, testnet)


def public_half(k, chain, i, depth):
    """the non-hardened child of the public half: the public half of the private child"""
    pt = base_times(k)
    m = number(mac(chain, small(pt) + be4(i))[:32])
    if i < 0 or i >= 0x80000000 or depth >= 255 or m >= N or (k + m) % N == 0:
        raise ValueError()
    c = base_times((k + m) % N)
    return (num32(c[0]) + num32(c[1]), mac(chain, small(pt) + be4(i))[32:], depth + 1, fingerprint(pt), i)


def view_public(w):
    return (w.pubkey(), w.chain(), w.depth(), w.parentfp(), w.childnum())


# ------------------------------------------------------------ extended keys

def prefix(testnet, private):
    if testnet:
        return b'\x04\x35\x83\x94' if private else b'\x04\x35\x87\xcf'
    return b'\x04\x88\xad\xe4' if private else b'\x04\x88\xb2\x1e'


def export_secret(k, chain, vcn, testnet, depth, parentfp, childnum, private):
    data = b'\x00' + num32(k) if private else small(base_times(k))
    body = prefix(testnet, private) + bytes([depth]) + (bytes(4) if depth == 0 else parentfp) + be4(childnum) + chain + data
    return __b58e__(body + dhash(body)[:4])


def export_public(key, chain, vcn, testnet, depth, parentfp, childnum, private):
    pt = point_of(key)
    if private:
        raise ValueError()
    body = prefix(testnet, False) + bytes([depth]) + (bytes(4) if depth == 0 else parentfp) + be4(childnum) + chain + small(pt)
    return __b58e__(body + dhash(body)[:4])


def read(word, vcn):
    raw = __b58d__(word)
    if len(raw) != 82 or dhash(raw[:78])[:4] != raw[78:]:
        raise ValueError()
    depth = raw[4]
    fp = bytes(4) if depth == 0 else raw[5:9]
    childnum = number(raw[9:13])
    chain = raw[13:45]
    testnet = raw[:4] in (b'\x04\x35\x87\xcf', b'\x04\x35\x83\x94')
    if raw[:4] in (b'\x04\x88\xb2\x1e', b'\x04\x35\x87\xcf'):
        return shape(None, point_of(raw[45:78]), chain, depth, fp, childnum, vcn % 0x10000, testnet)
    if raw[:4] in (b'\x04\x88\xad\xe4', b'\x04\x35\x83\x94'):
        k = number(raw[46:78])
        if raw[45] != 0 or k == 0 or k >= N:
            raise ValueError()
        return shape(k, base_times(k), chain, depth, fp, childnum, vcn % 0x10000, testnet)
    raise ValueError()


def packed(xy):
    return bytes([2 + xy[63] % 2]) + xy[:32]


def text(w):
    return str(w)


def usable(w):
    """the parts of a wallet that was made; one that cannot say them is not refused but useless"""
    try:
        return view(w)
    except Exception:
        return 'useless'
