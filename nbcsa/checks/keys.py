"""Shared by the key properties."""
from .. import terms as t, crypto
from ..terms import K
from ..crypto import n58e, n58d
P = 2**256 - 2**32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)

def word(v, payload):
    h = v.digest('sha256', v.digest('sha256', payload))[:4]
    return n58e(payload + h)
def rnd(v, n): return bytes(v.rng.getrandbits(8) for _ in range(n))
def secret(v):
    c = v.rng.random()
    if c < .1: return (v.rng.randrange(1, 300)).to_bytes(32, 'big')
    if c < .2: return (N - v.rng.randrange(-2, 300)).to_bytes(32, 'big')
    if c < .25: return bytes(32)
    return rnd(v, 32)
def gen_wif(v, q):
    """valid words and words that are wrong in one respect"""
    r = v.rng; c = r.random()
    key = secret(v)
    if c < .15: return word(v, b'\x80' + key)
    if c < .35: return word(v, b'\x80' + key + b'\1')
    pl = r.choice((b'\x80' + key, b'\x80' + key + b'\1', b'\x80' + key + bytes([r.choice((0, 2, 255, 129))]), b'\x81' + key, b'\x81' + key + b'\1', b'\x7f' + key,
                   b'\x80' + key[1:], b'\x80' + key + b'\1\1', b'', b'\0', b'\x80', b'\x80' + key[:30] + b'\1', bytes([r.getrandbits(8)]) + key, bytes([r.getrandbits(8)]) + key + b'\1',
                   rnd(v, r.randrange(0, 40)), b'\x10\x01' + key, rnd(v, 33), rnd(v, 34)))
    w = word(v, pl)
    d = r.random()
    if d < .5: return w
    if d < .6: return w[:-1]
    if d < .7 and w:
        i = r.randrange(len(w)); return w[:i] + bytes([r.choice(b'23456789ABZabz')]) + w[i + 1:]
    if d < .75: return b'1' + w
    if d < .8: return w + bytes([r.choice(b'0OIl +\n')])
    if d < .85: return b''
    if d < .9: return rnd(v, r.randrange(1, 10))
    i = r.randrange(len(pl) + 1)
    return n58e(pl + v.digest('sha256', v.digest('sha256', pl))[:r.choice((3, 5, 4, 0))])
def ysq(x): return crypto.nsqrt(x ** 3 + 7, P)
def point(v):
    r = v.rng
    while 1:
        x = r.choice((r.randrange(P), r.randrange(P), r.randrange(1, 50), G[0], P - r.randrange(1, 60), N - r.randrange(-3, 40)))
        y = ysq(x)
        if y is not None: return x, r.choice((y, P - y))
def full(p): return b'\4' + p[0].to_bytes(32, 'big') + p[1].to_bytes(32, 'big')
def small(p): return bytes([2 + p[1] % 2]) + p[0].to_bytes(32, 'big')
def gen_pub(v, q):
    r = v.rng; c = r.random()
    p = point(v)
    if c < .25: return full(p)
    if c < .5: return small(p)
    if c < .6: return full((p[0], (p[1] + r.choice((1, 2, P - 1))) % P))
    if c < .7: return bytes([r.choice((2, 3))]) + rnd(v, 32)
    if c < .75: return bytes([r.choice((2, 3))]) + (P + r.randrange(-3, 900)).to_bytes(32, 'big')
    k = r.choice((full(p), small(p)))
    if c < .8: return bytes([r.choice((0, 1, 2, 3, 4, 5, 6, 7, 255))]) + k[1:]
    if c < .85: return k[:-1]
    if c < .9: return k + b'\0'
    if c < .93: return k[:33]
    if c < .96: return b'\4' + p[0].to_bytes(32, 'big') + (p[1] if r.random() < .5 else r.getrandbits(256)).to_bytes(32, 'big')
    return rnd(v, r.choice((0, 1, 33, 65)))
def wif_prefix(v, q):
    """version bytes, some of those whose words begin with a letter of ours"""
    if not hasattr(v, 'wifpre'): v.wifpre = v.rng.choice((b'\x80', b'\x80', b'\x80', b'\xef', bytes([v.rng.getrandbits(8)]), bytes([v.rng.randrange(24, 36)]), bytes([v.rng.randrange(0x70, 0x96)])))
    return v.wifpre
def gen_wif_of(v, q):
    """words of the version byte of the valuation"""
    pre = wif_prefix(v, q)
    if v.rng.random() < .3: return gen_wif(v, q)
    return word(v, pre + secret(v) + v.rng.choice((b'', b'\1', b'\1', b'\2')))
