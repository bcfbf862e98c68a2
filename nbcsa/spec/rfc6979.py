"""Reference definition: RFC 6979, section 3.2 (read by the analysis, never run)."""
import hmac
from spec.sig import makes


class Group(object):
    def __init__(self, n):
        self.n = n

    def order(self):
        return self.n


def bits2int(data, qlen):
    x = int.from_bytes(data, 'big')
    if len(data) * 8 > qlen:
        x = x >> (len(data) * 8 - qlen)
    return x


def nonce(n, qlen, x, h1, mod, hlen):
    """n has qlen bits; mod is the hash function, of hlen octets"""
    rlen = (qlen + 7) // 8
    z = bits2int(h1, qlen)
    if z >= n:
        z = z - n
    seed = x.to_bytes(rlen, 'big') + z.to_bytes(rlen, 'big')
    v = b'\x01' * hlen
    k = b'\x00' * hlen
    k = hmac.new(k, v + b'\x00' + seed, mod).digest()
    v = hmac.new(k, v, mod).digest()
    k = hmac.new(k, v + b'\x01' + seed, mod).digest()
    v = hmac.new(k, v, mod).digest()
    while True:
        t = b''
        while len(t) < rlen:
            v = hmac.new(k, v, mod).digest()
            t = t + v
        c = bits2int(t, qlen)
        if 1 <= c and c < n:
            return c
        k = hmac.new(k, v + b'\x00', mod).digest()
        v = hmac.new(k, v, mod).digest()


def sign_digest(p, a, g, n, qlen, blen, x, digest, mod, hlen):
    if len(digest) > blen or len(digest) == 0:
        raise ValueError()
    k = nonce(n, qlen, x, digest, mod, hlen)
    r, s = makes(p, a, g, n, x, int.from_bytes(digest, 'big'), k)
    return r.to_bytes(blen, 'big') + s.to_bytes(blen, 'big')
