"""Reference definitions: ECDSA (read by the analysis, never run)."""
import hashlib
from spec.keys import P, A, N, GX, GY, number, dhash, expand, num32
from spec.der import sequence, unsigned, signature


def accepts(p, a, g, n, q, z, r, s):
    """is (r, s) a signature of the number z under the point q"""
    if r < 1 or r >= n or s < 1 or s >= n:
        return False
    w = __inv__(s, n)
    t = __gadd__(p, a, __gmul__(p, a, z * w % n, g), __gmul__(p, a, r * w % n, q))
    if t is None:
        return False
    return t[0] % n == r


def makes(p, a, g, n, d, z, k):
    """the signature of z under d with nonce k"""
    t = __gmul__(p, a, k, g)
    if t is None:
        raise ValueError()
    r = t[0] % n
    if r == 0:
        raise ValueError()
    s = __inv__(k, n) * (z + d * r) % n
    if s == 0:
        raise ValueError()
    return (r, s)


def loose(sig):
    """the numbers of a signature read leniently"""
    body, rest = sequence(sig)
    r, rest = unsigned(body)
    s, rest = unsigned(rest)
    return (r, s)


def verify(data, key, sig):
    try:
        big = expand(key)
        r, s = loose(sig)
    except ValueError:
        return False
    return accepts(P, A, (GX, GY), N, (number(big[1:33]), number(big[33:])), number(dhash(data)), r, s)


def sign(data, key, k):
    if len(key) != 32:
        raise ValueError()
    d = number(key)
    if d < 1 or d >= N:
        raise ValueError()
    r, s = makes(P, A, (GX, GY), N, d, number(dhash(data)), k)
    return signature(r, s)


def times(p, a, n, d, g):
    """the public point of d"""
    t = __gmul__(p, a, d, g)
    if t is None:
        raise ValueError()
    if t[0] >= n or t[1] >= n:
        raise ValueError()
    return t


def check_digest(tail, digest, sig):
    """True, or an exception: raw signatures under raw keys"""
    if len(tail) != 64:
        raise ValueError()
    x = number(tail[:32])
    y = number(tail[32:])
    expand(b'\x04' + tail)
    if len(digest) > 32 or len(digest) == 0 or len(sig) != 64:
        raise ValueError()
    if not accepts(P, A, (GX, GY), N, (x, y), number(digest), number(sig[:32]), number(sig[32:])):
        raise ValueError()
    return True


def sign_digest(key, digest, k):
    if len(key) != 32:
        raise ValueError()
    d = number(key)
    if d < 1 or d >= N or len(digest) > 32 or len(digest) == 0 or k < 1 or k >= N:
        raise ValueError()
    r, s = makes(P, A, (GX, GY), N, d, number(digest), k)
    return num32(r) + num32(s)
