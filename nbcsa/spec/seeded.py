"""Reference definitions: secret exponents derived from a seed (read by the analysis, never run)."""
import hashlib
from spec.keys import number
from spec.der import octet_count


sha1 = hashlib.sha1
sha256 = hashlib.sha256
sha512 = hashlib.sha512


def stream(seed, n):
    """the first n octets of the generator of a seed: digests of a counter and the seed"""
    out = b''
    i = 0
    while len(out) < n:
        out = out + hashlib.sha256(('prng-%d-%s' % (i, seed)).encode()).digest()
        i = i + 1
    return out[:n]


def three(seed, a, b, c):
    s = stream(seed, a + b + c)
    return (s[:a], s[a:a + b], s[a + b:])


def fits(k, order):
    if not 1 <= k < order:
        raise ValueError()
    return k


def overshoot(seed, order):
    return 1 + number(stream(seed, 2 * octet_count(order))) % (order - 1)


def cut_octets(digest, order, bits):
    size = (bits + 7) // 8
    if len(digest) > size:
        digest = digest[:size]
    return fits(1 + number(digest), order)


def cut_bits(digest, order, bits):
    size = (bits + 7) // 8
    n = number(digest[:size])
    if len(digest) >= size:
        n = n % 2 ** bits
    return fits(1 + n, order)


def part(seed, at, n):
    return __app__('prng', 'bytes', seed, at, n)


def first_below(seed, order, bits):
    """the first number of the stream, bits at a time, that is below the order"""
    if order <= 1:
        raise ValueError()
    whole = bits // 8
    at = 0
    while True:
        head = b''
        if bits % 8:
            head = bytes([part(seed, at, 1)[0] & (2 ** (bits % 8) - 1)])
            at = at + 1
        c = number(head + part(seed, at, whole)) + 1
        at = at + whole
        if c < order:
            return c
