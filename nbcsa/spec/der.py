"""Reference definitions: DER (read by the analysis, never run)."""
import base64
from spec.keys import number


# ---------------------------------------------------------------- reading
def read_length(s):
    """(value, octets used)"""
    if not s:
        raise ValueError()
    first = s[0]
    if first < 0x80:
        return (first, 1)
    k = first - 0x80
    if k > len(s) - 1 or k == 0:
        raise ValueError()
    return (number(s[1:1 + k]), 1 + k)


def open_tlv(s, tag):
    """(contents, rest) of what has this tag"""
    if s[:1] != tag:
        raise ValueError()
    n, used = read_length(s[1:])
    return (s[1 + used:1 + used + n], s[1 + used + n:])


def sequence(s):
    return open_tlv(s, b'\x30')


def octets(s):
    return open_tlv(s, b'\x04')


def bits(s):
    return open_tlv(s, b'\x03')


def constructed(s):
    if not s:
        raise ValueError()
    if s[0] < 0xa0 or s[0] > 0xbf:
        raise ValueError()
    n, used = read_length(s[1:])
    return (s[0] - 0xa0, s[1 + used:1 + used + n], s[1 + used + n:])


def unsigned(s):
    """an integer read as a natural number whatever its first bit"""
    body, rest = open_tlv(s, b'\x02')
    if not body:
        raise ValueError()
    return (number(body), rest)


def natural(s):
    """an integer; negative ones are refused"""
    body, rest = open_tlv(s, b'\x02')
    if not body or body[0] >= 0x80:
        raise ValueError()
    return (number(body), rest)


def base128(s):
    """(value, octets used)"""
    value = 0
    used = 0
    while True:
        if used >= len(s):
            raise ValueError()
        value = value * 128 + s[used] % 128
        used = used + 1
        if s[used - 1] < 128:
            return (value, used)


# ---------------------------------------------------------------- writing
def octet_count(n):
    k = 1
    while n >= 256 ** k:
        k = k + 1
    return k


def length_of(n):
    if n < 0:
        raise ValueError()
    if n < 128:
        return bytes([n])
    k = octet_count(n)
    return bytes([0x80 + k]) + n.to_bytes(k, 'big')


def tlv(tag, body):
    return tag + length_of(len(body)) + body


def integer(n):
    if n < 0:
        raise ValueError()
    k = octet_count(n)
    if n >= 128 * 256 ** (k - 1):
        k = k + 1
    return tlv(b'\x02', n.to_bytes(k, 'big'))


def signature(r, s):
    return tlv(b'\x30', integer(r) + integer(s))


def base128_of(n):
    if n < 0:
        raise ValueError()
    k = 1
    while n >= 128 ** k:
        k = k + 1
    out = b''
    for i in range(k):
        d = (n // 128 ** (k - 1 - i)) % 128
        if i < k - 1:
            d = d + 128
        out = out + bytes([d])
    return out


def oid(first, second, rest):
    if first > 2 or second > 39:
        raise ValueError()
    body = bytes([40 * first + second])
    for n in rest:
        body = body + base128_of(n)
    return tlv(b'\x06', body)


def read_oid(s):
    """(numbers, rest)"""
    body, rest = open_tlv(s, b'\x06')
    if not body:
        raise ValueError()
    n, used = base128(body)
    out = [n // 40, n % 40]
    body = body[used:]
    while body:
        n, used = base128(body)
        out.append(n)
        body = body[used:]
    return (tuple(out), rest)


def strict_signature(sig):
    body, rest = sequence(sig)
    if rest:
        raise ValueError()
    r, tail = natural(body)
    s, tail = natural(tail)
    if tail:
        raise ValueError()
    return (r, s)


def low(s, n):
    return n - s if 2 * s > n else s


# ---------------------------------------------------------------- keys
EC = (1, 2, 840, 10045, 2, 1)
CURVES = (
    ('NIST192p', (1, 2, 840, 10045, 3, 1, 1), 24),
    ('NIST224p', (1, 3, 132, 0, 33), 28),
    ('NIST256p', (1, 2, 840, 10045, 3, 1, 7), 32),
    ('NIST384p', (1, 3, 132, 0, 34), 48),
    ('NIST521p', (1, 3, 132, 0, 35), 66),
    ('SECP256k1', (1, 3, 132, 0, 10), 32),
)


def public_key(x, y, size, numbers):
    point = b'\x00\x04' + x.to_bytes(size, 'big') + y.to_bytes(size, 'big')
    head = oid(EC[0], EC[1], EC[2:]) + oid(numbers[0], numbers[1], numbers[2:])
    return tlv(b'\x30', tlv(b'\x30', head) + tlv(b'\x03', point))


def private_key(d, x, y, size, numbers):
    point = b'\x00\x04' + x.to_bytes(size, 'big') + y.to_bytes(size, 'big')
    head = oid(numbers[0], numbers[1], numbers[2:])
    return tlv(b'\x30', integer(1) + tlv(b'\x04', d.to_bytes(size, 'big')) + tlv(b'\xa0', head) + tlv(b'\xa1', tlv(b'\x03', point)))


def curve_named(numbers):
    for c in CURVES:
        if c[1] == numbers:
            return c
    raise ValueError()


def read_public_key(s):
    """(curve, octets of the point)"""
    body, rest = sequence(s)
    if rest:
        raise ValueError()
    head, tail = sequence(body)
    kind, rest = read_oid(head)
    numbers, rest = read_oid(rest)
    if rest or kind != EC:
        raise ValueError()
    c = curve_named(numbers)
    point, rest = bits(tail)
    if rest or point[:2] != b'\x00\x04' or len(point) != 2 + 2 * c[2]:
        raise ValueError()
    return (c[0], point[2:])


def read_private_key(s):
    """(curve, octets of the key)"""
    body, rest = sequence(s)
    if rest:
        raise ValueError()
    one, body = natural(body)
    if one != 1:
        raise ValueError()
    key, body = octets(body)
    tag, inner, body = constructed(body)
    if tag != 0:
        raise ValueError()
    numbers, rest = read_oid(inner)
    if rest:
        raise ValueError()
    c = curve_named(numbers)
    if len(key) > c[2]:
        raise ValueError()
    return (c[0], b'\x00' * (c[2] - len(key)) + key)


def usable(x, y, p, a, b, n):
    """is (x, y) usable as a public key"""
    if x >= n or y >= n or (y * y - (x * x * x + a * x + b)) % p != 0:
        return False
    return __gmul__(p, a, n, (x, y)) is None


def key_numbers(s, size, p, a, b, n):
    if len(s) != 2 * size:
        raise ValueError()
    x = number(s[:size])
    y = number(s[size:])
    if not usable(x, y, p, a, b, n):
        raise ValueError()
    return (x, y)


def own_point(d, p, a, n, g):
    """the public point of the key d"""
    if d < 1 or d >= n:
        raise ValueError()
    t = __gmul__(p, a, d, g)
    if t is None:
        raise ValueError()
    if t[0] >= n or t[1] >= n:
        raise ValueError()
    return t


def export_public(d, size, numbers, p, a, n, g):
    t = own_point(d, p, a, n, g)
    return public_key(t[0], t[1], size, numbers)


def export_private(d, size, numbers, p, a, n, g):
    t = own_point(d, p, a, n, g)
    return private_key(d, t[0], t[1], size, numbers)


def import_private(s, size, p, a, n, g):
    if len(s) != size:
        raise ValueError()
    d = number(s)
    own_point(d, p, a, n, g)
    return d


def raw_signature(s, size):
    if len(s) != 2 * size:
        raise ValueError()
    return (number(s[:size]), number(s[size:]))


def raw_pair(a, b, size):
    if len(a) != size or len(b) != size:
        raise ValueError()
    return (number(a), number(b))


def pem(body, name):
    text = base64.b64encode(body)
    out = b'-----BEGIN ' + name + b'-----\n'
    for i in range((len(text) + 63) // 64):
        out = out + text[64 * i:64 * i + 64] + b'\n'
    return out + b'-----END ' + name + b'-----\n'
