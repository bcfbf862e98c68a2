"""Reference definitions: private and public keys, addresses, key shares (read by the analysis, never run)."""
import hashlib

P = 2**256 - 2**32 - 977
A = 0
B = 7
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
GX = 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798
GY = 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8


def dhash(data):
    return hashlib.sha256(hashlib.sha256(data).digest()).digest()


def to_word(data):
    return __b58e__(data + dhash(data)[:4])


def of_word(word):
    """the payload of a Base58Check word, None when the checksum is wrong; ValueError when it is not a word"""
    raw = __b58d__(word)
    if dhash(raw[:-4])[:4] != raw[-4:]:
        return None
    return raw[:-4]


def secret_of(wif, prefix):
    key = of_word(wif)
    if key is None or len(key) not in (33, 34) or key[0:1] != prefix:
        raise ValueError()
    first = wif[0:1]
    if len(key) == 33:
        if first != b'5':
            raise ValueError()
        return key[1:]
    if key[33] != 1 or first not in (b'K', b'L'):
        raise ValueError()
    return key[1:33]


def secret_main(wif):
    return secret_of(wif, b'\x80')


def wif_of(key, prefix):
    return to_word(prefix + key)


def wif_main(key):
    return to_word(b'\x80' + key)


def number(data):
    return int.from_bytes(data, 'big')


def num32(n):
    return n.to_bytes(32, 'big')


def on_curve(x, y):
    return x < P and y < P and (y * y - x * x * x - A * x - B) % P == 0


def expand(key):
    """the uncompressed form of a public key"""
    if len(key) == 65 and key[0] == 4:
        x = number(key[1:33])
        y = number(key[33:])
        if x < N and y < N and on_curve(x, y):
            return key
        raise ValueError()
    if len(key) == 33 and (key[0] == 2 or key[0] == 3):
        x = number(key[1:])
        y = __sqrt__(x * x * x + A * x + B, P)
        if y is None:
            raise ValueError()
        if not (x < N and y < N and on_curve(x, y)):
            raise ValueError()
        if y % 2 != key[0] % 2:
            y = P - y
        return b'\x04' + key[1:] + num32(y)
    raise ValueError()


def squeeze(key):
    """the compressed form of an uncompressed public key"""
    if len(key) != 65 or key[0] != 4:
        raise ValueError()
    return bytes([2 + key[64] % 2]) + key[1:33]


def full(pt):
    return b'\x04' + num32(pt[0]) + num32(pt[1])


def small(pt):
    return bytes([2 + pt[1] % 2]) + num32(pt[0])


def base_times(k):
    return __gmul__(P, A, k, (GX, GY))


def keyhash(key):
    h = hashlib.sha512(key).digest()
    return hashlib.sha256(hashlib.new('ripemd160', h[:32]).digest() + hashlib.new('ripemd160', h[32:]).digest()).digest()


def hex4(n):
    return b'%04x' % (n % 0x10000)


def address_of(key, vcn, version):
    return to_word(version + hex4(vcn) + keyhash(key))


def point_of(key):
    """the point a compressed key denotes"""
    if len(key) != 33 or (key[0] != 2 and key[0] != 3):
        raise ValueError()
    x = number(key[1:])
    if x >= P:
        raise ValueError()
    y = __sqrt__(x * x * x + A * x + B, P)
    if y is None:
        raise ValueError()
    if y % 2 != key[0] % 2:
        y = P - y
    if not on_curve(x, y):
        raise ValueError()
    return (x, y)


def tail_point(key):
    """the point of the part of an uncompressed key behind its first byte"""
    if len(key) != 64:
        raise ValueError()
    x = number(key[:32])
    y = number(key[32:])
    if x < N and y < N and on_curve(x, y):
        return (x, y)
    raise ValueError()


def read_public(key):
    """an address made from a public key: (its uncompressed form, whether it is compressed, its own form)"""
    big = expand(key)
    if len(key) == 33:
        return (big, True, squeeze(big))
    return (big, False, big)


def view_address(a):
    return (a.pubKey, a.compressed, a.publicKey())


def read_secret(wif):
    key = of_word(wif)
    if wif[0:1] not in (b'5', b'K', b'L'):
        raise ValueError()
    pt = base_times(number(secret_of(wif, b'\x80')))
    if pt is None:
        raise ValueError()
    big = full(pt)
    if wif[0:1] == b'5':
        return (big, False, big)
    return (big, True, squeeze(big))


def both_forms(key):
    big = expand(key)
    return (big, squeeze(big))


def shared(key, wif):
    big = expand(key)
    k = number(secret_of(wif, b'\x80'))
    pt = __gmul__(P, A, k, (number(big[1:33]), number(big[33:])))
    if pt is None:
        raise ValueError()
    return num32(pt[0])


def version_of(testnet):
    return b'\x6f' if testnet else b'\x00'


def address_public(key, vcn, testnet):
    """what an address made of a public key calls itself"""
    return address_of(read_public(key)[2], vcn, version_of(testnet))


def address_secret(wif, vcn, testnet):
    return address_of(read_secret(wif)[2], vcn, version_of(testnet))


def wallet_secret(k, vcn, testnet):
    return address_of(small(base_times(k)), vcn, version_of(testnet))


def wallet_secret_version(k, vcn, testnet, version):
    return address_of(small(base_times(k)), vcn, version)


def wallet_public(key, vcn, testnet):
    return address_of(small(point_of(key)), vcn, version_of(testnet))


def joint(public_key, wif, vcn, version):
    """the address of the sum of a public key and the public key of a private key"""
    big = public_key
    if len(big) != 65 or big[0] != 4:
        raise ValueError()
    expand(big)
    k = number(secret_of(wif, b'\x80'))
    pt = __gadd__(P, A, (number(big[1:33]), number(big[33:])), base_times(k))
    if pt is None:
        raise ValueError()
    return address_of(full(pt), vcn, version)


def secret_forms(wif, vcn, testnet):
    """addresses and words of a private key, uncompressed and compressed"""
    k = secret_of(wif, b'\x80')
    pt = base_times(number(k))
    if pt is None:
        raise ValueError()
    v = version_of(testnet)
    if wif[0:1] == b'5':
        return (address_of(full(pt), vcn, v), address_of(small(pt), vcn, v), wif, wif_main(k + b'\x01'))
    return (address_of(full(pt), vcn, v), address_of(small(pt), vcn, v), wif_main(k), wif)
