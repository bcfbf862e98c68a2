"""Reference definitions: AES as in FIPS-197, the modes of SP 800-38A (read by the analysis, never run)."""


def xtime(a):
    return (a << 1) ^ (0x11b if a & 0x80 else 0)


def powers():
    e = [1]
    for i in range(254):
        e.append(e[-1] ^ xtime(e[-1]))
    return e


EXP = powers()
LOG = {}
for _i in range(255):
    LOG[EXP[_i]] = _i


def times(k):
    """multiplication by k in GF(2^8), as a table"""
    return [0] + [EXP[(LOG[k] + LOG[x]) % 255] for x in range(1, 256)]


def affine(x):
    r = 0x63
    for i in range(5):
        r = r ^ ((x << i | x >> (8 - i)) & 0xff)
    return r


SBOX = [affine(0)] + [affine(EXP[(255 - LOG[x]) % 255]) for x in range(1, 256)]
INV = [0] * 256
for _i in range(256):
    INV[SBOX[_i]] = _i
M2 = times(2)
M3 = times(3)
M9 = times(9)
M11 = times(11)
M13 = times(13)
M14 = times(14)


def expand(key):
    nk = len(key) // 4
    w = []
    for i in range(nk):
        w.append([key[4 * i], key[4 * i + 1], key[4 * i + 2], key[4 * i + 3]])
    c = 1
    for i in range(nk, 4 * (nk + 7)):
        x = w[i - 1]
        if i % nk == 0:
            x = [SBOX[x[1]] ^ c, SBOX[x[2]], SBOX[x[3]], SBOX[x[0]]]
            c = xtime(c)
        elif nk > 6 and i % nk == 4:
            x = [SBOX[x[0]], SBOX[x[1]], SBOX[x[2]], SBOX[x[3]]]
        y = w[i - nk]
        w.append([y[0] ^ x[0], y[1] ^ x[1], y[2] ^ x[2], y[3] ^ x[3]])
    return w


def add(s, w, r):
    return [s[i] ^ w[4 * r + i // 4][i % 4] for i in range(16)]


def mix(s, a, b, c, d):
    out = []
    for i in range(16):
        k = 4 * (i // 4)
        j = i % 4
        out.append(a[s[i]] ^ b[s[k + (j + 1) % 4]] ^ c[s[k + (j + 2) % 4]] ^ d[s[k + (j + 3) % 4]])
    return out


ID = list(range(256))


def encrypt(key, block):
    if len(key) not in (16, 24, 32) or len(block) != 16:
        raise ValueError()
    w = expand(key)
    nr = len(w) // 4 - 1
    s = add(block, w, 0)
    for r in range(1, nr + 1):
        s = [SBOX[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < nr:
            s = mix(s, M2, M3, ID, ID)
        s = add(s, w, r)
    return s


def decrypt(key, block):
    if len(key) not in (16, 24, 32) or len(block) != 16:
        raise ValueError()
    w = expand(key)
    nr = len(w) // 4 - 1
    s = add(block, w, nr)
    for r in range(nr - 1, -1, -1):
        s = [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
        s = [INV[x] for x in s]
        s = add(s, w, r)
        if r > 0:
            s = mix(s, M14, M11, M13, M9)
    return s
