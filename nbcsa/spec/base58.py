"""Reference definitions: Base58 (read by the analysis, never run)."""

LETTERS = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def zeros(data, c):
    n = 0
    while n < len(data) and data[n] == c:
        n += 1
    return n


def digits(n):
    out = b''
    while n > 0:
        out = LETTERS[n % 58:n % 58 + 1] + out
        n = n // 58
    return out


def encode(data):
    return b'1' * zeros(data, 0) + digits(int.from_bytes(data, 'big'))


def encode_text(text):
    return encode(text.encode('ascii'))


def value(word):
    n = 0
    for c in word:
        n = n * 58 + LETTERS.index(c)
    return n


def octets(n):
    out = b''
    while n > 0:
        out = bytes([n % 256]) + out
        n = n // 256
    return out


def decode(word):
    return b'\x00' * zeros(word, 49) + octets(value(word))


def decode_text(text):
    return decode(text.encode('ascii'))


def encode_number(n):
    if n == 0:
        return b'1'
    return digits(n)


def encode_number0(n, one):
    if n == 0:
        return b'1' if one else b''
    return digits(n)
