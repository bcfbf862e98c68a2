"""Reference definitions: the modes of SP 800-38A over a block function, padding, streams (read by the analysis, never run)."""


def forward(key, block):
    return __app__('aesenc', 'bytes', key, block)


def backward(key, block):
    return __app__('aesdec', 'bytes', key, block)


def good_key(key):
    if len(key) not in (16, 24, 32):
        raise ValueError()


def xor(a, b):
    return bytes([a[i] ^ b[i] for i in range(min(len(a), len(b)))])


def start(iv):
    if iv is None:
        return bytes(16)
    if len(iv) != 16:
        raise ValueError()
    return iv


def ecb(key, calls, encrypting):
    good_key(key)
    out = []
    for data in calls:
        if len(data) != 16:
            raise ValueError()
        out.append(forward(key, data) if encrypting else backward(key, data))
    return out


def cbc_encrypt(key, iv, calls):
    last = start(iv)
    good_key(key)
    out = []
    for data in calls:
        if len(data) != 16:
            raise ValueError()
        last = forward(key, xor(data, last))
        out.append(last)
    return out


def cbc_decrypt(key, iv, calls):
    last = start(iv)
    good_key(key)
    out = []
    for data in calls:
        if len(data) != 16:
            raise ValueError()
        out.append(xor(backward(key, data), last))
        last = data
    return out


def cfb(key, iv, size, calls, encrypting):
    reg = start(iv)
    good_key(key)
    out = []
    for data in calls:
        if len(data) % size != 0:
            raise ValueError()
        got = b''
        for i in range(0, len(data), size):
            seg = data[i:i + size]
            res = xor(seg, forward(key, reg))
            got = got + res
            reg = (reg + (res if encrypting else seg))[size:]
        out.append(got)
    return out


def keystream(key, calls, blocks):
    """the stream of blocks, consumed without gaps over the calls"""
    out = []
    at = 0
    for data in calls:
        got = []
        for c in data:
            got.append(c ^ blocks[at // 16][at % 16])
            at = at + 1
        out.append(bytes(got))
    return out


def count(calls):
    n = 0
    for data in calls:
        n = n + len(data)
    return (n + 15) // 16


def ofb(key, iv, calls):
    last = start(iv)
    good_key(key)
    blocks = []
    for i in range(count(calls)):
        last = forward(key, last)
        blocks.append(last)
    return keystream(key, calls, blocks)


def counter_block(n):
    return bytes([(n >> (120 - 8 * i)) & 255 for i in range(16)])


def ctr(key, first, calls):
    good_key(key)
    blocks = []
    for i in range(count(calls)):
        blocks.append(forward(key, counter_block((first + i) % 2 ** 128)))
    return keystream(key, calls, blocks)


def pad(data):
    n = 16 - len(data) % 16
    return data + bytes([n]) * n


def unpad(data):
    if len(data) == 0 or len(data) % 16 != 0:
        raise ValueError()
    n = data[len(data) - 1]
    if n == 0 or n > 16:
        raise ValueError()
    for i in range(n):
        if data[len(data) - 1 - i] != n:
            raise ValueError()
    return data[:len(data) - n]


def blocks(data):
    return [data[i:i + 16] for i in range(0, len(data), 16)]


def joined(parts):
    r = b''
    for p in parts:
        r = r + p
    return r


def whole(data, n):
    while len(data) % n:
        data = data + bytes(1)
    return data


def blockwise(mode, key, iv, data):
    if mode == 'ECB':
        return joined(ecb(key, blocks(data), True))
    return joined(cbc_encrypt(key, iv, blocks(data)))


def streamwise(mode, key, iv, data, encrypting):
    if mode == 'OFB':
        return ofb(key, iv, [data])[0]
    if mode == 'CTR':
        return ctr(key, 1, [data])[0]
    return cfb(key, iv, mode, [whole(data, mode)], encrypting)[0][:len(data)]


def stream_encrypt(mode, key, iv, data):
    if mode == 'ECB' or mode == 'CBC':
        return blockwise(mode, key, iv, pad(data))
    return streamwise(mode, key, iv, data, True)


def stream_decrypt(mode, key, iv, data):
    if mode == 'ECB' or mode == 'CBC':
        if len(data) == 0 or len(data) % 16:
            raise ValueError()
        return unpad(joined(ecb(key, blocks(data), False) if mode == 'ECB' else cbc_decrypt(key, iv, blocks(data))))
    return streamwise(mode, key, iv, data, False)
