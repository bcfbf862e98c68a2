"""Reference layouts of the wire structures (read by the analysis, never run).

A kind is ('num', bytes, signed, order), ('var',), ('ip',), ('raw', n), ('str',), ('list', kind, min, max),
('struct', name), ('addr0',) - a network address without its time stamp - or ('opt', kind, default).
"""
import hashlib

U1 = ('num', 1, False, 'little')
I1 = ('num', 1, True, 'little')
I4 = ('num', 4, True, 'little')
U4 = ('num', 4, False, 'little')
I8 = ('num', 8, True, 'little')
U8 = ('num', 8, False, 'little')
PORT = ('num', 2, False, 'big')
VAR = ('var',)
IP = ('ip',)
STR = ('str',)
B32 = ('raw', 32)
B8 = ('raw', 8)
ADDR0 = ('addr0',)


def S(name):
    return ('struct', name)


def L(kind, least=0, most=None):
    return ('list', kind, least, most)


HEAD = [('version', U4), ('prev_block', B32), ('merkle_root', B32), ('timestamp', U4), ('bits', U4), ('nonce', U4)]
TX = [('version', U4), ('tx_in', L(S('TxnIn'), 1)), ('tx_out', L(S('TxnOut'), 1)), ('lock_time', U4)]

STRUCTS = {
    'NetworkAddress': [('timestamp', U4), ('services', U8), ('address', IP), ('port', PORT)],
    'InventoryVector': [('object_type', U4), ('hash', B32)],
    'OutPoint': [('hash', B32), ('index', U4)],
    'TxnIn': [('previous_output', S('OutPoint')), ('signature_script', STR), ('sequence', U4)],
    'TxnOut': [('value', I8), ('pk_script', STR)],
    'Txn': TX,
    'BlockHeader': HEAD + [('txn_count', VAR)],
}

GETBLOCKS = [('version', U4), ('block_locator_hashes', L(B32, 1)), ('hash_stop', B32)]
INV = [('inventory', L(S('InventoryVector'), 0, 50000))]

# command -> (class, name of the handler, fields)
MESSAGES = {
    'version': ('Version', 'version', [('version', I4), ('services', U8), ('timestamp', I8), ('addr_recv', ADDR0), ('addr_from', ADDR0),
                                       ('nonce', B8), ('user_agent', STR), ('start_height', I4), ('relay', ('opt', U1, True))]),
    'verack': ('VersionAck', 'version_ack', []),
    'addr': ('Address', 'address', [('addr_list', L(S('NetworkAddress'), 0, 1000))]),
    'inv': ('Inventory', 'inventory', INV),
    'getdata': ('GetData', 'get_data', INV),
    'notfound': ('NotFound', 'not_found', INV),
    'getblocks': ('GetBlocks', 'get_blocks', GETBLOCKS),
    'getheaders': ('GetHeaders', 'get_headers', GETBLOCKS),
    'tx': ('Transaction', 'transaction', TX),
    'block': ('Block', 'block', HEAD + [('txns', L(S('Txn')))]),
    'headers': ('Headers', 'headers', [('headers', L(S('BlockHeader')))]),
    'getaddr': ('GetAddress', 'get_address', []),
    'mempool': ('MemoryPool', 'memory_pool', []),
    'ping': ('Ping', 'ping', [('nonce', B8)]),
    'pong': ('Pong', 'pong', [('nonce', B8)]),
    'reject': ('Reject', 'reject', [('message', STR), ('ccode', U1), ('reason', STR)]),
    'alert': ('Alert', 'alert', [('payload', STR), ('signature', STR)]),
}


def take(data, off, n):
    if len(data) < off + n:
        raise ValueError('ends early')
    return data[off:off + n]


def varint(data):
    """(bytes used, number)"""
    first = take(data, 0, 1)[0]
    if first == 0xfd:
        return (3, int.from_bytes(take(data, 1, 2), 'little'))
    if first == 0xfe:
        return (5, int.from_bytes(take(data, 1, 4), 'little'))
    if first == 0xff:
        return (9, int.from_bytes(take(data, 1, 8), 'little'))
    return (1, first)


def put_varint(n):
    if n < 0xfd:
        return n.to_bytes(1, 'little')
    if n < 0x10000:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n < 0x100000000:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def ip_text(b):
    if b[:12] == b'\0\0\0\0\0\0\0\0\0\0\xff\xff':
        return '%d.%d.%d.%d' % (b[12], b[13], b[14], b[15])
    return ':'.join(['%x' % int.from_bytes(b[i:i + 2], 'big') for i in (0, 2, 4, 6, 8, 10, 12, 14)])


def read(kind, data, off):
    """(offset behind, view of the value)"""
    k = kind[0]
    if k == 'num':
        return (off + kind[1], int.from_bytes(take(data, off, kind[1]), kind[3], signed=kind[2]))
    if k == 'var':
        n, v = varint(data[off:])
        return (off + n, v)
    if k == 'ip':
        return (off + 16, ip_text(take(data, off, 16)))
    if k == 'raw':
        return (off + kind[1], take(data, off, kind[1]))
    if k == 'str':
        n, size = varint(data[off:])
        return (off + n + size, take(data, off + n, size))
    if k == 'struct':
        return read_fields(STRUCTS[kind[1]], data, off)
    if k == 'addr0':
        off, services = read(U8, data, off)
        off, address = read(IP, data, off)
        off, port = read(PORT, data, off)
        return (off, (0, services, address, port))
    if k == 'opt':
        if len(data) - off < kind[1][1]:
            return (off, kind[2])
        return read(kind[1], data, off)
    n, count = varint(data[off:])
    if count < kind[2]:
        raise ValueError('too few')
    if kind[3] is not None and count > kind[3]:
        raise ValueError('too many')
    off = off + n
    out = []
    for i in range(count):
        off, v = read(kind[1], data, off)
        out.append(v)
    return (off, out)


def read_fields(fields, data, off):
    out = []
    for name, kind in fields:
        off, v = read(kind, data, off)
        out.append(v)
    return (off, tuple(out))


def read_struct(name, data):
    return read_fields(STRUCTS[name], data, 0)


def read_message(command, payload):
    return read_fields(MESSAGES[command][2], payload, 0)[1]


def view(kind, v):
    """the view of a value of the package"""
    k = kind[0]
    if k == 'struct':
        return view_fields(STRUCTS[kind[1]], v)
    if k == 'addr0':
        return view_fields(STRUCTS['NetworkAddress'], v)
    if k == 'list':
        return [view(kind[1], x) for x in v]
    return v


def view_fields(fields, o):
    return tuple([view(kind, getattr(o, name)) for name, kind in fields])


def view_struct(name, o):
    return view_fields(STRUCTS[name], o)


def view_message(command, o):
    return view_fields(MESSAGES[command][2], o)


def write(kind, v):
    """bytes of a view"""
    k = kind[0]
    if k == 'num':
        return int(v).to_bytes(kind[1], kind[3], signed=kind[2])
    if k == 'var':
        return put_varint(v)
    if k == 'ip':
        return ip_bytes(v)
    if k == 'raw':
        return v
    if k == 'str':
        if isinstance(v, str):
            v = v.encode('latin-1')
        return put_varint(len(v)) + v
    if k == 'struct':
        return write_fields(STRUCTS[kind[1]], v)
    if k == 'addr0':
        return write(U8, v[1]) + write(IP, v[2]) + write(PORT, v[3])
    if k == 'opt':
        return write(kind[1], v)
    out = put_varint(len(v))
    for x in v:
        out = out + write(kind[1], x)
    return out


def write_fields(fields, v):
    out = b''
    for i in range(len(fields)):
        out = out + write(fields[i][1], v[i])
    return out


def write_struct(name, v):
    return write_fields(STRUCTS[name], v)


def ip_bytes(text):
    parts = text.split('.')
    if len(parts) == 4:
        return b'\0\0\0\0\0\0\0\0\0\0\xff\xff' + bytes([int(p) for p in parts])
    return b''.join([int(p, 16).to_bytes(2, 'big') for p in text.split(':')])


def dhash(data):
    return hashlib.sha256(hashlib.sha256(data).digest()).digest()


def frame(magic, command, payload):
    name = command.encode('ascii')
    return magic + name + b'\0' * (12 - len(name)) + len(payload).to_bytes(4, 'little') + dhash(payload)[:4] + payload


def rewrite_struct(name, data):
    return write_struct(name, read_struct(name, data)[1])


def rewrite_message(command, payload, magic):
    return frame(magic, command, write_fields(MESSAGES[command][2], read_message(command, payload)))


def unless_none(v, f):
    if v is None:
        return None
    return f(v)


def read_back(b, rest, parse):
    if b is None:
        return None
    return parse(b + rest)


def read_num(n, signed, order, data):
    return (n, int.from_bytes(take(data, 0, n), order, signed=signed))


def in_range(n, signed, x):
    if signed:
        return -(1 << (8 * n - 1)) <= x < (1 << (8 * n - 1))
    return 0 <= x < (1 << (8 * n))


def write_num(n, signed, order, x):
    if in_range(n, signed, x):
        return x.to_bytes(n, order, signed=signed)
    return None


def back_num(n, signed, x, rest):
    if in_range(n, signed, x):
        return (n, x)
    return None


def write_var(x):
    if in_range(8, False, x):
        return put_varint(x)
    return None


def back_var(x, rest):
    if in_range(8, False, x):
        return (len(put_varint(x)), x)
    return None


def read_raw(n, data):
    return (n, take(data, 0, n))


def write_raw(n, s):
    if len(s) == n:
        return s
    return None


def back_raw(n, s, rest):
    if len(s) == n:
        return (n, s)
    return None


def read_str(data):
    n, size = varint(data)
    return (n + size, take(data, n, size))


def put_str(s):
    return put_varint(len(s)) + s


def back_str(s, rest):
    return (len(put_str(s)), s)


def read_ip(data):
    return (16, ip_text(take(data, 0, 16)))


def group(text, base, top):
    """a group of an address, None if it is not one"""
    try:
        n = int(text, base)
    except ValueError:
        return None
    if n < 0 or n > top:
        return None
    return n


def groups(parts, base, top):
    out = []
    for p in parts:
        g = group(p, base, top)
        if g is None:
            return None
        out.append(g)
    return out


def write_ip(text):
    parts = text.split('.')
    if len(parts) == 4:
        g = groups(parts, 10, 255)
        if g is None:
            return None
        return b'\0\0\0\0\0\0\0\0\0\0\xff\xff' + bytes(g)
    sides = text.split('::')
    if len(sides) > 2 or len(text.split(':')) < 2 or text == '::':
        return None
    if len(sides) == 1:
        g = groups(text.split(':'), 16, 65535)
    else:
        left = sides[0].split(':') if sides[0] else []
        right = sides[1].split(':') if sides[1] else []
        if len(left) + len(right) > 7:
            return None
        g = groups(left + ['0'] * (8 - len(left) - len(right)) + right, 16, 65535)
    if g is None or len(g) != 8:
        return None
    return b''.join([n.to_bytes(2, 'big') for n in g])


def read_at0(kind, data):
    return read(kind, data, 0)


def back_list(kind, values):
    if len(values) < kind[2] or (kind[3] is not None and len(values) > kind[3]):
        return None
    out = []
    for v in values:
        out.append(v)
    return (len(write(kind, values)), out)


def addr0_back(services, ip, port, rest):
    b = services.to_bytes(8, 'little') + ip + port.to_bytes(2, 'big')
    return (b, 26, services, ip_text(ip), port)


def make(kinds, values):
    out = b''
    for i in range(len(kinds)):
        k = kinds[i]
        if k[0] == 'num' and not in_range(k[1], k[2], values[i]):
            raise ValueError('out of range')
        if k[0] == 'var' and not in_range(8, False, values[i]):
            raise ValueError('out of range')
        if k[0] == 'raw' and len(values[i]) != k[1]:
            raise ValueError('wrong length')
        out = out + write(k, values[i])
    return out


class MsgFormatError(Exception):
    pass


class UnknownMsgError(Exception):
    pass


def read_frame(data, magic):
    if data[:4] != magic:
        raise MsgFormatError('not our network')
    if len(data) < 24:
        raise MsgFormatError('no header')
    size = int.from_bytes(data[16:20], 'little')
    payload = data[24:24 + size]
    if len(payload) != size:
        raise MsgFormatError('payload incomplete')
    if data[20:24] != dhash(payload)[:4]:
        raise MsgFormatError('checksum')
    name = data[4:16].strip(b'\0').decode('latin-1')
    if name not in MESSAGES:
        raise UnknownMsgError('no such message')
    read_message(name, payload)
    return (name, magic)


def frame_size(data):
    if len(data) < 20:
        return None
    return 24 + int.from_bytes(data[16:20], 'little')


def frame_name(data):
    return data[4:16].strip(b'\0').decode('latin-1')


def read_frame_of(m4, name12, rest, magic):
    return read_frame(m4 + name12 + rest, magic)


def hash_struct(name, data):
    b = rewrite_struct(name, data)
    h = dhash(b[:80]) if name == 'BlockHeader' else dhash(b)
    return (h, h, b)


class Stored(object):
    """a block as a chain keeps it"""


def stored_header(b, n):
    return write_struct('BlockHeader', [b.version, b.previous_hash, b.merkle_root, b.timestamp, b.bits, b.nonce, n])


def put_optional(x):
    """one octet, or the default for what does not fit in one"""
    return bytes([x]) if 0 <= x < 256 else b'\1'


def made_version(version, services, timestamp, nonce, agent, height, relay):
    """the bytes of a version message made of its fields"""
    a = services.to_bytes(8, 'little') + bytes(10) + b'\xff\xff\x0a\1\2\3\x20\x8d'
    return (version.to_bytes(4, 'little', signed=True) + services.to_bytes(8, 'little') + int(timestamp).to_bytes(8, 'little', signed=True) + a + a + nonce
            + bytes([len(agent)]) + agent + height.to_bytes(4, 'little', signed=True) + put_optional(relay))


def put_float(x, size):
    """a whole number of octets, or None for what is out of range"""
    if 0 <= x < 256 ** size:
        return int(x).to_bytes(size, 'little')
    return None
