"""Shared by the wire properties."""
from .. import terms as t, env
from ..terms import mk, K, B, lift
from ..spec import wire as W

STRUCTS = ['NetworkAddress', 'InventoryVector', 'OutPoint', 'TxnIn', 'TxnOut', 'Txn', 'BlockHeader']

def _cvar(b):
    """(bad, length, value) of constant bytes"""
    if not b: return True, 1, 0
    n = {0xfd: 3, 0xfe: 5, 0xff: 9}.get(b[0], 1)
    if len(b) < n: return True, n, 0
    return False, n, int.from_bytes(b[1:n], 'little') if n > 1 else b[0]
def varint(I, f, args, kw):
    """summary of the variable-length integer (the codec itself is compared in C02)"""
    b = args[-1]
    if any(l.sort != 'bytes' for l in t.leaves(b)): return None
    bad = lift(lambda x: K(_cvar(x.a[1])[0]) if x.op == 'c' else B(mk('varbad', (x,), 'bool')), (b,))
    I.raise_if(bad, 'ValueError')
    n = lift(lambda x: K(_cvar(x.a[1])[1]) if x.op == 'c' else mk('varlen', (x,), 'int', 1, 9), (b,))
    v = lift(lambda x: K(_cvar(x.a[1])[2]) if x.op == 'c' else mk('varval', (x,), 'int', 0, 2**64 - 1), (b,))
    return t.tup([I.simpv(n), I.simpv(v)])
VARINT = {'nbc.protocol.format.FtVarInteger.parse': varint, 'spec.wire.varint': varint}

def parse_struct(name):
    def f(I, a):
        r = I.call(I.member('nbc.protocol.format.%s.parse' % name), [a[0]], {})
        n, o = I.unpack(r, 2)
        return t.tup([n, I.call(I.member('spec.wire.view_struct'), [K(name), o], {})])
    return f
def spec_struct(name):
    def f(I, a): return I.call(I.member('spec.wire.read_struct'), [K(name), a[0]], {})
    return f

LIMIT = 2**32 - 1
def payload(I):
    p = t.sym('payload', 'bytes')
    return [p, t.sym('magic', 'bytes', None, None, 4)]
def short(I, a):
    """frames whose length fits the length field"""
    return t.le(t.length(a[0]), K(LIMIT))
def spec(I, name, *args): return I.call(I.member('spec.wire.' + name), [K(x) if isinstance(x, (str, int, bytes)) else x for x in args], {})
def parse_message(cmd):
    def f(I, a):
        fr = spec(I, 'frame', a[1], cmd, a[0])
        m = I.call(I.member('nbc.protocol.messages.Message.parse'), [fr, a[1]], {})
        return spec(I, 'view_message', cmd, m)
    return f
def spec_message(cmd):
    return lambda I, a: spec(I, 'read_message', cmd, a[0])
def rewrite_message(cmd):
    def f(I, a):
        fr = spec(I, 'frame', a[1], cmd, a[0])
        m = I.call(I.member('nbc.protocol.messages.Message.parse'), [fr, a[1]], {})
        return I.call(I.getattr_(m, 'binary'), [a[1]], {})
    return f
def spec_rewrite_message(cmd):
    return lambda I, a: spec(I, 'rewrite_message', cmd, a[0], a[1])
def rewrite_struct(name):
    def f(I, a):
        r = I.call(I.member('nbc.protocol.format.%s.parse' % name), [a[0]], {})
        n, o = I.unpack(r, 2)
        return I.call(I.getattr_(o, 'binary'), [], {})
    return f
def spec_rewrite_struct(name):
    return lambda I, a: spec(I, 'rewrite_struct', name, a[0])
COMMANDS = ['version', 'verack', 'addr', 'inv', 'getdata', 'notfound', 'getblocks', 'getheaders', 'tx', 'block', 'headers', 'getaddr', 'mempool',
            'ping', 'pong', 'reject', 'alert']

# ------------------------------------------------------------ byte strings near the layouts, for valuations
def enc_var(n, r):
    c = r.random()
    if c < .93: return W.put_varint(n)
    for w, m in ((2, 0xfd), (4, 0xfe), (8, 0xff)):          # longer than needed
        if r.random() < .4 and n < 256 ** w: return bytes([m]) + n.to_bytes(w, 'little')
    return W.put_varint(n)
def gen(kind, r, cuts, out, exact=None):
    k = kind[0]
    cuts.append(len(out))
    def rnd(n):
        c = r.random()
        if c < .12: return bytes(n)
        if c < .24: return b'\xff' * n
        if c < .34: return (1 << r.randrange(8 * n)).to_bytes(n, r.choice(('big', 'little')))
        if c < .4: return ((1 << r.randrange(8 * n)) - 1).to_bytes(n, r.choice(('big', 'little')))
        return bytes(r.getrandbits(8) for _ in range(n))
    def met(n):
        # numbers the code or the reference compares with, and their neighbours
        ints = [x for x in getattr(r, 'consts', ()) if abs(x) < 256 ** n]
        return ((r.choice(ints) + r.choice((0, 0, 1, -1))) % 256 ** n).to_bytes(n, 'little') if ints else rnd(n)
    if k == 'num': out += met(kind[1]) if r.random() < .3 else rnd(kind[1])
    elif k == 'var': out += enc_var(r.choice((0, 1, 2, 252, 253, 254, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**64 - 1, r.getrandbits(r.randrange(1, 64)))), r)
    elif k == 'ip': out += rnd(16) if r.random() < .5 else b'\0' * 10 + b'\xff\xff' + rnd(4) if r.random() < .8 else b'\0' * r.randrange(8, 12) + b'\xff\xff\x01\x02\x03\x04\x05\x06\x07\x08'
    elif k == 'raw': out += rnd(kind[1])
    elif k == 'str':
        n = r.choice((0, 0, 1, 2, 5, 20, 75, 252, 253, 254, 300)) if r.random() < .95 else 65536 + r.randrange(3)
        out += enc_var(n, r); cuts.append(len(out))
        out += bytes(r.getrandbits(8) for _ in range(n)) if n < 400 else b'x' * n
    elif k == 'struct':
        for _, x in W.STRUCTS[kind[1]]: gen(x, r, cuts, out)
    elif k == 'addr0':
        for x in (W.U8, W.IP, W.PORT): gen(x, r, cuts, out)
    elif k == 'opt':
        if r.random() < .6: gen(kind[1], r, cuts, out)
    elif k == 'list':
        n = exact if exact is not None else r.choice((0, 1, 1, 1, 2, 2, 3)) if r.random() < .97 else 253
        m = n
        if r.random() < .06 and exact is None: m = r.choice((n + 1, 2**16, 2**63, max(n - 1, 0)))
        if n > 60 and exact is None:
            one = bytearray(); gen(kind[1], r, [], one)
            if len(one) * n > 300000: n = m = 2
        out += enc_var(m, r); cuts.append(len(out))
        if n > 60:
            if exact is not None: one = bytearray(); gen(kind[1], r, [], one)
            out += bytes(one) * n
        else:
            for _ in range(n): gen(kind[1], r, cuts, out)
def gen_fields(fields, exact=None):
    def g(v, x):
        r = v.rng; r.consts = v.pools['int']
        cuts = []; out = bytearray()
        ex = None
        if exact and v.index < len(exact): ex = exact[v.index]; v.big = True
        for _, k in fields: gen(k, r, cuts, out, ex if k[0] == 'list' else None)
        cuts.append(len(out))
        if ex is not None: return bytes(out)
        c = r.random()
        if c < .25: out = out[:max(0, r.choice(cuts) + r.choice((0, -1, 1)))]
        elif c < .4: out += bytes(r.getrandbits(8) for _ in range(r.choice((1, 2, 9, 40))))
        elif c < .5 and out:
            i = r.randrange(len(out)); out[i] ^= 1 << r.randrange(8)
        return bytes(out)
    return g
def limits(fields):
    """element counts at the limits of the first list of the layout"""
    for _, k in fields:
        if k[0] == 'list' and k[3] is not None: return (k[3], k[3] + 1)
    return None

def kind_term(k):
    if isinstance(k, tuple): return t.tup([kind_term(x) for x in k])
    return K(k)
def gen_ip(v, x):
    r = v.rng
    out = bytearray()
    gen(('ip',), r, [], out)
    return bytes(out[:16]).ljust(16, b'\0')
def gen_cut(fields):
    """well formed data, cut anywhere (often in a field that is not the last)"""
    def g(v, x):
        r = v.rng; r.consts = v.pools['int']
        cuts = []; out = bytearray()
        for _, k in fields: gen(k, r, cuts, out)
        n = len(out)
        c = r.random()
        if c < .4: return bytes(out[:max(0, n - r.randrange(0, 6))])
        if c < .9: return bytes(out[:max(0, r.choice(cuts) + r.choice((0, -1, 1, 2, 3, -2)))])
        return bytes(out[:r.randrange(n + 1)])
    return g
def gen_small(fields):
    g = gen_fields(fields)
    def f(v, x):
        for _ in range(20):
            b = g(v, x)
            if len(b) < 8000: return b
        return b''
    return f
