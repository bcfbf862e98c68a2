from .. import terms as t
from ..terms import K
from ..check import Check
from . import wire

NUMBERS = [(f, big) for f in 'bBhHiIqQ' for big in (False, True)]

def build():
    c = Check('C02', 'The bytes a codec writes, the value it reads and the values it accepts denote the same functions as the reference codec; '
                     'reading what was written, followed by anything, has the value that was written and its length as normal form.')
    fmt = 'nbc.protocol.format.'
    def make(I, cls, *args, **kw): return I.call(I.member(fmt + cls), [K(a) for a in args], dict((k, K(v)) for k, v in kw.items()))
    def obj(I, o): return o(I) if callable(o) else o
    def parse(mk_): return lambda I, a: I.call(I.getattr_(mk_(I), 'parse'), [a[0]], {})
    def accepted(mk_): return lambda I, a: I.call(I.getattr_(mk_(I), 'validate'), [a[0]], {})
    def write(mk_):
        """bytes of an accepted value, None for others"""
        def f(I, a):
            o = mk_(I)
            v = I.call(I.getattr_(o, 'validate'), [a[0]], {})
            return I.call(I.member('spec.wire.unless_none'), [v, I.getattr_(o, 'binary')], {})
        return f
    def back(mk_):
        """reading an accepted value that was written, with anything behind it"""
        def f(I, a):
            o = mk_(I)
            v = I.call(I.getattr_(o, 'validate'), [a[0]], {})
            b = I.call(I.member('spec.wire.unless_none'), [v, I.getattr_(o, 'binary')], {})
            return I.call(I.member('spec.wire.read_back'), [b, a[1], I.getattr_(o, 'parse')], {})
        return f
    def spec(name, *args): return lambda I, a: I.call(I.member('spec.wire.' + name), [K(x) for x in args] + list(a), {})
    d = t.sym('data', 'bytes'); rest = t.sym('rest', 'bytes'); x = t.sym('x', 'int')
    for f, big in NUMBERS:
        n = {'b': 1, 'h': 2, 'i': 4, 'q': 8}[f.lower()]; signed = f.islower()
        mk_ = lambda I, f=f, big=big: make(I, 'FtNumber', f, big_endian=big)
        nm = 'number %s%s ' % ('>' if big else '<', f); order = 'big' if big else 'little'
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        g = {'x': lambda v, q, lo=lo, hi=hi: v.rng.choice((lo, hi, lo - 1, hi + 1, 0, 1, -1, v.rng.randrange(lo, hi + 1), v.rng.randrange(lo, hi + 1), 2 ** 64, 10 ** 30))}
        w = fmt + 'FtNumber'
        c.agree(nm + 'read', parse(mk_), spec('read_num', n, signed, order), [d], where=w + '.parse')
        c.agree(nm + 'write', write(mk_), spec('write_num', n, signed, order), [x], gens=g, where=w + '.binary')
        c.agree(nm + 'read back', back(mk_), spec('back_num', n, signed), [x, rest], gens=g, where=w + '.parse')
    for bad in ('12', b'1', None, 1.0, 2.5, (1,)):
        mk_ = lambda I: make(I, 'FtNumber', 'I')
        c.agree('number refuses %r' % (bad,), accepted(mk_), lambda I, a: K(None), [K(bad) if not isinstance(bad, tuple) else t.tup([K(1)])], where=fmt + 'FtNumber.validate')
    mk_ = lambda I: make(I, 'FtVarInteger')
    g = {'x': lambda v, q: v.rng.choice((-1, 0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xffff, 0x10000, 0xffffffff, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64, v.rng.getrandbits(v.rng.randrange(1, 70))))}
    w = fmt + 'FtVarInteger'
    c.agree('variable-length integer read', parse(mk_), spec('varint'), [d], where=w + '.parse')
    c.agree('variable-length integer write', write(mk_), spec('write_var'), [x], gens=g, where=w + '.binary')
    c.agree('variable-length integer read back', back(mk_), spec('back_var'), [x, rest], gens=g, where=w + '.parse')
    for k in (0, 1, 8, 32):
        mk_ = lambda I, k=k: make(I, 'FtBytes', k)
        w = fmt + 'FtBytes'
        s = t.sym('s', 'bytes')
        g = {'s': lambda v, q, k=k: bytes(v.rng.getrandbits(8) for _ in range(v.rng.choice((0, 1, k, k, k, k + 1, max(k - 1, 0)))))}
        c.agree('%d bytes read' % k, parse(mk_), spec('read_raw', k), [d], where=w + '.parse')
        c.agree('%d bytes write' % k, write(mk_), spec('write_raw', k), [s], gens=g, where=w + '.binary')
        c.agree('%d bytes read back' % k, back(mk_), spec('back_raw', k), [s, rest], gens=g, where=w + '.parse')
    mk_ = lambda I: make(I, 'FtVarString')
    w = fmt + 'FtVarString'
    s = t.sym('s', 'bytes')
    def small(I, a): return t.lt(t.length(a[0]), K(2 ** 64))
    c.agree('string read', parse(mk_), spec('read_str'), [d], gens={'data': wire.gen_fields([('s', wire.W.STR)])}, where=w + '.parse')
    c.agree('string write', write(mk_), spec('put_str'), [s], pre=small, where=w + '.binary')
    c.agree('string read back', back(mk_), spec('back_str'), [s, rest], pre=small, where=w + '.parse')
    ip_ = lambda I: make(I, 'FtIPAddress')
    w = fmt + 'FtIPAddress'
    c.agree('IP address read', parse(ip_), spec('read_ip'), [d], gens={'data': wire.gen_fields([('ip', wire.W.IP)])}, where=w + '.parse')
    b16 = t.sym('b16', 'bytes', None, None, 16)
    def again(I, a):
        o = ip_(I)
        n, v = I.unpack(I.call(I.getattr_(o, 'parse'), [a[0]], {}), 2)
        return I.call(I.getattr_(o, 'binary'), [v], {})
    c.agree('IP address read and written', again, lambda I, a: a[0], [b16], gens={'b16': wire.gen_ip}, where=w + '.binary')
    def again2(I, a):
        o = ip_(I)
        n, v = I.unpack(I.call(I.getattr_(o, 'parse'), [a[0]], {}), 2)
        return I.call(I.getattr_(o, 'validate'), [v], {})
    def once(I, a): return I.unpack(I.call(I.getattr_(ip_(I), 'parse'), [a[0]], {}), 2)[1]
    c.agree('IP address read is accepted', again2, once, [b16], gens={'b16': wire.gen_ip}, where=w + '.validate')
    for text in IPS:
        c.agree('IP address text %s' % text, write(ip_), spec('write_ip'), [K(text)], where=w + '.validate')
    # arrays and structures without time stamp
    for nm, inner, kind in (('numbers', lambda I: make(I, 'FtNumber', 'I'), wire.W.U4), ('strings', lambda I: make(I, 'FtVarString'), wire.W.STR),
                            ('hashes', lambda I: make(I, 'FtBytes', 32), wire.W.B32)):
        for lo, hi in ((None, None), (1, None), (2, 3)):
            mk_ = lambda I, inner=inner, lo=lo, hi=hi: I.call(I.member(fmt + 'FtArray'), [inner(I), K(lo), K(hi)], {})
            lk = wire.W.L(kind, lo or 0, hi)
            g = {'data': wire.gen_fields([('l', lk)])}
            label = 'array of %s [%s,%s] ' % (nm, lo, hi)
            ks = wire.kind_term(lk)
            c.agree(label + 'read', parse(mk_), lambda I, a, ks=ks: I.call(I.member('spec.wire.read_at0'), [ks, a[0]], {}), [d], gens=g, overrides=wire.VARINT, spec_overrides=wire.VARINT, where=fmt + 'FtArray.parse')
            for k in (0, 1, 2, 3) if nm == "strings" else (0, 1, 2, 3, 4):
                if nm == 'numbers': el = [t.sym('e%d' % i, 'int', 0, 2 ** 32 - 1) for i in range(k)]
                elif nm == 'strings': el = [t.sym('t%d' % i, 'bytes') for i in range(k)]
                else: el = [t.sym('h%d' % i, 'bytes', None, None, 32) for i in range(k)]
                def long_(I, a, el=el):
                    p = t.TRUE
                    for e in el:
                        if e.sort == 'bytes' and e.ext is None: p = t.and_(p, t.lt(t.length(e), K(2 ** 32 if len(el) < 3 else 0xfd)))
                    return p
                c.agree(label + '%d elements read back' % k, back(mk_), lambda I, a, ks=ks: I.call(I.member('spec.wire.back_list'), [ks, a[0]], {}),
                        [t.tup(el), rest], pre=long_, where=fmt + 'FtArray')
    def addr(I):
        return [t.sym('services', 'int', 0, 2 ** 64 - 1), b16, t.sym('port', 'int', 0, 65535), rest]
    def nots(I, a):
        o = make(I, 'FtNetworkAddressNoTimestamp')
        ip = I.unpack(I.call(I.getattr_(make(I, 'FtIPAddress'), 'parse'), [a[1]], {}), 2)[1]
        v = I.call(I.member(fmt + 'NetworkAddress'), [K(77), a[0], ip, a[2]], {})
        b = I.call(I.getattr_(o, 'binary'), [v], {})
        n, r = I.unpack(I.call(I.getattr_(o, 'parse'), [t.cat([b, a[3]])], {}), 2)
        return t.tup([b, n, I.getattr_(r, 'services'), I.getattr_(r, 'address'), I.getattr_(r, 'port')])
    c.agree('address without time stamp', nots, spec('addr0_back'), addr, gens={'b16': wire.gen_ip}, where=fmt + 'FtNetworkAddressNoTimestamp')
    # numbers that may be given as floats (time stamps), and one that may be missing
    for k, z in (('I', 4), ('Q', 8)):
        for x_ in (0.0, 0.5, 1.75, 1234567890.25, 4294967295.5, 4294967296.0, -0.5, -1.0, 1e30):
            c.agree('number %s given as %r' % (k, x_), write(lambda I, k=k: make(I, 'FtNumber', k, allow_float=True)), lambda I, a, z=z: I.call(I.member('spec.wire.put_float'), [a[0], K(z)], {}), [K(x_)], where=fmt + 'FtNumber.validate')
    def opt_(I): return I.call(I.member(fmt + 'FtOptional'), [make(I, 'FtNumber', 'B'), K(True)], {})
    near8 = {'x': lambda v, q: v.rng.choice((0, 1, 2, 255, 256, -1, 10 ** 20))}
    c.agree('optional octet write', write(opt_), spec('put_optional'), [x], gens=near8, where=fmt + 'FtOptional.validate')
    for b in (False, True): c.agree('optional octet write %s' % b, write(opt_), lambda I, a, b=b: K(bytes([b])), [K(b)], where=fmt + 'FtOptional.validate')
    c.agree('optional octet write nothing', write(opt_), lambda I, a: K(b'\1'), [K(None)], where=fmt + 'FtOptional.validate')
    vf = [t.sym('version', 'int', -2 ** 31, 2 ** 31 - 1), t.sym('services', 'int', 0, 2 ** 64 - 1), t.sym('timestamp', 'int', 0, 2 ** 32 - 1), t.sym('nonce', 'bytes', None, None, 8), t.sym('agent', 'bytes'), t.sym('height', 'int', -2 ** 31, 2 ** 31 - 1), x]
    def version(I, a):
        ad = I.call(I.member(fmt + 'NetworkAddress'), [a[2], a[1], K('10.1.2.3'), K(8333)], {})
        o = I.call(I.member('nbc.protocol.messages.Version'), [a[0], a[1], a[2], ad, ad, a[3], a[4], a[5], a[6]], {})
        return I.call(I.member(fmt + 'CompoundType.binary'), [o], {})
    def brief(I, a): return t.lt(t.length(a[4]), K(0xfd))
    c.agree('make Version', version, spec('made_version'), vf, pre=brief, gens=near8, where='nbc.protocol.messages.Version')
    for b in (False, True): c.agree('make Version, relay %s' % b, version, spec('made_version'), vf[:6] + [K(b)], pre=brief, where='nbc.protocol.messages.Version')
    c.agree('make Version now', version, spec('made_version'), vf[:2] + [K(1234567890.75)] + vf[3:6] + [K(False)], pre=brief, where='nbc.protocol.messages.Version')
    # every field of every structure is checked when an object is made
    for cls, fields, mod in ([(n, wire.W.STRUCTS[n], fmt) for n in ('NetworkAddress', 'InventoryVector', 'OutPoint', 'TxnOut', 'BlockHeader')] +
                             [(wire.W.MESSAGES[m][0], wire.W.MESSAGES[m][2], 'nbc.protocol.messages.') for m in ('ping', 'pong', 'reject', 'alert')]):
        args = []; pre = t.TRUE; gens = {}
        for n, k in fields:
            if k[0] in ('num', 'var'):
                args.append(t.sym(cls + '_' + n, 'int'))
                w = 8 if k[0] == 'var' else k[1]
                gens[cls + '_' + n] = lambda v, q, w=w: v.rng.choice((0, 1, -1, 1 << (8 * w - 1), (1 << (8 * w - 1)) - 1, (1 << 8 * w) - 1, 1 << 8 * w, v.rng.getrandbits(8 * w), v.rng.getrandbits(8 * w - 1), v.rng.getrandbits(8 * w - 1)))
            elif k[0] == 'ip': args.append(K('10.1.2.3'))
            elif k[0] == 'raw':
                a = t.sym(cls + '_' + n, 'bytes'); args.append(a)
                gens[cls + '_' + n] = lambda v, q, w=k[1]: bytes(v.rng.getrandbits(8) for _ in range(v.rng.choice((w, w, w, w, w, w + 1, w - 1, 0))))
            else:
                a = t.sym(cls + '_' + n, 'bytes'); args.append(a); pre = t.and_(pre, t.lt(t.length(a), K(0xfd)))
        def made(I, a, cls=cls, mod=mod):
            o = I.call(I.member(mod + cls), a, {})
            return I.call(I.member(fmt + 'CompoundType.binary'), [o], {})
        ks = wire.kind_term(tuple(k for _, k in fields))
        c.agree('make ' + cls, made, lambda I, a, ks=ks: I.call(I.member('spec.wire.make'), [ks, t.tup(a)], {}), args, gens=gens, pre=lambda I, a, pre=pre: pre, where=mod + cls)
    return c

IPS = ['1.2.3.4', '0.0.0.0', '255.255.255.255', '256.1.1.1', '1.2.3', '1.2.3.4.5', '1.2.3.-1', '', 'a.b.c.d', '1', ':::', '1:2:3:4:5:6:7:8', '1::8', 'fe80::1:2', '1:2:3:4:5:6:7',
       '1:2:3:4:5:6:7:8:9', '1::2::3', '10000::1', 'ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff', 'g::1', '1:2:3:4:5:6:7::', '::1:2:3:4:5:6:7', '::1', '1::', '-1::1', '0:0:0:0:0:ffff:102:304']
