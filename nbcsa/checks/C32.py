from .. import terms as t, crypto, evalt
from ..terms import K
from ..check import Check
from ..crypto import gmul
from . import keys
from .C31 import OVER
from .C21 import CURVES, dlen, dint, der
D = 'nbc.util.ecdsa.der.'; S = 'spec.der.'; U = 'nbc.util.ecdsa.util.'
NAMES = {'NIST192p': '192', 'NIST224p': '224', 'NIST256p': '256', 'NIST384p': '384', 'NIST521p': '521', 'SECP256k1': 'secp256k1'}

def call(I, f, *a): return I.call(I.member(f), list(a), {})
def gen_int(v, q):
    r = v.rng; c = r.random()
    if c < .1: return -r.randrange(1, 300)
    if c < .5: return r.choice((0, 1, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 16383, 16384, 2 ** 21 - 1, 2 ** 21))
    n = r.randrange(1, 270)
    return r.choice((r.getrandbits(n), 2 ** n, 2 ** n - 1, 2 ** n + 1))
def b128(n):
    out = [n & 127]; n >>= 7
    while n: out.append(128 | n & 127); n >>= 7
    return bytes(reversed(out))
def length_of(v, n):
    c = v.rng.random()
    if c < .75: return dlen(n)
    if c < .85: return bytes([0x80 + 3]) + n.to_bytes(3, 'big')
    if c < .9: return dlen(max(0, n + v.rng.choice((-1, 1, 2, 200))))
    if c < .93: return b'\x80'
    return bytes([v.rng.randrange(128, 256)])
def body(v, tag):
    r = v.rng
    if tag == 2: return r.choice((b'', b'\0', b'\x7f', b'\x80', b'\0\x80', keys.rnd(v, r.randrange(1, 40)), keys.rnd(v, 130)))
    if tag == 6: return b''.join(b128(r.choice((0, 1, 39, 40, 127, 128, 16384, r.getrandbits(30)))) for _ in range(r.randrange(0, 5))) + (b'' if r.random() < .8 else b'\x81')
    return keys.rnd(v, r.choice((0, 1, 2, 30, 127, 128, 129, 255, 256, 257)))
def gen_tlv(tag):
    def f(v, q):
        r = v.rng
        if r.random() < .03: return b''
        b = body(v, tag)
        tg = tag if r.random() < .9 else r.randrange(256)
        w = bytes([tg]) + length_of(v, len(b)) + b + r.choice((b'', b'\0', keys.rnd(v, 3)))
        return w if r.random() < .85 else w[:r.randrange(len(w) + 1)]
    return f
def gen_sig(v, q):
    r = v.rng; n = keys.N
    a, b = (r.choice((0, 1, 127, 128, n - 1, n, r.getrandbits(256), r.getrandbits(255), r.getrandbits(8))) for _ in '12')
    w = der(a, b); c = r.random()
    if c < .55: return w
    if c < .62: return w + r.choice((b'\0', b'\0\0', keys.rnd(v, 2)))
    if c < .7:
        m = dint(a) + dint(b) + r.choice((b'\0', keys.rnd(v, 2))); return b'\x30' + dlen(len(m)) + m
    if c < .8: return w[:r.randrange(len(w) + 1)]
    if c < .9:
        i = r.randrange(min(len(w), 8)); return w[:i] + bytes([r.choice((0, 1, 2, 0x30, 0x7f, 0x80, 0x81, 0x82, 0xff, r.randrange(256)))]) + w[i + 1:]
    m = b'\2' + dlen(1) + b'\x80' + dint(b); return b'\x30' + dlen(len(m)) + m

def build():
    c = Check('C32', 'Every DER writer and reader, and the key and signature forms made of them, denote the same functions as the reference; reading what was written gives it back.')
    m = 1500
    n = t.sym('n', 'int'); s = t.sym('s', 'bytes'); b = t.sym('b', 'bytes')
    gi = {'n': gen_int}
    gb = {'b': lambda v, q: keys.rnd(v, v.rng.choice((0, 1, 2, 126, 127, 128, 129, 255, 256, 300)))}
    # writing
    c.agree('integer', D + 'encode_integer', S + 'integer', [n], gens=gi, samples=m)
    c.agree('length', D + 'encode_length', S + 'length_of', [n], gens=gi, samples=m)
    c.agree('number in an object identifier', D + 'encode_number', S + 'base128_of', [t.sym('natural', 'int', 0)], gens={'natural': lambda v, q: abs(gen_int(v, q))}, samples=m)
    for f, tag in (('encode_bitstring', 3), ('encode_octet_string', 4)):
        c.agree(f, D + f, lambda I, a, tag=tag: call(I, S + 'tlv', K(bytes([tag])), a[0]), [b], gens=gb, samples=m)
    for tag in (0, 1, 5, 31): c.agree('encode_constructed %d' % tag, lambda I, a, tag=tag: call(I, D + 'encode_constructed', K(tag), a[0]), lambda I, a, tag=tag: call(I, S + 'tlv', K(bytes([0xa0 + tag])), a[0]), [b], gens=gb, samples=m, where=D + 'encode_constructed')
    for k in range(4):
        bs = [t.sym('p%d' % i, 'bytes') for i in range(k)]
        c.agree('sequence of %d' % k, lambda I, a: call(I, D + 'encode_sequence', *a), lambda I, a: call(I, S + 'tlv', K(b'\x30'), t.cat(a, 'bytes') if a else K(b'')), bs, gens=dict(('p%d' % i, gb['b']) for i in range(k)), samples=m, where=D + 'encode_sequence')
    for k in range(4):
        ns = [t.sym('first', 'int', 0), t.sym('second', 'int', 0)] + [t.sym('n%d' % i, 'int', 0) for i in range(k)]
        go = dict(('n%d' % i, lambda v, q: abs(gen_int(v, q)) % 2 ** 64) for i in range(k)); go['first'] = lambda v, q: v.rng.randrange(0, 4); go['second'] = lambda v, q: v.rng.choice((0, 1, 2, 38, 39, 40, 41))
        c.agree('object identifier of %d' % (k + 2), lambda I, a: call(I, D + 'encode_oid', *a), lambda I, a: call(I, S + 'oid', a[0], a[1], t.tup(a[2:])), ns, gens=go, samples=m, where=D + 'encode_oid')
    # reading
    def swapped(I, a): return call(I, D + 'read_length', *a)
    c.agree('read length', D + 'read_length', S + 'read_length', [s], gens={'s': lambda v, q: length_of(v, v.rng.choice((0, 1, 127, 128, 255, 256, 70000))) + keys.rnd(v, v.rng.randrange(0, 4)) if v.rng.random() < .9 else keys.rnd(v, v.rng.randrange(3))}, samples=m)
    c.agree('read number', D + 'read_number', S + 'base128', [s], gens={'s': lambda v, q: body(v, 6) if v.rng.random() < .8 else keys.rnd(v, v.rng.randrange(5))}, samples=m)
    for f, sp, tag in (('remove_sequence', 'sequence', 0x30), ('remove_octet_string', 'octets', 4), ('remove_bitstring', 'bits', 3), ('remove_constructed', 'constructed', 0xa1), ('remove_integer', 'natural', 2), ('remove_object', 'read_oid', 6)):
        c.agree(f, D + f, S + sp, [s], gens={'s': gen_tlv(tag)}, samples=m)
    c.agree('lenient integer', 'nbc.util.ecc.remove_integer', S + 'unsigned', [s], gens={'s': gen_tlv(2)}, samples=m)
    # there and back
    def again(enc, dec, wrap=None):
        return lambda I, a: call(I, D + dec, t.cat([call(I, D + enc, a[0]), a[1]], 'bytes'))
    def same(I, a): return t.tup([a[0], a[1]])
    nat = t.sym('natural', 'int', 0); rest = t.sym('rest', 'bytes')
    gn = {'natural': lambda v, q: abs(gen_int(v, q)), 'rest': lambda v, q: keys.rnd(v, v.rng.randrange(4)), 'b': gb['b']}
    c.agree('integer there and back', again('encode_integer', 'remove_integer'), same, [nat, rest], gens=gn, samples=m, where=D + 'remove_integer')
    c.agree('bit string there and back', again('encode_bitstring', 'remove_bitstring'), same, [b, rest], gens=gn, samples=m, where=D + 'remove_bitstring')
    c.agree('octet string there and back', again('encode_octet_string', 'remove_octet_string'), same, [b, rest], gens=gn, samples=m, where=D + 'remove_octet_string')
    c.agree('sequence there and back', again('encode_sequence', 'remove_sequence'), same, [b, rest], gens=gn, samples=m, where=D + 'remove_sequence')
    def len_again(I, a):
        w = call(I, D + 'encode_length', a[0]); r = I.unpack(call(I, D + 'read_length', t.cat([w, a[1]], 'bytes')), 2)
        return t.tup([r[0], t.eq(r[1], t.length(w))])
    c.agree('length there and back', len_again, lambda I, a: t.tup([a[0], K(True)]), [nat, rest], gens=gn, samples=m, where=D + 'read_length')
    def num_again(I, a):
        w = call(I, D + 'encode_number', a[0]); r = I.unpack(call(I, D + 'read_number', t.cat([w, a[1]], 'bytes')), 2)
        return t.tup([r[0], t.eq(r[1], t.length(w))])
    c.agree('number there and back', num_again, lambda I, a: t.tup([a[0], K(True)]), [nat, rest], gens=gn, samples=m, where=D + 'read_number')
    # signatures
    c.agree('strict signature', lambda I, a: call(I, U + 'sigdecode_der', a[0], K(keys.N)), S + 'strict_signature', [s], gens={'s': gen_sig}, samples=m, where=U + 'sigdecode_der')
    r_, s_ = t.sym('r', 'int'), t.sym('z', 'int')
    gs = dict((k, lambda v, q: v.rng.choice((1, 127, 128, keys.N - 1, keys.N // 2, keys.N // 2 + 1, keys.N // 2 - 1, keys.N // 2 + v.rng.getrandbits(200), keys.N // 2 - v.rng.getrandbits(200), v.rng.getrandbits(256), v.rng.getrandbits(250)))) for k in ('r', 'z'))
    for nm, f in (('sigencode_der', lambda I, r, z: call(I, S + 'signature', r, z)), ('sigencode_string', lambda I, r, z: t.cat([call(I, 'spec.keys.num32', r), call(I, 'spec.keys.num32', z)])), ('sigencode_strings', lambda I, r, z: t.tup([call(I, 'spec.keys.num32', r), call(I, 'spec.keys.num32', z)]))):
        c.agree(nm, lambda I, a, nm=nm: call(I, U + nm, a[0], a[1], K(keys.N)), lambda I, a, f=f: f(I, a[0], a[1]), [r_, s_], gens=gs, samples=m, where=U + nm)
        c.agree(nm + '_canonize', lambda I, a, nm=nm: call(I, U + nm + '_canonize', a[0], a[1], K(keys.N)), lambda I, a, f=f: f(I, a[0], call(I, S + 'low', a[1], K(keys.N))), [r_, s_], gens=gs, samples=m, where=U + nm + '_canonize')
    for k in (0, 1, 47, 48, 49, 96, 97, 118, 200):
        x = t.sym('der%d' % k, 'bytes', None, None, k) if k else K(b'')
        for nm in ('PUBLIC KEY', 'EC PRIVATE KEY'):
            c.agree('PEM of %d octets, %s' % (k, nm), lambda I, a, nm=nm: call(I, D + 'topem', a[0], K(nm)), lambda I, a, nm=nm: call(I, S + 'pem', a[0], K(nm.encode())), [x], where=D + 'topem')
        c.agree('PEM of %d octets read' % k, lambda I, a: call(I, D + 'unpem', call(I, S + 'pem', a[0], K(b'PUBLIC KEY'))), lambda I, a: a[0], [x], where=D + 'unpem')
    # keys in PEM: what is between the lines is read as DER
    def body_of(I, f, a, kw): return t.tup([a[1]] + ([kw.get('hashfunc', a[2] if len(a) > 2 else t.NONE)] if a[0].a[0] is I.member(SK).a[0] else []))
    po = {VK + '.from_der': body_of, SK + '.from_der': body_of}
    for k in (1, 48, 100, 118):
        x = t.sym('der%d' % k, 'bytes', None, None, k)
        def txt(I, w): return I.call(I.getattr_(w, 'decode'), [], {})
        def pem(I, x, n): return call(I, S + 'pem', x, K(n))
        params = K(b'-----BEGIN EC PARAMETERS-----\nBgUrgQQACg==\n-----END EC PARAMETERS-----\n')
        c.agree('public key in PEM of %d octets' % k, lambda I, a: t.tup([I.call(I.getattr_(I.member(VK), 'from_pem'), [w], {}) for w in (pem(I, a[0], b'PUBLIC KEY'), txt(I, pem(I, a[0], b'PUBLIC KEY')))]), lambda I, a: t.tup([t.tup([a[0]])] * 2), [x], overrides=po, where=VK + '.from_pem')
        for nm, pre in (('', K(b'')), (' after parameters', params), (' after text', K(b'Key:\n\n'))):
            def ask(I, a, pre=pre):
                w = t.cat([pre, pem(I, a[0], b'EC PRIVATE KEY')]); f = I.getattr_(I.member(SK), 'from_pem')
                return t.tup([I.call(f, [w], {}), I.call(f, [txt(I, w)], {}), I.call(f, [w, K(5)], {}), I.call(f, [w], {'hashfunc': K(6)})])
            c.agree('private key in PEM of %d octets%s' % (k, nm), ask, lambda I, a: t.tup([t.tup([a[0], h]) for h in (I.member('spec.seeded.sha1'), I.member('spec.seeded.sha1'), K(5), K(6))]), [x], overrides=po, where=SK + '.from_pem')
    # pairs of raw numbers
    for la, lb in ((32, 32), (31, 33), (33, 32), (0, 32), (32, 0), (32, 64)):
        pr = [t.sym('half%d%s' % (n_, w), 'bytes', None, None, n_) if n_ else K(b'') for n_, w in ((la, 'a'), (lb, 'b'))]
        c.agree('raw numbers of %d and %d octets' % (la, lb), lambda I, a: call(I, U + 'sigdecode_strings', t.tup(a), K(keys.N)), lambda I, a: call(I, S + 'raw_pair', a[0], a[1], K(32)), pr, where=U + 'sigdecode_strings')
    c.agree('raw numbers', lambda I, a: call(I, U + 'sigdecode_strings', t.tup(a), K(keys.N)), lambda I, a: call(I, S + 'raw_pair', a[0], a[1], K(32)), [t.sym('left', 'bytes'), t.sym('right', 'bytes')], gens=dict((k, lambda v, q: keys.rnd(v, v.rng.choice((32, 32, 32, 31, 33, 0)))) for k in ('left', 'right')), where=U + 'sigdecode_strings')
    c.agree('raw numbers there and back', lambda I, a: call(I, U + 'sigdecode_strings', call(I, U + 'sigencode_strings', a[0], a[1], K(keys.N)), K(keys.N)), lambda I, a: t.tup(a), [t.sym('r256', 'int', 0, 2 ** 256 - 1), t.sym('z256', 'int', 0, 2 ** 256 - 1)], where=U + 'sigdecode_strings')
    key_forms(c)
    return c

KEYS = 'nbc.util.ecdsa.keys.'; VK = KEYS + 'VerifyingKey'; SK = KEYS + 'SigningKey'
OIDS = {'192': (1, 2, 840, 10045, 3, 1, 1), '224': (1, 3, 132, 0, 33), '256': (1, 2, 840, 10045, 3, 1, 7), '384': (1, 3, 132, 0, 34), '521': (1, 3, 132, 0, 35), 'secp256k1': (1, 3, 132, 0, 10)}
EC = (1, 2, 840, 10045, 2, 1)
def tlv(tag, b): return bytes([tag]) + dlen(len(b)) + b
def oid(o): return tlv(6, bytes([40 * o[0] + o[1]]) + b''.join(map(b128, o[2:])))
def size_of(nm): return (CURVES[nm][2].bit_length() + 7) // 8
def gen_pubder(v, q):
    r = v.rng; nm = r.choice(list(OIDS)); k = 2 * size_of(nm); c = r.random()
    kind, cu, pt, alg, tails = EC, OIDS[nm], b'\0\4' + keys.rnd(v, k), 3, [b''] * 3
    if c < .08: kind = r.choice(((1, 2, 840, 10045, 2, 2), (1, 2, 840, 10045, 2), cu))
    elif c < .16: cu = r.choice(((1, 3, 132, 0, 11), (1, 3, 132, 0), EC, cu + (1,)))
    elif c < .28: pt = r.choice((b'\0\3' + pt[2:], b'\1\4' + pt[2:], pt[:-1], pt + b'\0', pt[1:], b'', b'\0', b'\0\4'))
    elif c < .34: alg = r.choice((4, 0x30, 0))
    elif c < .55: tails[r.randrange(3)] = r.choice((b'\0', b'\0\0', keys.rnd(v, 3)))
    w = tlv(0x30, tlv(0x30, oid(kind) + oid(cu) + tails[0]) + tlv(alg, pt) + tails[1]) + tails[2]
    return w if r.random() < .85 else hurt(v, w)
def hurt(v, w):
    r = v.rng
    if r.random() < .5: return w[:r.randrange(len(w) + 1)]
    i = r.randrange(len(w)); return w[:i] + bytes([r.choice((0, 1, 2, 3, 4, 6, 0x30, 0x7f, 0x80, 0x81, 0xa0, r.randrange(256)))]) + w[i + 1:]
def gen_privder(v, q):
    r = v.rng; nm = r.choice(list(OIDS)); k = size_of(nm); c = r.random()
    one, key, tag, cu, tails = 1, keys.rnd(v, k), 0, OIDS[nm], [b''] * 3
    if c < .1: one = r.choice((0, 2, 257))
    elif c < .25: key = r.choice((key[1:], key[3:], b'', key + b'\0'))
    elif c < .32: tag = r.choice((1, 2, 31))
    elif c < .4: cu = r.choice(((1, 3, 132, 0, 11), (1, 3, 132, 0), EC, cu + (1,)))
    elif c < .55: tails[r.randrange(2)] = r.choice((b'\0', b'\0\0', keys.rnd(v, 3)))
    w = tlv(0x30, dint(one) + tlv(4, key) + tlv(0xa0 + tag, oid(cu) + tails[0]) + r.choice((b'', tlv(0xa1, tlv(3, b'\0\4'))))) + tails[1]
    return w if r.random() < .85 else hurt(v, w)
def parse(tag, s):
    """(body, rest) or None"""
    if not s or (s[0] != tag if tag else not 0xa0 <= s[0] <= 0xbf) or len(s) < 2: return None
    n = s[1]; u = 2
    if n >= 128:
        k = n - 128
        if not k or k > len(s) - 2: return None
        n = int.from_bytes(s[2:2 + k], 'big'); u = 2 + k
    return s[u:u + n], s[u + n:]
def part(i):
    def f(tag, s):
        r = parse(tag, s)
        if r is None: raise evalt.Fail('no value')
        return r[i]
    return f
evalt.simple('derbad', lambda tag, s: parse(tag, s) is None)
evalt.simple('derbody', part(0)); evalt.simple('derrest', part(1))
evalt.simple('dernone', lambda b: not b or b[0] >= 128)
evalt.simple('dernat', lambda b: int.from_bytes(b, 'big'))
evalt.simple('deroidbad', lambda b: not b or b[-1] >= 128)
evalt.simple('dertag', lambda s: s[0] - 0xa0)
def summaries():
    """what the readers of elements do, standing for themselves (decided above)"""
    OIDS_ALL = [EC, (1, 2, 840, 10045, 2), (1, 2, 840, 10045, 2, 2), (1, 3, 132, 0, 11), (1, 3, 132, 0), (1, 2, 840, 10045, 3, 1)] + list(OIDS.values()) + [x + (1,) for x in OIDS.values()]
    def opened(tag):
        def f(I, fn, a, kw):
            x = a[0]
            I.raise_if(t.B(t.app('derbad', [K(tag), x], 'bool')), 'ValueError')
            return t.tup([t.app('derbody', [K(tag), x], 'bytes'), t.app('derrest', [K(tag), x], 'bytes')])
        return f
    def natural(I, fn, a, kw):
        b, r = I.unpack(opened(2)(I, fn, a, kw), 2)
        I.raise_if(t.B(t.app('dernone', [b], 'bool')), 'ValueError')
        return t.tup([t.app('dernat', [b], 'int', 0), r])
    def named(I, fn, a, kw):
        b, r = I.unpack(opened(6)(I, fn, a, kw), 2)
        I.raise_if(t.B(t.app('deroidbad', [b], 'bool')), 'ValueError')
        x = t.tup([K(9)])
        for i in OIDS_ALL: x = t.ite(t.eq(b, K(oid(i)[2:])), t.tup([K(j) for j in i]), x)
        return t.tup([x, r])
    def constructed(I, fn, a, kw):
        x = a[0]
        I.raise_if(t.B(t.app('derbad', [K(0), x], 'bool')), 'ValueError')
        return t.tup([t.app('dertag', [x], 'int', 0, 31), t.app('derbody', [K(0), x], 'bytes'), t.app('derrest', [K(0), x], 'bytes')])
    o = dict(OVER); spo = dict(OVER)
    for i, (f, sp, tag) in enumerate((('remove_sequence', 'sequence', 0x30), ('remove_octet_string', 'octets', 4), ('remove_bitstring', 'bits', 3))): o[D + f] = opened(tag); spo[S + sp] = opened(tag)
    for f, sp, g in (('remove_integer', 'natural', natural), ('remove_object', 'read_oid', named), ('remove_constructed', 'constructed', constructed)): o[D + f] = g; spo[S + sp] = g
    return o, spo
def key_forms(c):
    s = t.sym('s', 'bytes'); m = 300
    def consts(nm):
        p, a, n, g, b = CURVES[nm]; return K(p), K(a), K(b), K(n), t.tup([K(g[0]), K(g[1])])
    def curve(I, cn): return I.member('nbc.util.ecdsa.curves.' + cn)
    def read(I, f, a, kw):
        klass, string, cu = a[:3]; field = 'verifying_key_length' if klass.a[0] is I.member(VK).a[0] else 'baselen'
        I.raise_if(t.not_(t.eq(t.length(string), I.getattr_(cu, field))), 'AssertionError')
        return t.tup([I.getattr_(cu, 'name'), string])
    o, spo = summaries()
    o[VK + '.from_string'] = read; o[SK + '.from_string'] = read
    c.agree('public key read', lambda I, a: I.call(I.getattr_(I.member(VK), 'from_der'), a, {}), S + 'read_public_key', [s], gens={'s': gen_pubder}, overrides=o, spec_overrides=spo, samples=2000, where=VK + '.from_der')
    c.agree('private key read', lambda I, a: I.call(I.getattr_(I.member(SK), 'from_der'), a, {}), S + 'read_private_key', [s], gens={'s': gen_privder}, overrides=o, spec_overrides=spo, samples=2000, where=SK + '.from_der')
    for cn, nm in NAMES.items():
        k = size_of(nm); p, a_, b_, n, g = consts(nm); num = t.tup([K(i) for i in OIDS[nm]])
        d = t.sym('d' + nm, 'int', 0, CURVES[nm][2] + 3)
        def gd(v, q, nm=nm):
            nn = CURVES[nm][2]; r = v.rng; return r.choice((0, 1, 2, 255, 256, nn - 1, nn - 2, nn, r.randrange(1, nn), r.getrandbits(100)))
        def gx(v, q, nm=nm, k=k):
            P_, A_, N_, G_, B_ = CURVES[nm]; r = v.rng; pt = gmul(P_, A_, r.randrange(1, N_), G_); x, y = pt
            z = r.choice(((x, y), (x, y), (x, y), (x, P_ - y), (x, (y + 1) % P_), (y, x), (0, 0), (x, y + P_), (x + P_, y)))
            return b''.join(min(i, 256 ** k - 1).to_bytes(k, 'big') for i in z)
        raw = t.sym('raw%d' % (2 * k), 'bytes', None, None, 2 * k); one = t.sym('raw%d' % k, 'bytes', None, None, k)
        gg = {'d' + nm: gd, raw.a[0]: gx, one.a[0]: lambda v, q, k=k, gd=gd: gd(v, q).to_bytes(k, 'big')}
        def sk(I, a, cn=cn): return I.call(I.getattr_(I.member(SK), 'from_secret_exponent'), [a[0], curve(I, cn)], {})
        def meth(I, o, f): return I.call(I.getattr_(o, f), [], {})
        def kw(nm=nm, k=k): return dict(gens=gg, overrides=OVER, samples=m)
        c.agree('private key of %s written' % cn, lambda I, a, sk=sk: meth(I, sk(I, a), 'to_der'), lambda I, a, k=k, num=num, p=p, a_=a_, n=n, g=g: call(I, S + 'export_private', a[0], K(k), num, p, a_, n, g), [d], where=SK + '.to_der', **kw())
        c.agree('public key of %s written' % cn, lambda I, a, sk=sk: meth(I, meth(I, sk(I, a), 'get_verifying_key'), 'to_der'), lambda I, a, k=k, num=num, p=p, a_=a_, n=n, g=g: call(I, S + 'export_public', a[0], K(k), num, p, a_, n, g), [d], where=VK + '.to_der', **kw())
        c.agree('private key of %s in PEM' % cn, lambda I, a, sk=sk: meth(I, sk(I, a), 'to_pem'), lambda I, a, k=k, num=num, p=p, a_=a_, n=n, g=g: call(I, S + 'pem', call(I, S + 'export_private', a[0], K(k), num, p, a_, n, g), K(b'EC PRIVATE KEY')), [d], where=SK + '.to_pem', **kw())
        c.agree('public key of %s in PEM' % cn, lambda I, a, sk=sk: meth(I, meth(I, sk(I, a), 'get_verifying_key'), 'to_pem'), lambda I, a, k=k, num=num, p=p, a_=a_, n=n, g=g: call(I, S + 'pem', call(I, S + 'export_public', a[0], K(k), num, p, a_, n, g), K(b'PUBLIC KEY')), [d], where=VK + '.to_pem', **kw())
        def vfs(I, a, cn=cn):
            x = I.getattr_(I.getattr_(I.call(I.getattr_(I.member(VK), 'from_string'), [a[0], curve(I, cn)], {}), 'pubkey'), 'point')
            return t.tup([meth(I, x, 'x'), meth(I, x, 'y')])
        c.agree('raw public key of %s' % cn, vfs, lambda I, a, k=k, p=p, a_=a_, b_=b_, n=n: call(I, S + 'key_numbers', a[0], K(k), p, a_, b_, n), [raw], where=VK + '.from_string', **kw())
        def sfs(I, a, cn=cn): return I.getattr_(I.getattr_(I.call(I.getattr_(I.member(SK), 'from_string'), [a[0], curve(I, cn)], {}), 'privkey'), 'secret_multiplier')
        c.agree('raw private key of %s' % cn, sfs, lambda I, a, k=k, p=p, a_=a_, n=n, g=g: call(I, S + 'import_private', a[0], K(k), p, a_, n, g), [one], where=SK + '.from_string', **kw())
        def again(I, a, sk=sk):
            x = I.call(I.getattr_(I.member(SK), 'from_der'), [meth(I, sk(I, a), 'to_der')], {})
            y = I.call(I.getattr_(I.member(VK), 'from_der'), [meth(I, meth(I, sk(I, a), 'get_verifying_key'), 'to_der')], {})
            z = I.getattr_(I.getattr_(y, 'pubkey'), 'point')
            return t.tup([I.getattr_(I.getattr_(x, 'privkey'), 'secret_multiplier'), I.getattr_(I.getattr_(x, 'curve'), 'name'), meth(I, z, 'x'), meth(I, z, 'y'), I.getattr_(I.getattr_(y, 'curve'), 'name')])
        def again_spec(I, a, cn=cn, p=p, a_=a_, n=n, g=g):
            x = I.unpack(call(I, S + 'own_point', a[0], p, a_, n, g), 2)
            return t.tup([a[0], K(cn), x[0], x[1], K(cn)])
        c.agree('keys of %s there and back' % cn, again, again_spec, [d], where=SK + '.from_der', **kw())
        c.agree('raw signature on %s' % cn, lambda I, a, n=n: call(I, U + 'sigdecode_string', a[0], n), lambda I, a, k=k: call(I, S + 'raw_signature', a[0], K(k)), [raw], where=U + 'sigdecode_string', **kw())
