from .. import terms as t, evalt
from ..terms import K
from ..check import Check
from . import keys
U = 'nbc.util.'; E = 'nbc.util.ecdsa.ecdsa.'; S = 'spec.helper.'
def call(I, f, *a): return I.call(I.member(f), list(a), {})
evalt.simple('commas', lambda n: ('-' if n < 0 else '') + ''.join((',' if i and (len(str(abs(n))) - i) % 3 == 0 else '') + c for i, c in enumerate(str(abs(n)))))

def build():
    c = Check('C46', 'Each helper denotes the same function of its arguments as its reference definition; conversions there and back have the normal form of their argument.')
    data = t.sym('data', 'bytes'); n = t.sym('n', 'int'); nat = t.sym('natural', 'int', 0)
    nums = lambda v, q: v.rng.choice((0, 1, 127, 128, 255, 256, 257, 65535, 65536, 2 ** 64 - 1, 2 ** 64, 2 ** 256 - 1, v.rng.getrandbits(v.rng.randrange(1, 300))))
    g = dict(natural=nums, n=lambda v, q: nums(v, q) * v.rng.choice((1, 1, 1, -1)), data=lambda v, q: keys.rnd(v, v.rng.choice((0, 1, 2, 20, 33, 64))))
    for f in ('sha1', 'sha256', 'sha256d', 'ripemd160', 'hash160'):
        c.agree(f, U + f, S + f, [data], gens=g)
        c.agree(f + ' of the module', U + 'hash.' + f, S + f, [data], gens=g)
    c.agree('number as octets', E + 'int_to_string', S + 'octets', [n], gens=g)
    c.agree('octets as number', E + 'string_to_int', lambda I, a: call(I, 'spec.keys.number', t.cat([K(b'\0'), a[0]])), [data], gens=g)
    for k in (0, 1, 2, 20, 33):
        x = t.sym('octets%d' % k, 'bytes', None, None, k) if k else K(b'')
        c.agree('%d octets as number' % k, E + 'string_to_int', lambda I, a: call(I, 'spec.keys.number', t.cat([K(b'\0'), a[0]])), [x], gens=g)
    c.agree('number there and back', lambda I, a: call(I, E + 'string_to_int', call(I, E + 'int_to_string', a[0])), lambda I, a: a[0], [nat], gens=g, where=E + 'string_to_int')
    c.agree('digest of a number', E + 'digest_integer', S + 'digest_number', [n], gens=g)
    for b in (1, 8, 16, 32, 64, 256):
        w = t.sym('word%d' % b, 'int', 0, 2 ** b - 1)
        c.agree("two's complement of %d bits" % b, U + 'ecc.twos_comp', S + 'signed', [w, K(b)], gens={'word%d' % b: lambda v, q, b=b: v.rng.choice((0, 1, 2 ** b - 1, 2 ** (b - 1), max(0, 2 ** (b - 1) - 1), v.rng.getrandbits(b))) % 2 ** b})
    c.agree('difficulty', U + 'get_difficulty', S + 'difficulty', [t.sym('bits', 'int', 0x03000001, 0x20ffffff)])
    c.agree('thousands', U + 'commify', lambda I, a: t.app('commas', [a[0]], 'str'), [n], gens=g)
    c.agree('data directory', U + 'default_data_directory', S + 'home', [])
    x, y = t.sym('x', 'int'), t.sym('y', 'int')
    def pt(v):
        if not hasattr(v, 'thept'):
            p = keys.point(v); v.thept = v.rng.choice((p, p, (p[0], keys.P - p[1]), (p[0], p[1] + 1), (p[1], p[0]), (0, 0), (p[0] + keys.P, p[1])))
        return v.thept
    def code(I, a):
        p = call(I, U + 'ecc.point', *a)
        return t.tup([I.call(I.getattr_(p, 'x'), [], {}), I.call(I.getattr_(p, 'y'), [], {})])
    def spec(I, a):
        I.raise_if(t.not_(t.eq(t.mod(t.mul(a[1], a[1]), K(keys.P)), t.mod(t.add(t.mul(t.mul(a[0], a[0]), a[0]), K(7)), K(keys.P)))), 'ValueError')
        return t.tup(a)
    c.agree('point of the curve', code, spec, [x, y], gens=dict(x=lambda v, q: pt(v)[0], y=lambda v, q: pt(v)[1]), where=U + 'ecc.point')
    return c
