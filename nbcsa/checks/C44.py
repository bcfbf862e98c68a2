import hashlib, math
from .. import terms as t, evalt
from ..terms import K
from ..check import Check
from . import keys
from .C21 import CURVES
U = 'nbc.util.ecdsa.util.'; S = 'spec.seeded.'
def call(I, f, *a): return I.call(I.member(f), list(a), {})
def stream(seed, at, n):
    out = b''; i = 0
    while len(out) < at + n:
        out += hashlib.sha256(('prng-%d-%s' % (i, seed)).encode()).digest(); i += 1
    return out[at:at + n]
evalt.simple('prng', stream)
def _init(I, f, a, kw):
    o = a[0]; seed = a[1] if len(a) > 1 else kw['seed']
    I.put(o.a[0], '$seed', seed); I.put(o.a[0], '$at', K(0)); return t.NONE
def _call(I, f, a, kw):
    o = a[0].a[0]; n = a[1] if len(a) > 1 else kw['numbytes']
    at = I.get(o, '$at'); I.put(o, '$at', t.add(at, n))
    r = t.app('prng', [I.get(o, '$seed'), at, n], 'bytes')
    return r
PRNG = {U + 'PRNG.__init__': _init, U + 'PRNG.__call__': _call}
ORDERS = [2, 3, 17, 255, 256, 257, 60000, 65537, 16 ** 5 - 3, 2 ** 61 - 1, 2 ** 127 + 45] + [CURVES[n][2] for n in CURVES]
def name(o): return str(o) if o < 10 ** 6 else 'of %d bits (%d)' % (o.bit_length(), o % 1000)

def build():
    c = Check('C44', 'Each function that derives a number from a seed denotes its reference: the stream of digests of a counter and the seed, or the digest of the seed, cut to the size of the order; the value graphs contain no other source.')
    m = 150
    seed = t.sym('seed', 'str'); octets = t.sym('octets', 'bytes')
    g = {'seed': lambda v, q: ''.join(v.rng.choice('abc 0%-\xe9') for _ in range(v.rng.choice((0, 1, 5, 30)))), 'octets': lambda v, q: keys.rnd(v, v.rng.choice((0, 1, 20, 32, 64)))}
    for a, b, d in ((384, 0, 0), (1400, 1400, 500), (0, 1, 2), (1, 31, 32), (32, 1, 33), (64, 66, 1)):
        def take(I, a_, a=a, b=b, d=d):
            p = I.call(I.member(U + 'PRNG'), [a_[0]], {})
            return t.tup([I.call(p, [K(n)], {}) for n in (a, b, d)])
        def take_spec(I, a_, a=a, b=b, d=d): return call(I, S + 'three', a_[0], K(a), K(b), K(d))
        c.agree('stream of a seed, %d, %d and %d octets' % (a, b, d), take, take_spec, [seed], gens=g, samples=m, where=U + 'PRNG')
    def both(I, a_):
        p, q = I.call(I.member(U + 'PRNG'), [a_[0]], {}), I.call(I.member(U + 'PRNG'), [a_[1]], {})
        return t.tup([I.call(x, [K(20)], {}) for x in (p, q, p, q)])
    def both_spec(I, a_):
        u, v = call(I, S + 'three', a_[0], K(20), K(20), K(0)), call(I, S + 'three', a_[1], K(20), K(20), K(0))
        (u0, u1, _), (v0, v1, _) = I.unpack(u, 3), I.unpack(v, 3)
        return t.tup([u0, v0, u1, v1])
    seed2 = t.sym('seed2', 'str'); g['seed2'] = g['seed']
    c.agree('streams of two seeds', both, both_spec, [seed, seed2], gens=g, samples=m, where=U + 'PRNG')
    num = t.sym('number', 'int')
    for o in ORDERS:
        n = name(o)
        f = U + 'randrange_from_seed__overshoot_modulo'
        c.agree('reduced below %s' % n, f, S + 'overshoot', [seed, K(o)], gens=g, samples=m)
        for hn in ('sha256', 'sha512', 'sha1'):
            for short, ff in (('octets', 'truncate_bytes'), ('bits', 'truncate_bits')):
                f = U + 'randrange_from_seed__' + ff
                def code(I, a, f=f, hn=hn, o=o): return I.call(I.member(f), [a[0], K(o)], {} if hn == 'sha256' else {'hashmod': I.member(S + hn)})
                def spec(I, a, short=short, hn=hn, o=o):
                    h = I.call(I.getattr_(I.call(I.member(S + hn), [a[0]], {}), 'digest'), [], {})
                    return call(I, S + 'cut_' + short, h, K(o), K((o - 1).bit_length()))
                c.agree('%s of the %s digest below %s' % (short, hn, n), code, spec, [octets], gens=g, samples=m, where=f)
        f = U + 'randrange_from_seed__trytryagain'
        c.agree('first below %s' % n, f, lambda I, a, o=o: call(I, S + 'first_below', a[0], a[1], K(int(math.log(o - 1, 2) + 1))), [seed, K(o)], gens=g, samples=m, overrides=PRNG)
    return c
