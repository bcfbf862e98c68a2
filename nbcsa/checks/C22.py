from .. import terms as t, crypto
from ..terms import K
from ..check import Check
from ..crypto import gmul, gadd
from .C21 import CURVES
from .C32 import NAMES, OIDS
PT = 'nbc.util.ecdsa.ellipticcurve.'; NT = 'nbc.util.ecdsa.numbertheory.'; S = 'spec.group.'
TOYS = ((23, 1, 1), (7, 0, 3), (11, 1, 0), (5, -1, 0), (101, -3, 7), (13, 2, 5), (3, 1, 1), (31, 30, 0), (23, 2, 21))

def call(I, f, *a): return I.call(I.member(f), list(a), {})
def meth(I, o, f, *a): return I.call(I.getattr_(o, f), list(a), {})
def inverse(I, f, args, kw):
    """what C34 says of inverse_mod, for a prime modulus"""
    if len(args) != 2 or kw: return None
    a, m = args
    I.raise_if(t.eq(t.mod(a, m), K(0)), 'AssertionError')
    return I.simpv(t.inv(crypto.seal(I, a), m))
OVER = {NT + 'inverse_mod': inverse}
def shown(I, P, p):
    """comparable form of a point of the code"""
    def f(P):
        if crypto.is_inf(I, P): return K('identity')
        return t.tup([t.mod(meth(I, P, 'x'), p), t.mod(meth(I, P, 'y'), p)])
    return I.bycase(P, f)
def points_of(p, a, b): return [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]
def pair(v, key, pick):
    m = getattr(v, 'pair' + key, None)
    if m is None: m = pick(v.rng); setattr(v, 'pair' + key, m)
    return m
def pick_big(nm):
    p, a, n, G, b = CURVES[nm]
    def f(r):
        i = r.choice((1, 2, 3, n - 1, n - 2, r.randrange(1, n), r.randrange(1, n))); P = gmul(p, a, i, G); c = r.random()
        if c < .15: Q = P
        elif c < .3: Q = (P[0], p - P[1])
        elif c < .4: Q = (P[0], -P[1])
        else: Q = gmul(p, a, r.randrange(1, n), G)
        return P, Q
    return f
def pick_toy(cu):
    p, a, b = cu; pts = points_of(p, a, b)
    def f(r):
        P, Q = r.choice(pts), r.choice(pts)
        if r.random() < .1: Q = (P[0], -P[1])
        if r.random() < .1: Q = P
        return P, Q
    return f
def build():
    c = Check('C22', 'Addition and doubling of points denote the affine group law in every case, a point is constructed exactly when it is on its curve, and every named curve has the standard parameters.')
    m = 400
    cases = [(nm, CURVES[nm][0], CURVES[nm][1], CURVES[nm][4], pick_big(nm)) for nm in CURVES] + [('p=%d a=%d b=%d' % cu, *cu, pick_toy(cu)) for cu in TOYS]
    for nm, p, a, b, pick in cases:
        key = nm.replace(' ', ''); P, A, B = K(p), K(a), K(b)
        xs = [t.sym('%s%s' % (n, key), 'int', 0 if n[0] == 'x' else -p + 1, p - 1) for n in ('x1', 'y1', 'x2', 'y2')]
        g = {}
        for i, s in enumerate(xs): g[s.a[0]] = lambda v, q, i=i, key=key, pick=pick: pair(v, key, pick)[i // 2][i % 2]
        def pre(I, a_, p=p, a=a, b=b):
            r = call(I, S + 'on_curve', K(p), K(a), K(b), a_[0], a_[1])
            return t.and_(r, call(I, S + 'on_curve', K(p), K(a), K(b), a_[2], a_[3])) if len(a_) > 2 else r
        def curve(I, p=P, a=A, b=B): return call(I, PT + 'CurveFp', p, a, b)
        def pt(I, cu, x, y): return call(I, PT + 'Point', cu, x, y)
        def kw(): return dict(gens=g, overrides=OVER, samples=m, pre=pre)
        def code_add(I, a_, p=P, curve=curve):
            cu = curve(I); return shown(I, meth(I, pt(I, cu, a_[0], a_[1]), '__add__', pt(I, cu, a_[2], a_[3])), p)
        def spec_add(I, a_, p=P, a=A): return call(I, S + 'shown', p, call(I, S + 'add', p, a, t.tup(a_[:2]), t.tup(a_[2:])))
        c.agree('sum on ' + nm, code_add, spec_add, xs, where=PT + 'Point.__add__', **kw())
        def code_dbl(I, a_, p=P, curve=curve): return shown(I, meth(I, pt(I, curve(I), a_[0], a_[1]), 'double'), p)
        c.agree('double on ' + nm, code_dbl, lambda I, a_, p=P, a=A: call(I, S + 'shown', p, call(I, S + 'double', p, a, t.tup(a_))), xs[:2], where=PT + 'Point.double', **kw())
        def code_id(I, a_, p=P, curve=curve):
            x = pt(I, curve(I), a_[0], a_[1]); o = crypto.infinity(I)
            return t.tup([shown(I, y, p) for y in (meth(I, x, '__add__', o), meth(I, o, '__add__', x), meth(I, o, '__add__', o), meth(I, o, 'double'))])
        def spec_id(I, a_, p=P):
            x = call(I, S + 'shown', p, t.tup(a_)); return t.tup([x, x, K('identity'), K('identity')])
        c.agree('identity on ' + nm, code_id, spec_id, xs[:2], where=PT + 'Point.__add__', **kw())
        def code_eq(I, a_, curve=curve):
            cu = curve(I); x, y = pt(I, cu, a_[0], a_[1]), pt(I, cu, a_[2], a_[3]); o = crypto.infinity(I)
            return t.tup([meth(I, x, '__eq__', y), meth(I, x, '__eq__', o), meth(I, o, '__eq__', x), meth(I, o, '__eq__', o)])
        c.agree('equality on ' + nm, code_eq, lambda I, a_: t.tup([t.and_(t.eq(a_[0], a_[2]), t.eq(a_[1], a_[3])), K(False), K(False), K(True)]), xs, where=PT + 'Point.__eq__', **kw())
        if nm in ('secp256k1', 'p=23 a=1 b=1'):
            ops = {'sum': lambda I, o, a_, p=P: shown(I, meth(I, o[0], '__add__', pt(I, o[1], a_[2], a_[3])), p), 'sum from the right': lambda I, o, a_, p=P: shown(I, meth(I, pt(I, o[1], a_[2], a_[3]), '__add__', o[0]), p),
                   'double': lambda I, o, a_, p=P: shown(I, meth(I, o[0], 'double'), p), 'itself': lambda I, o, a_, p=P: shown(I, o[0], p)}
            def make(I, a_, curve=curve):
                cu = curve(I); return pt(I, cu, a_[0], a_[1]), cu
            c.again('point on ' + nm, make, ops, xs, where=PT + 'Point', **kw())
        gx = dict(g)
        for i, s in enumerate(xs[:2]): gx[s.a[0]] = lambda v, q, i=i, key=key, pick=pick, p=p: (pair(v, key, pick)[0][i] + (0 if v.rng.random() < .7 else v.rng.choice((1, p - 1, 2)))) % p
        def code_new(I, a_, curve=curve):
            x = pt(I, curve(I), a_[0], a_[1]); return t.tup([meth(I, x, 'x'), meth(I, x, 'y')])
        c.agree('construction on ' + nm, code_new, lambda I, a_, p=P, a=A, b=B: call(I, S + 'point', p, a, b, a_[0], a_[1]), xs[:2], gens=gx, overrides=OVER, samples=m, where=PT + 'Point.__init__')
        c.agree('membership on ' + nm, lambda I, a_, curve=curve: meth(I, curve(I), 'contains_point', a_[0], a_[1]), lambda I, a_, p=P, a=A, b=B: call(I, S + 'on_curve', p, a, b, a_[0], a_[1]), xs[:2], gens=gx, overrides=OVER, samples=m, where=PT + 'CurveFp.contains_point')
    def other(I, a_):
        x, y = (call(I, PT + 'Point', call(I, PT + 'CurveFp', *map(K, cu)), K(0), K(1)) for cu in ((23, 1, 1), (23, 2, 1)))
        return meth(I, x, '__add__', y)
    c.agree('points of different curves', other, lambda I, a_: I.throw('AssertionError'), [], overrides=OVER, where=PT + 'Point.__add__')
    # parameters
    for cn, nm in NAMES.items():
        def params(I, cn=cn):
            p, a, n, G, b = CURVES[nm_of(cn)]; size = (n.bit_length() + 7) // 8; bad = []
            cu = I.member('nbc.util.ecdsa.curves.' + cn); e = I.getattr_(cu, 'curve'); g = I.getattr_(cu, 'generator')
            def want(what, term, value):
                if not t.isc(term): raise t.Unsup('%s is not constant' % what)
                if t.cv(term) != value: bad.append('nbc.util.ecdsa.curves.%s: %s is %r and not %r' % (cn, what, t.cv(term), value))
            want('prime', meth(I, e, 'p'), p); want('a', t.mod(meth(I, e, 'a'), K(p)), a % p); want('b', t.mod(meth(I, e, 'b'), K(p)), b)
            want('x of the generator', meth(I, g, 'x'), G[0]); want('y of the generator', meth(I, g, 'y'), G[1]); want('order of the generator', meth(I, g, 'order'), n)
            want('order', I.getattr_(cu, 'order'), n); want('octets of a number', I.getattr_(cu, 'baselen'), size); want('octets of a public key', I.getattr_(cu, 'verifying_key_length'), 2 * size); want('octets of a signature', I.getattr_(cu, 'signature_length'), 2 * size)
            want('name', I.getattr_(cu, 'name'), cn)
            num = t.tup([K(i) for i in OIDS[nm_of(cn)]])
            want('object identifier', t.eq(I.getattr_(cu, 'oid'), num), True)
            want('object identifier in DER', t.eq(I.getattr_(cu, 'encoded_oid'), call(I, 'spec.der.oid', num.a[0], num.a[1], t.tup(num.a[2:]))), True)
            got = call(I, 'nbc.util.ecdsa.curves.find_curve', num)
            want('curve found by its identifier', I.getattr_(got, 'name'), cn)
            ec = I.member('nbc.util.ecdsa.ecdsa.' + ('generator_' + nm_of(cn)))
            want('generator', t.tup([meth(I, ec, 'x'), meth(I, ec, 'y'), meth(I, ec, 'order')]) if False else t.eq(meth(I, ec, 'x'), K(G[0])), True); want('order of its generator', meth(I, ec, 'order'), n)
            return bad, 15
        c.require('parameters of ' + cn, params)
    return c
def nm_of(cn): return NAMES[cn]
