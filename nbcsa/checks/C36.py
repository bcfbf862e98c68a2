"""scalar multiplication"""
from .. import terms as t, crypto, models, evalt
from ..terms import K, B, ite, NONE, ZERO
from ..check import Check
from ..crypto import gmul, gadd
from .C21 import CURVES
from . import C34
from .C22 import TOYS, points_of, inverse
PT = 'nbc.util.ecdsa.ellipticcurve.'; NT = 'nbc.util.ecdsa.numbertheory.'

# a point in the loop is its two coordinates, both None at the identity; the operations are those C22 decides
def num(x): return isinstance(x, int)
def P_(x, y, p): return (x % p, y % p) if num(x) and num(y) else None
def ax(p, a, x1, y1, x2, y2): r = gadd(p, a, P_(x1, y1, p), P_(x2, y2, p)); return r and r[0]
def ay(p, a, x1, y1, x2, y2): r = gadd(p, a, P_(x1, y1, p), P_(x2, y2, p)); return r and r[1]
evalt.simple('pt_addx', ax); evalt.simple('pt_addy', ay)
evalt.simple('pt_mul', lambda p, a, k, x, y: gmul(p, a, k, P_(x, y, p)))
evalt.simple('pt_shown', lambda p, x, y: P_(x, y, p))

OPS = ('pt_addx', 'pt_addy', 'pt_mulx', 'pt_muly')
for i, w in enumerate('xy'): evalt.simple('pt_mul' + w, lambda p, a, k, x, y, i=i: (gmul(p, a, k, P_(x, y, p)) or (None, None))[i])
def xy(I, v):
    if not crypto.is_point(I, v): raise t.Unsup('point expected')
    return crypto.meth(I, v, 'x'), crypto.meth(I, v, 'y')
def make(I, x, y): return I.call(I.member(PT + 'Point'), [I.c36[0], x, y], {})
def total(I, P, Q):
    cu, p, a = I.c36
    (x1, y1), (x2, y2) = xy(I, P), xy(I, Q)
    args = [p, a, x1, y1, x2, y2]
    return make(I, t.app('pt_addx', args, 'any'), t.app('pt_addy', args, 'any'))
def add(I, f, args, kw):
    if kw or len(args) != 2: return None
    def g(P, Q):
        if crypto.is_inf(I, P): return Q
        if crypto.is_inf(I, Q): return P
        return total(I, P, Q)
    return I.bycase(args[0], lambda P: I.bycase(args[1], lambda Q: g(P, Q)))
def double(I, f, args, kw):
    if kw or len(args) != 1: return None
    return I.bycase(args[0], lambda P: P if crypto.is_inf(I, P) else total(I, P, P))
def same(I, f, args, kw):
    if kw or len(args) != 2: return None
    def g(P, Q):
        (x1, y1), (x2, y2) = xy(I, P), xy(I, Q)
        return t.and_(models.compare(I, 'Eq', x1, x2), models.compare(I, 'Eq', y1, y2))
    return I.bycase(args[0], lambda P: I.bycase(args[1], lambda Q: g(P, Q)))
def contains(I, f, args, kw):
    """what the group operations give is on the curve"""
    if len(args) == 3 and all(x.op == 'app' and x.a[0] in OPS or x.sort == 'any' for x in list(t.leaves(args[1])) + list(t.leaves(args[2]))): return t.TRUE
    return None
def inductive(I, f, args, kw):
    """what is claimed of the multiple, at the calls it makes of itself"""
    if len(args) != 2 or kw or getattr(I, 'c36_at', 0) == 0: return None
    if I.c36_at == 1: I.c36_at = 2; return None
    def g(P):
        if crypto.is_inf(I, P): return P
        (x, y), (cu, p, a) = xy(I, P), I.c36
        o = crypto.meth(I, P, 'order')
        if o.sort == 'none': I.raise_if(t.lt(args[1], ZERO), 'AssertionError')
        return make(I, *[t.app('pt_mul' + w, [p, a, args[1], x, y], 'any') for w in 'xy'])
    return I.bycase(args[0], g)
OVER = {PT + 'Point.__mul__': inductive, PT + 'Point.__add__': add, PT + 'Point.double': double, PT + 'Point.__eq__': same, PT + 'CurveFp.contains_point': contains, NT + 'inverse_mod': inverse}

# ------------------------------------------------------------ arguments
SMALL = TOYS + ((97, 2, 3), (1009, -3, 11))
def order_of(p, a, G):
    n, P = 1, G
    while P is not None: P = gadd(p, a, P, G); n += 1
    return n
def situation(v):
    d = getattr(v, 'mul36', None)
    if d is None:
        r = v.rng
        if r.random() < .45:
            p, a, n, G, b = r.choice(list(CURVES.values()))
            x, y = gmul(p, a, r.choice((1, 1, 2, n - 1, r.randrange(1, n))), G)
        else:
            p, a, b = r.choice(SMALL)
            while 1:
                x = r.randrange(p); ys = [y for y in range(p) if (y * y - x ** 3 - a * x - b) % p == 0]
                if ys: y = r.choice(ys); break
            n = order_of(p, a, (x, y))
        c = r.random()
        if c < .3: k = r.randrange(0, 40)
        elif c < .45: k = n * r.choice((1, 2, 3)) + r.randrange(-3, 4)
        elif c < .6: k = 2 ** r.randrange(1, 300) + r.choice((-1, 0, 1))
        elif c < .8: k = r.getrandbits(r.choice((8, 16, 64)))
        else: k = r.getrandbits(r.choice((160, 256, 521)))
        if r.random() < .12: k = -k
        d = v.mul36 = dict(p=p, a=a, b=b, x=x, y=y, n=n, k=k)
    return d
def build():
    c = Check('C36', 'The loop of the scalar multiplication denotes k times the point for every k (value graphs in which the loop is a recurrence over the coordinates); the sum and the double it uses are those of the group, which C22 decides.')
    c.needs = ['nbc', 'nbc.util', 'nbc.util.ecdsa', 'nbc.util.ecdsa.ellipticcurve']
    c.over = OVER
    S = t.sym
    xs = [S('p', 'int', 3), S('a', 'int'), S('b', 'int'), S('x', 'int', 0), S('y', 'int', 0), S('k', 'int')]
    n = S('n', 'int', 1)
    gens = {nm: lambda v, q, nm=nm: situation(v)[nm] for nm in ('p', 'a', 'b', 'x', 'y', 'k', 'n')}
    def curve(I, z):
        cu = I.call(I.member(PT + 'CurveFp'), list(z[:3]), {})
        I.c36 = (cu, z[0], z[1]); I.c36_at = 0; return cu
    def shown(I, P, p):
        def f(P):
            x, y = xy(I, P); return t.app('pt_shown', [p, x, y], 'any')
        return I.bycase(P, f)
    def pre(order):
        def f(I, z):
            on = t.eq(t.mod(t.sub(t.mul(z[4], z[4]), t.add(t.add(t.mul(t.mul(z[3], z[3]), z[3]), t.mul(z[1], z[3])), z[2])), z[0]), ZERO)
            r = [on, B(t.app('nt_prime', [z[0]], 'bool')), t.lt(z[3], z[0]), t.lt(z[4], z[0])]
            if order: r.append(t.eq(t.app('pt_mul', [z[0], z[1], z[6], z[3], z[4]], 'any'), NONE))
            return t.all_(r)
        return f
    def code(how, order):
        def f(I, z):
            cu = curve(I, z)
            P = I.call(I.member(PT + 'Point'), [cu, z[3], z[4]] + ([z[6]] if order else []), {})
            I.c36_at = 1
            r = I.call(I.getattr_(P, '__mul__'), [z[5]], {}) if how == '__mul__' else I.call(I.getattr_(P, '__rmul__'), [z[5]], {})
            return shown(I, r, z[0])
        return f
    def spec(order):
        def f(I, z):
            if not order: I.raise_if(t.lt(z[5], ZERO), 'AssertionError')
            return t.app('pt_mul', [z[0], z[1], z[5], z[3], z[4]], 'any')
        return f
    for how in ('__mul__', '__rmul__'):
        for order in (False, True):
            c.agree('%s of a point %s' % ('multiple' if how == '__mul__' else 'reflected multiple', 'of known order' if order else 'of unknown order'), code(how, order), spec(order), xs + ([n] if order else []),
                    gens=gens, overrides=OVER, spec_overrides={}, pre=pre(order), samples=400, where=PT + 'Point.' + how, limit=100)
    def code_inf(I, z):
        P = I.member(PT + 'INFINITY')
        curve(I, [K(23), K(1), K(1)])
        r = []
        for m in ('__mul__', '__rmul__'): I.c36_at = 1; r.append(shown(I, I.call(I.getattr_(P, m), [z[0]], {}), K(23)))
        return t.tup(r)
    def spec_inf(I, z):
        return t.tup([NONE, NONE])
    c.agree('multiple of the identity', code_inf, spec_inf, [xs[5]], gens=gens, overrides=OVER, spec_overrides={}, where=PT + 'Point.__mul__')
    return c
