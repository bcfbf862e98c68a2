"""Summaries of the arithmetic the wallet code stands on: Base58, curve points, modular roots and inverses.

A summary replaces a function of the package by the mathematical operator its own property says it computes
(Base58 by C35, point addition by C22), so that its callers can be compared with their reference.  The same
operators are builtins of the reference language.  They have a normal form and a meaning under valuations.
"""
from . import terms as t, models, evalt
from .terms import mk, K, B, ZERO, ONE, NONE, isc, cv, lift, not_, Unsup, ite
from .models import builtin
from .interp import Inst

# ------------------------------------------------------------------ Base58
ALPHABET = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def n58e(v):
    n = int.from_bytes(v, 'big'); s = b''
    while n:
        n, r = divmod(n, 58); s = ALPHABET[r:r + 1] + s
    return b'1' * (len(v) - len(v.lstrip(b'\0'))) + s
def n58d(v):
    n = 0
    for c in v: n = n * 58 + ALPHABET.index(c)
    w = v.lstrip(b'1')
    return bytes(len(v) - len(w)) + (n.to_bytes((n.bit_length() + 7) // 8, 'big') if n else b'')
def e58(x):
    def f(x):
        if isc(x): return K(n58e(cv(x)))
        if x.op == 'b58d': return mk('b58canon', (x.a[0],), 'bytes') if False else mk('b58e', (x,), 'bytes')
        return mk('b58e', (x,), 'bytes')
    return lift(f, (x,))
def bad58(x):
    def f(x):
        if isc(x): return K(any(c not in ALPHABET for c in cv(x)))
        if x.op == 'b58e': return K(False)
        return B(mk('badb58', (x,), 'bool'))
    return lift(f, (x,))
def d58(x):
    def f(x):
        if isc(x): return K(n58d(cv(x)))
        if x.op == 'b58e': return x.a[0]
        return mk('b58d', (x,), 'bytes')
    return lift(f, (x,))
evalt.simple('b58e', n58e)
evalt.simple('seal', lambda v: v)
def seal(I, x): return t.seal(I.simpv(x))
evalt.simple('b58d', n58d)
evalt.simple('badb58', lambda v: any(c not in ALPHABET for c in v))
def b58_text(I, x):
    """the argument as bytes; None when it is neither bytes nor text"""
    if all(l.sort == 'bytes' for l in t.leaves(x)): return x
    if all(l.sort == 'str' for l in t.leaves(x)): return I.call(I.getattr_(x, 'encode'), [K('ascii')], {})
    return None
def sum_encode(I, f, args, kw):
    if len(args) != 1 or kw: return None
    x = b58_text(I, args[0])
    return None if x is None else e58(x)
def sum_decode(I, f, args, kw):
    if len(args) != 1 or kw: return None
    x = b58_text(I, args[0])
    if x is None: return None
    I.raise_if(bad58(x), 'ValueError')
    return I.simpv(d58(x))
BASE58 = {'nbc.util.base58.b58encode': sum_encode, 'nbc.util.base58.b58decode': sum_decode}
@builtin('__b58e__')
def _(I, a, k):
    """Base58 of bytes"""
    return e58(b58_text(I, a[0]))
@builtin('__b58d__')
def _(I, a, k):
    """bytes of a Base58 word; ValueError when it is none"""
    x = b58_text(I, a[0])
    if x is None: raise Unsup('base58 of unknown')
    I.raise_if(bad58(x), 'ValueError')
    return I.simpv(d58(x))

# ------------------------------------------------------------------ curve points
def ginv(a, p): return pow(a, -1, p)
def gadd(p, a, P, Q):
    if P is None: return Q
    if Q is None: return P
    x1, y1 = P; x2, y2 = Q
    if (x1 - x2) % p == 0:
        if (y1 + y2) % p == 0: return None
        l = (3 * x1 * x1 + a) * ginv(2 * y1 % p, p) % p
    else: l = (y2 - y1) * ginv((x2 - x1) % p, p) % p
    x3 = (l * l - x1 - x2) % p
    return (x3, (l * (x1 - x3) - y1) % p)
def gneg(p, P): return None if P is None else (P[0], -P[1] % p)
_gm = {}
def gmul(p, a, k, P):
    """in Jacobian coordinates"""
    key = (p, a, k, P)
    if key in _gm: return _gm[key]
    if len(_gm) > 20000: _gm.clear()
    if P is None or k == 0: return None
    Q = P
    if k < 0: k = -k; Q = gneg(p, P)
    X, Y, Z = None, None, None
    x, y = Q[0] % p, Q[1] % p
    for bit in bin(k)[2:]:
        if Z is not None:                              # double
            if Y == 0: X = Y = Z = None
            else:
                YY = Y * Y % p; S = 4 * X * YY % p; M = (3 * X * X + a * Z * Z % p * Z * Z) % p
                X3 = (M * M - 2 * S) % p; Y3 = (M * (S - X3) - 8 * YY * YY) % p; Z = 2 * Y * Z % p
                X, Y = X3, Y3
        if bit == '1':
            if Z is None: X, Y, Z = x, y, 1
            else:
                ZZ = Z * Z % p; U = x * ZZ % p; S = y * ZZ * Z % p
                H = (U - X) % p; R = (S - Y) % p
                if H == 0:
                    if R == 0:
                        YY = Y * Y % p; S4 = 4 * X * YY % p; M = (3 * X * X + a * Z * Z % p * Z * Z) % p
                        X3 = (M * M - 2 * S4) % p; Y3 = (M * (S4 - X3) - 8 * YY * YY) % p; Z = 2 * Y * Z % p
                        X, Y = X3, Y3
                    else: X = Y = Z = None
                else:
                    HH = H * H % p; HHH = H * HH % p; V = X * HH % p
                    X3 = (R * R - HHH - 2 * V) % p; Y3 = (R * (V - X3) - Y * HHH) % p; Z = Z * H % p
                    X, Y = X3, Y3
    if Z is None: r = None
    else:
        zi = ginv(Z, p); r = (X * zi * zi % p, Y * zi * zi * zi % p)
    _gm[key] = r
    return r
def _pt(v): return None if v is None else v.p
def _v(P): return None if P is None else evalt.V('pt', P)
evalt.simple('gpt', lambda x, y: evalt.V('pt', (x, y)))
def _gm_ev(p, a, k, P):
    if not isinstance(k, int): raise evalt.Fail('scalar')
    try: return _v(gmul(p, a, k, _pt(P)))
    except ValueError: raise evalt.Fail('not invertible')
def _ga_ev(p, a, P, Q):
    try: return _v(gadd(p, a, _pt(P), _pt(Q)))
    except ValueError: raise evalt.Fail('not invertible')
evalt.simple('gmul', _gm_ev)
evalt.simple('gadd', _ga_ev)
def _gx(P):
    if P is None: raise evalt.Fail('infinity')
    return P.p[0]
def _gy(P):
    if P is None: raise evalt.Fail('infinity')
    return P.p[1]
evalt.simple('gx', _gx); evalt.simple('gy', _gy)
evalt.simple('ginf', lambda P: P is None)

def g_pt(x, y):
    def f(x, y):
        if x.op == 'gx' and y.op == 'gy' and x.a[0] is y.a[0]: return x.a[0]
        return mk('gpt', (x, y), 'obj')
    return lift(f, (x, y))
def g_mul(p, a, k, P): return lift(lambda p, a, k, P: mk('gmul', (p, a, k, P), 'obj'), (p, a, k, P))
def g_add(p, a, P, Q): return lift(lambda p, a, P, Q: mk('gadd', (p, a) + tuple(sorted((P, Q), key=lambda x: x.id)), 'obj'), (p, a, P, Q))
def g_x(P): return lift(lambda P: P.a[0] if P.op == 'gpt' else mk('gx', (P,), 'int', 0, cv(P.a[0]) - 1 if isc(P.a[0]) else None), (P,))
def g_y(P): return lift(lambda P: P.a[1] if P.op == 'gpt' else mk('gy', (P,), 'int', 0, cv(P.a[0]) - 1 if isc(P.a[0]) else None), (P,))
def g_inf(P): return lift(lambda P: K(False) if P.op == 'gpt' else B(mk('ginf', (P,), 'bool')), (P,))

PT = 'nbc.util.ecdsa.ellipticcurve.'
def infinity(I): return I.member(PT + 'INFINITY')
def is_inf(I, v): return v.op == 'ref' and v.a[0] is infinity(I).a[0]
def meth(I, v, name): return I.call(I.getattr_(v, name), [], {})
def curve_of(I, v):
    c = meth(I, v, 'curve')
    return c, meth(I, c, 'p'), meth(I, c, 'a')
def group(I, v): return g_pt(seal(I, meth(I, v, 'x')), seal(I, meth(I, v, 'y')))
def make_point(I, c, T, order=None):
    def f(T):
        if T.op == 'gpt': return I.call(I.member(PT + 'Point'), [c, T.a[0], T.a[1]], {})
        pt = I.call(I.member(PT + 'Point'), [c, g_x(T), g_y(T)], {})
        return ite(g_inf(T), infinity(I), pt)
    return I.bycase(T, f)
def is_point(I, v):
    c = I.class_of(v)
    return c is not None and I.member(PT + 'Point').a[0] in c.mro
def point_mul(I, f, args, kw):
    if kw or len(args) != 2: return None
    def g(P):
        if not is_point(I, P): raise Unsup('point expected')
        if is_inf(I, P): return P
        e = args[1]
        if not all(l.sort == 'int' for l in t.leaves(e)): raise Unsup('scalar expected')
        o = meth(I, P, 'order')
        if o.sort == 'none': I.raise_if(t.lt(e, ZERO), 'AssertionError')
        c, p, a = curve_of(I, P)
        return make_point(I, c, g_mul(p, a, seal(I, e), group(I, P)))
    return I.bycase(args[0], g)
def point_add(I, f, args, kw):
    if kw or len(args) != 2: return None
    def g(P, Q):
        if not is_point(I, P) or not is_point(I, Q): raise Unsup('point expected')
        if is_inf(I, P): return Q
        if is_inf(I, Q): return P
        c, p, a = curve_of(I, P); c2, p2, a2 = curve_of(I, Q)
        I.raise_if(not_(models.compare(I, 'Eq', c, c2)), 'AssertionError')
        return make_point(I, c, g_add(p, a, group(I, P), group(I, Q)))
    return I.bycase(args[0], lambda P: I.bycase(args[1], lambda Q: g(P, Q)))
def point_double(I, f, args, kw):
    return point_add(I, f, [args[0], args[0]], kw)
def contains(I, f, args, kw):
    """results of the group operation are on the curve"""
    if len(args) == 3 and all(x.op == 'gx' for x in t.leaves(args[1])) and all(x.op == 'gy' for x in t.leaves(args[2])): return t.TRUE
    return None
POINTS = {PT + 'Point.__mul__': point_mul, PT + 'Point.__rmul__': point_mul, PT + 'Point.__add__': point_add, PT + 'Point.double': point_double,
          PT + 'CurveFp.contains_point': contains}

def _pair(I, v):
    """a point of the reference: None or (x, y) -> list of (cond-free) group term or None"""
    if v.sort == 'none': return None
    x, y = I.unpack(v, 2)
    return g_pt(seal(I, x), seal(I, y))
def _back(I, T):
    def f(T):
        if T.op == 'gpt': return t.tup([T.a[0], T.a[1]])
        return ite(g_inf(T), NONE, t.tup([g_x(T), g_y(T)]))
    return lift(f, (T,))
@builtin('__gmul__')
def _(I, a, k):
    """__gmul__(p, a, k, P): P is None or a pair"""
    def f(P):
        T = _pair(I, P)
        return P if T is None else _back(I, g_mul(a[0], a[1], seal(I, a[2]), T))
    return I.bycase(a[3], f)
@builtin('__gadd__')
def _(I, a, k):
    def f(P, Q):
        S, T = _pair(I, P), _pair(I, Q)
        if S is None: return Q
        if T is None: return P
        return _back(I, g_add(a[0], a[1], S, T))
    return I.bycase(a[2], lambda P: I.bycase(a[3], lambda Q: f(P, Q)))

# ------------------------------------------------------------------ inverses and roots
def nsqrt(a, p):
    """a square root of a modulo the prime p (Cipolla); None when there is none"""
    a %= p
    if a == 0: return 0
    if pow(a, (p - 1) // 2, p) != 1: return None
    if p % 4 == 3: return pow(a, (p + 1) // 4, p)
    w = 0
    while pow((w * w - a) % p, (p - 1) // 2, p) == 1 or (w * w - a) % p == 0: w += 1
    n = (w * w - a) % p
    def mulq(x, y): return ((x[0] * y[0] + x[1] * y[1] * n) % p, (x[0] * y[1] + x[1] * y[0]) % p)
    r, b, e = (1, 0), (w, 1), (p + 1) // 2
    while e:
        if e & 1: r = mulq(r, b)
        b = mulq(b, b); e >>= 1
    return min(r[0], p - r[0])
evalt.simple('nosqrt', lambda a, p: nsqrt(a, p) is None)
def _sq(a, p):
    r = nsqrt(a, p)
    if r is None: raise evalt.Fail('no root')
    return r
evalt.simple('sqrtmod', _sq)
NT = 'nbc.util.ecdsa.numbertheory.'
def no_sqrt(a, p): return lift(lambda a, p: K(nsqrt(cv(a), cv(p)) is None) if isc(a) and isc(p) else B(mk('nosqrt', (a, p), 'bool')), (a, p))
def sqrt_(a, p): return lift(lambda a, p: K(nsqrt(cv(a), cv(p))) if isc(a) and isc(p) else mk('sqrtmod', (a, p), 'int', 0, cv(p) - 1 if isc(p) else None), (a, p))
def sum_sqrt(I, f, args, kw):
    if len(args) != 2 or kw: return None
    a, p = args
    if not isc(p): return None
    a = t.mod(a, p)
    bad = no_sqrt(a, p)
    cls = I.member(NT + 'SquareRootError')
    I.raise_if(bad, lambda: I.raise_(I.new_exc(cls.a[0])))
    return I.simpv(sqrt_(a, p))
def sum_inv(I, f, args, kw):
    if len(args) != 2 or kw: return None
    return I.simpv(t.inv(seal(I, args[0]), args[1]))
ROOTS = {NT + 'square_root_mod_prime': sum_sqrt}
INVERSE = {NT + 'inverse_mod': sum_inv}
@builtin('__sqrt__')
def _(I, a, k):
    """__sqrt__(a, p): a root, or None"""
    x = t.mod(a[0], a[1])
    return ite(no_sqrt(x, a[1]), NONE, sqrt_(x, a[1]))
@builtin('__inv__')
def _(I, a, k): return t.inv(seal(I, a[0]), a[1])
ALL = dict(BASE58); ALL.update(POINTS); ALL.update(ROOTS); ALL.update(INVERSE)
