"""inverses, roots, primality and factors"""
import math, random
from .. import terms as t, evalt, models
from ..terms import K, B
from ..check import Check
NT = 'nbc.util.ecdsa.numbertheory.'

# ------------------------------------------------------------ the mathematics, by other algorithms
WITNESSES = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41)          # decides below 3.3e24
def prime(n):
    if n < 2: return False
    for p in WITNESSES:
        if n % p == 0: return n == p
    d = n - 1; s = 0
    while d % 2 == 0: d //= 2; s += 1
    for a in WITNESSES + ((43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97) if n > 3317044064679887385961981 else ()):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def factors(n):
    out = []; p = 2
    while n > 1:
        if p * p > n or prime(n): p = n
        e = 0
        while n % p == 0: n //= p; e += 1
        if e: out.append((p, e))
        p += 1
    return tuple(out)
def jacobi(a, n):
    r = 1
    for p, e in factors(n):
        x = pow(a, (p - 1) // 2, p)
        r *= (0 if x == 0 else 1 if x == 1 else -1) ** e
    return r
def quick_jacobi(a, n):
    a %= n; r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5): r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3: r = -r
        a %= n
    return r if n == 1 else 0
def symbol(a, n): return jacobi(a, n) if n < 10 ** 6 else quick_jacobi(a, n)
def phi(n):
    r = 1
    for p, e in factors(n): r *= (p - 1) * p ** (e - 1)
    return r
def lam(n):
    r = 1
    for p, e in factors(n):
        x = (p - 1) * p ** (e - 1)
        if p == 2 and e > 2: x //= 2
        r = r * x // math.gcd(r, x)
    return r
def order(x, m):
    z = x % m; r = 1
    while z != 1 % m: z = z * x % m; r += 1
    return r
def rest(a, b):
    while math.gcd(a, b) > 1: a //= math.gcd(a, b)
    return a
def after(n):
    n = max(n + 1, 2)
    while not prime(n): n += 1
    return n
def polymul(f, g, m, p):
    """product of polynomials modulo the monic m and p"""
    r = [0] * (len(f) + len(g) - 1)
    for i, x in enumerate(f):
        for j, y in enumerate(g): r[i + j] += x * y
    return polyrem(r, m, p)
def polyrem(r, m, p):
    r = list(r); d = len(m) - 1
    while len(r) > d:
        c = r.pop()
        for i in range(d): r[len(r) - d + i] -= c * m[i]
    return tuple(x % p for x in r)
def polyexp(f, e, m, p):
    r = (1,)
    for bit in bin(e)[2:]:
        r = polymul(r, r, m, p)
        if bit == '1': r = polymul(r, f, m, p)
    return r
def padded(r, n): return tuple(r) + (0,) * (n - len(r))
for nm, f in (('gcd', lambda *a: math.gcd(*a)), ('lcm', lambda *a: math.lcm(*a)), ('prime', prime), ('factors', factors), ('symbol', symbol), ('phi', phi), ('lambda', lam), ('order', order), ('rest', rest), ('after', after),
              ('polymul', polymul), ('polyrem', polyrem), ('polyexp', polyexp)): evalt.simple('nt_' + nm, f)

# ------------------------------------------------------------ arguments
def some_prime(r, cls=None, small=False):
    while True:
        c = r.random()
        p = r.choice((3, 5, 7, 11, 13, 17, 41, 73, 97, 113, 1229, 1231)) if c < .3 else r.randrange(3, 3000) if c < .6 or small else r.getrandbits(r.choice((30, 62, 64))) | 1 if c < .85 else r.getrandbits(r.choice((96, 130, 192, 256))) | 1
        if cls is not None: p = p - p % 8 + cls
        if p > 2 and prime(p): return p
PSEUDO = (2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461, 561, 1105, 1729, 41041, 825265, 321197185, 1541 * 1543, 1229 ** 2, 1231 ** 2, 1231 * 1237, 1223 * 1229, 25, 49, 121, 169, 9, 15, 1, 0, -1, -7, 2, 3, 4, 1230, 1228)
def near_prime(v, q):
    r = v.rng; c = r.random()
    if c < .25: return r.choice(PSEUDO)
    if c < .4: return r.randrange(-5, 3000)
    if c < .55: return some_prime(r)
    if c < .7: return some_prime(r) + r.choice((2, -2, 4))
    if c < .85:
        p = some_prime(r, small=True); return p * r.choice((p, 2 * p - 1, some_prime(r, small=True)))
    return r.getrandbits(r.choice((20, 40, 63)))
def composite(r, top=10 ** 7):
    while True:
        n = 1
        for _ in range(r.randrange(1, 6)): n *= r.choice((2, 2, 2, 3, 3, 5, 7, 11, 13, 97, 1223, 1229, 1231, 1237, 1249, 1999)) ** r.choice((1, 1, 1, 2, 3, 4))
        if n < top: return n
def number(v, q):
    r = v.rng; c = r.random()
    if c < .15: return r.randrange(-3, 20)
    if c < .3: return r.randrange(1, 2000)
    if c < .5: return r.randrange(1, 10 ** 6)
    if c < .6: return r.choice((1231 ** 2, 1231 * 1237, 1229 ** 2, 1229 * 1231, 1231 ** 2 * 2, 1237 ** 2 * 4, 1231 * 1237 * 3, 2 ** 12, 2 ** 30, 3 ** 10, 2 * some_prime(r, small=True)))
    return composite(r, 10 ** 7)
def pick(r): return r.choice((r.randrange(0, 30), r.randrange(0, 1000), composite(r), r.getrandbits(64), r.getrandbits(256)))
def two(v, key):
    d = getattr(v, key, None)
    if d is None:
        r = v.rng; d = {}
        g = pick(r) or 1
        if r.random() < .2: g <<= r.randrange(0, 70)
        a, b = g * r.choice((1, 2, 3, pick(r))), g * r.choice((1, 1, 5, pick(r)))
        if r.random() < .3: a, b = pick(r), pick(r)
        d['a'], d['b'], d['c'] = a, b, g * r.choice((1, 3, pick(r)))
        setattr(v, key, d)
    return d
def mod_pair(v):
    d = getattr(v, 'modpair', None)
    if d is None:
        r = v.rng; c = r.random()
        m = r.choice((1, 2, 3, 4, 6, 9, 15)) if c < .3 else composite(r) if c < .5 else some_prime(r) if c < .8 else r.getrandbits(r.choice((16, 256, 521))) | 1
        a = r.choice((0, 1, -1, 2, m - 1, m + 1, -m, m, r.randrange(m), r.randrange(m), r.randrange(m), r.randrange(m), m + r.randrange(m), -r.randrange(m), r.getrandbits(600)))
        d = v.modpair = (a, m)
    return d
def small_pair(v):
    d = getattr(v, 'smallpair', None)
    if d is None:
        r = v.rng; m = r.choice((1, 2, 3, 4, 7, 8, 9, 15, 16, r.randrange(1, 400), r.randrange(1, 400)))
        x = r.choice((1, -1, m - 1, m + 1, r.randrange(1, m + 1), r.randrange(1, m + 1), r.randrange(1, 3 * m + 1)))
        for _ in range(50):
            if math.gcd(x, m) == 1: break
            x = r.randrange(1, 3 * m + 2)
        d = v.smallpair = (x, m)
    return d
def odd_pair(v):
    d = getattr(v, 'oddpair', None)
    if d is None:
        r = v.rng; c = r.random()
        n = r.choice((3, 5, 7, 9, 11, 13, 15, 17, 21, 25, 27, 33, 35, 45, 63, 75, 105)) if c < .4 else r.randrange(3, 4000) | 1 if c < .8 else r.getrandbits(r.choice((30, 64, 256))) | 1
        n = max(n, 3)
        if r.random() < .08: n = r.choice((1, 2, 4, 0, -3, 12))
        a = r.choice((0, 1, 2, 3, -1, n, n - 1, 2 * n + 1, r.randrange(-50, 50), r.randrange(0, abs(n) + 1), r.randrange(0, abs(n) + 1), r.randrange(0, abs(n) + 1) * 4, r.getrandbits(80)))
        if r.random() < .3: a = (r.randrange(1, 2000) | 1) << r.randrange(0, 40)
        d = v.oddpair = (a, n)
    return d

def call(I, f, *a): return I.call(I.member(NT + f), list(a), {})
def refuse(I, c, e='AssertionError'): I.raise_if(c, e)
def jac_op(I, a, n):
    refuse(I, t.or_(t.lt(n, K(3)), t.eq(t.mod(n, K(2)), K(0))))
    return t.app('nt_symbol', [t.mod(a, n), n], 'int', -1, 1)
def inductive(I, f, args, kw):
    """what is claimed of jacobi, at the calls it makes of itself"""
    if len(args) != 2 or kw: return None
    n = I.depth_jacobi = getattr(I, 'depth_jacobi', 0) + 1
    if n == 1: return None
    return jac_op(I, args[0], args[1])
def summary(I, f, args, kw):
    return jac_op(I, args[0], args[1]) if len(args) == 2 and not kw else None
def sum_prime(I, f, args, kw): return B(t.app('nt_prime', [args[0]], 'bool')) if len(args) == 1 and not kw else None
def sum_gcd(I, f, args, kw): return t.app('nt_gcd', args, 'int', 0) if len(args) == 2 and not kw else None
def seqarg(I, x): return I.reify(I.seq_of(x))
def is_seq(x): return x.op == 'ref' or x.sort == 'seq'
def sum_polyexp(I, f, args, kw):
    if len(args) != 4 or kw or not is_seq(args[0]) or not is_seq(args[2]): return None
    b, e, m, p = args
    m = seqarg(I, m); n = t.length(m)
    if not t.isc(n): return None
    r = t.app('nt_polyexp', [seqarg(I, b), e, m, p], 'seq'); t.set_elem_sort(r, 'int')
    return I.new_list(t.tup([t.seqget(r, K(i)) for i in range(t.cv(n) - 1)]))

def sum_polymul(I, f, args, kw):
    if len(args) != 4 or kw: return None
    r = t.app('nt_polymul', [seqarg(I, args[0]), seqarg(I, args[1]), seqarg(I, args[2]), args[3]], 'seq'); t.set_elem_sort(r, 'int')
    return I.new_list(r)

def build():
    c = Check('C34', 'Each function of the number theory module denotes the same function of its arguments as the mathematical operator of its name, written by another algorithm '
                     '(value graphs in which loops are recurrences); a recursive function is decided by assuming the claim for its own smaller calls.')
    c.needs = ['nbc', 'nbc.util', 'nbc.util.ecdsa', 'nbc.util.ecdsa.numbertheory']
    S = t.sym
    a, b, d = S('a', 'int', 0), S('b', 'int', 0), S('d', 'int', 0)
    G2 = {'a': lambda v, q: two(v, 'ab')['a'], 'b': lambda v, q: two(v, 'ab')['b'], 'd': lambda v, q: two(v, 'ab')['c']}
    c.agree('greatest common divisor', NT + 'gcd2', lambda I, x: t.app('nt_gcd', x, 'int', 0), [a, b], gens=G2)
    c.agree('of two', NT + 'gcd', lambda I, x: t.app('nt_gcd', x, 'int', 0), [a, b], gens=G2)
    c.agree('of three', NT + 'gcd', lambda I, x: t.app('nt_gcd', x, 'int', 0), [a, b, d], gens=G2)
    c.agree('of a list', lambda I, x: call(I, 'gcd', I.new_list(t.tup(x))), lambda I, x: t.app('nt_gcd', x, 'int', 0), [a, b, d], gens=G2, where=NT + 'gcd')
    c.agree('of one', NT + 'gcd', lambda I, x: x[0], [a])
    pos = lambda I, x: t.and_(*[t.lt(K(0), y) for y in x]) if len(x) == 2 else t.all_([t.lt(K(0), y) for y in x])
    for name, args in (('least common multiple of two', [a, b]), ('of three numbers', [a, b, d])):
        c.agree(name, NT + 'lcm', lambda I, x: t.app('nt_lcm', x, 'int', 0), args, gens=G2, pre=pos)
    c.agree('least common multiple of a list', lambda I, x: call(I, 'lcm', I.new_list(t.tup(x))), lambda I, x: t.app('nt_lcm', x, 'int', 0), [a, b, d], gens=G2, pre=pos, where=NT + 'lcm')
    # inverse
    x, m = S('x', 'int'), S('m', 'int', 1)
    GM = {'x': lambda v, q: mod_pair(v)[0], 'm': lambda v, q: mod_pair(v)[1]}
    def inv_spec(I, z):
        refuse(I, t.not_(t.eq(t.app('nt_gcd', [z[0], z[1]], 'int', 0), K(1))))
        return t.mod(K(1), z[1])
    c.agree('inverse', lambda I, z: t.mod(t.mul(call(I, 'inverse_mod', *z), z[0]), z[1]), inv_spec, [x, m], gens=GM, where=NT + 'inverse_mod', samples=1500)
    def inv_range(I, z):
        r = call(I, 'inverse_mod', *z)
        return t.and_(t.le(K(0), r), t.le(r, z[1]))
    def inv_ok(I, z): inv_spec(I, z); return t.TRUE
    c.agree('inverse is in range', inv_range, inv_ok, [x, m], gens=GM, where=NT + 'inverse_mod', samples=1500)
    # powers
    e = S('e', 'int')
    GP = dict(GM, e=lambda v, q: v.rng.choice((0, 1, 2, 3, -1, -5, v.rng.getrandbits(10), v.rng.getrandbits(256))))
    def pow_spec(I, z):
        refuse(I, t.lt(z[1], K(0)), lambda: I.raise_(I.new_exc(I.member(NT + 'NegativeExponentError').a[0])))
        return t.app('nt_pow', z, 'int', 0)
    evalt.simple('nt_pow', lambda x, e, m: pow(x, e, m))
    c.agree('power', NT + 'modular_exp', pow_spec, [x, e, m], gens=GP)
    # Jacobi symbol
    j, n = S('j', 'int'), S('n', 'int')
    GJ = {'j': lambda v, q: odd_pair(v)[0], 'n': lambda v, q: odd_pair(v)[1]}
    def fresh(I): I.depth_jacobi = 0
    c.agree('Jacobi symbol', NT + 'jacobi', lambda I, z: jac_op(I, *z), [j, n], gens=GJ, overrides={NT + 'jacobi': inductive}, spec_overrides={}, setup=fresh, samples=3000)
    # primes
    GN = {'n': near_prime}
    c.agree('primality', NT + 'is_prime', lambda I, z: B(t.app('nt_prime', z, 'bool')), [n], gens=GN, samples=600, limit=60)
    c.agree('next prime', NT + 'next_prime', lambda I, z: t.app('nt_after', z, 'int', 2), [n], gens=GN, overrides={NT + 'is_prime': sum_prime}, samples=400)
    # factors
    GF = {'n': number}
    fo = {NT + 'is_prime': sum_prime}
    c.agree('factors', lambda I, z: seqarg(I, call(I, 'factorization', z[0])), lambda I, z: t.app('nt_factors', z, 'seq'), [n], gens=GF, overrides=fo, where=NT + 'factorization', samples=400, limit=60)
    c.agree('totient', NT + 'phi', lambda I, z: t.ite(t.lt(z[0], K(1)), K(1), t.app('nt_phi', z, 'int', 1)), [n], gens=GF, overrides=fo, samples=300, limit=60)
    c.agree('Carmichael function', NT + 'carmichael', lambda I, z: t.ite(t.lt(z[0], K(1)), K(1), t.app('nt_lambda', z, 'int', 1)), [n], gens=GF, overrides=fo, samples=300, limit=60)
    GO = {'x': lambda v, q: small_pair(v)[0], 'm': lambda v, q: small_pair(v)[1]}
    def order_spec(I, z):
        g = t.app('nt_gcd', [z[0], z[1]], 'int', 0)
        one = t.le(z[1], K(1))
        refuse(I, t.and_(t.not_(one), t.not_(t.eq(g, K(1)))))
        return t.ite(one, K(0), t.app('nt_order', z, 'int', 1))
    c.agree('order of an element', NT + 'order_mod', order_spec, [x, m], gens=GO, samples=600)
    GR = {'a': lambda v, q: two(v, 'ab')['a'], 'b': lambda v, q: two(v, 'ab')['b']}
    c.agree('part without common factors', NT + 'largest_factor_relatively_prime', lambda I, z: t.app('nt_rest', z, 'int', 1), [a, b], gens=GR, pre=pos, samples=400)
    sums = {NT + 'largest_factor_relatively_prime': lambda I, f, z, k: t.app('nt_rest', list(z), 'int', 1)}
    c.agree('order modulo the part without common factors', NT + 'kinda_order_mod', lambda I, z: order_spec(I, [z[0], t.app('nt_rest', [z[1], z[0]], 'int', 1)]), [x, m], gens=GO, overrides=sums, pre=pos, samples=400)
    # roots
    for cls in (1, 3, 5, 7):
        p, r = S('p%d' % cls, 'int', 3), S('r%d' % cls, 'int', 0)
        def pp(v, cls=cls):
            d = getattr(v, 'rp', None)
            if d is None:
                g = v.rng; P = some_prime(g, cls)
                A = g.choice((0, 1, 2, P - 1, g.randrange(P), pow(g.randrange(P), 2, P), pow(g.randrange(P), 2, P), pow(g.randrange(P), 2, P), pow(g.randrange(P), 4, P)))
                if g.random() < .03: A = g.choice((P, P + 1))
                d = v.rp = (A, P)
            return d
        def root(I, z):
            y = call(I, 'square_root_mod_prime', *z)
            return t.tup([t.mod(t.mul(y, y), z[1]), t.and_(t.le(K(0), y), t.lt(y, z[1]))])
        def root_spec(I, z, cls=cls):
            refuse(I, t.not_(t.and_(t.le(K(0), z[0]), t.lt(z[0], z[1]))))
            s = t.app('nt_symbol', [z[0], z[1]], 'int', -1, 1)
            I.raise_if(t.eq(s, K(-1)), lambda: I.raise_(I.new_exc(I.member(NT + 'SquareRootError').a[0])))
            return t.tup([z[0], t.TRUE])
        def cond(I, z, cls=cls): return t.and_(t.eq(t.mod(z[1], K(8)), K(cls)), B(t.app('nt_prime', [z[1]], 'bool')))
        c.agree('root modulo primes of class %d' % cls, root, root_spec, [r, p], gens={r.a[0]: lambda v, q: pp(v)[0], p.a[0]: lambda v, q, pp=pp: pp(v)[1]},
                overrides={NT + 'jacobi': summary, NT + 'polynomial_exp_mod': sum_polyexp}, spec_overrides={}, pre=cond, where=NT + 'square_root_mod_prime', samples=400)
    # polynomials
    P = S('p', 'int', 3); mm = [S('m%d' % i, 'int') for i in range(3)]; ff = [S('f%d' % i, 'int') for i in range(6)]; gg = [S('g%d' % i, 'int') for i in range(4)]
    def coef(v, q): return v.rng.choice((0, 0, 1, v.rng.randrange(1000), -v.rng.randrange(1000), v.rng.getrandbits(130)))
    GP = {s.a[0]: coef for s in mm + ff + gg}
    GP['p'] = lambda v, q: some_prime(v.rng)
    GP['ee'] = lambda v, q: v.rng.choice((0, 1, 2, 3, 4, 5, v.rng.getrandbits(10), v.rng.getrandbits(64)))
    lst = lambda I, xs: I.new_list(t.tup(list(xs)))
    ee = S('ee', 'int', 0)
    for deg in (1, 2, 3):
        modulus = mm[:deg] + [K(1)]
        for n in range(1, 7):
            def code(I, z, deg=deg, n=n): return app_mod(seqarg(I, call(I, 'polynomial_reduce_mod', lst(I, z[1:n + 1]), lst(I, z[n + 1:] + [K(1)]), z[0])), z[0])
            def spec(I, z, deg=deg, n=n): return app_mod(t.app('nt_polyrem', [t.tup(list(z[1:n + 1])), t.tup(list(z[n + 1:]) + [K(1)]), z[0]], 'seq'), z[0])
            c.agree('remainder of %d coefficients by a polynomial of degree %d' % (n, deg), code, spec, [P] + ff[:n] + mm[:deg], gens=GP, where=NT + 'polynomial_reduce_mod', samples=60)
        for n1, n2 in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 4)):
            def args(z, n1=n1, n2=n2): return z[1:n1 + 1], z[n1 + 1:n1 + n2 + 1], list(z[n1 + n2 + 1:]) + [K(1)]
            def code2(I, z, args=args): f, g, m = args(z); return app_mod(seqarg(I, call(I, 'polynomial_multiply_mod', lst(I, f), lst(I, g), lst(I, m), z[0])), z[0])
            def spec2(I, z, args=args): f, g, m = args(z); return app_mod(t.app('nt_polymul', [t.tup(list(f)), t.tup(list(g)), t.tup(m), z[0]], 'seq'), z[0])
            c.agree('product of %d and %d coefficients modulo a polynomial of degree %d' % (n1, n2, deg), code2, spec2, [P] + ff[:n1] + gg[:n2] + mm[:deg], gens=GP, where=NT + 'polynomial_multiply_mod', samples=60)
        for n in (1, 2, 3):
            if n > deg: continue
            def code3(I, z, n=n): return app_mod(seqarg(I, call(I, 'polynomial_exp_mod', lst(I, z[2:n + 2]), z[1], lst(I, list(z[n + 2:]) + [K(1)]), z[0])), z[0])
            def spec3(I, z, n=n):
                refuse(I, t.not_(t.lt(z[1], z[0])))
                return app_mod(t.app('nt_polyexp', [t.tup(list(z[2:n + 2])), z[1], t.tup(list(z[n + 2:]) + [K(1)]), z[0]], 'seq'), z[0])
            c.agree('power of %d coefficients modulo a polynomial of degree %d' % (n, deg), code3, spec3, [P, ee] + ff[:n] + mm[:deg], gens=GP, where=NT + 'polynomial_exp_mod', samples=100, overrides={NT + 'polynomial_multiply_mod': sum_polymul}, spec_overrides={})
    return c
evalt.simple('nt_norm', lambda s, p: norm([x % p for x in s]))
def norm(s):
    while s and s[-1] == 0: s = s[:-1]
    return tuple(s)
def app_mod(s, p): return t.app('nt_norm', [s, p], 'seq')
