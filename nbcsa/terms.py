"""Value-number terms: hash-consed, kept in normal form.

A term is either a *leaf* (constant, symbol, uninterpreted application, integer polynomial, byte
string concatenation, ...) or an ordered decision node ('ite', atom, hi, lo) -- the gated phi of a
join point.  Leaves never contain decision nodes except inside loop bodies, so two values that are
equal for the normaliser are the same Python object.
"""
from math import gcd

class Unsup(Exception):
    """The analysis does not understand a construct: the obligation stays undecided."""

class T(object):
    __slots__ = ('op', 'a', 'id', 'sort', 'lo', 'hi', 'ext', '__weakref__')
    def __repr__(self):
        return show(self)

_tab = {}
_cnt = [0]

def _key(x):
    if isinstance(x, T): return ('t', x.id)
    if isinstance(x, tuple): return ('u',) + tuple(_key(y) for y in x)
    if x is None or isinstance(x, (int, str, bytes, bool, float)): return (type(x).__name__, x)
    return ('o', id(x))

_keep = []
def mk(op, a, sort, lo=None, hi=None, ext=None):
    k = (op, _key(a))
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.sort = sort; t.lo = lo; t.hi = hi; t.ext = ext
        _cnt[0] += 1; t.id = _cnt[0]
        _tab[k] = t
    return t

# ---------------------------------------------------------------- constants
_sort_of = {int: 'int', bool: 'bool', bytes: 'bytes', str: 'str', float: 'float', type(None): 'none'}
def K(v):
    ty = type(v)
    if ty is tuple: return tup([K(x) for x in v])
    if ty is bytearray: v = bytes(v); ty = bytes
    s = _sort_of.get(ty)
    if s is None: raise Unsup('constant %r' % (ty,))
    if s == 'int': return mk('c', (s, v), s, v, v)
    return mk('c', (s, v), s)
TRUE = K(True); FALSE = K(False); NONE = K(None)
ZERO = K(0); ONE = K(1)
def isc(t): return t.op == 'c'
def cv(t): return t.a[1]

def sym(name, sort='any', lo=None, hi=None, ext=None):
    """ext: for bytes symbols, a fixed length"""
    r = mk('sym', (name,), sort, lo, hi, ext)
    if (r.sort, r.lo, r.hi) != (sort, lo, hi) or r.ext is not ext and r.ext != ext: raise ValueError('symbol %s redefined' % (name,))
    return r

# ---------------------------------------------------------------- decision nodes
MAXLEAVES = 20000
class Blowup(Unsup): pass

def node(atom, hi, lo):
    if hi is lo: return hi
    return mk('ite', (atom, hi, lo), hi.sort if hi.sort == lo.sort else 'any')

def B(atom):
    """boolean value of an atom"""
    return node(atom, TRUE, FALSE)

_budget = [0]
def lift(f, args):
    for x in args:
        if x.op == 'ite': break
    else:
        return f(*args)
    memo = {}
    def rec(args):
        top = None
        for x in args:
            if x.op == 'ite' and (top is None or x.a[0].id < top.id): top = x.a[0]
        if top is None: return f(*args)
        k = tuple(x.id for x in args)
        r = memo.get(k)
        if r is not None: return r
        if len(memo) > MAXLEAVES: raise Blowup('decision diagram too large')
        hi = rec([x.a[1] if x.op == 'ite' and x.a[0] is top else x for x in args])
        lo = rec([x.a[2] if x.op == 'ite' and x.a[0] is top else x for x in args])
        # f may return terms whose own atoms come before top: reorder
        r = insert(top, hi, lo)
        memo[k] = r
        return r
    return rec(list(args))

def _topid(t): return t.a[0].id if t.op == 'ite' else 1 << 60

def insert(atom, hi, lo):
    if hi is lo: return hi
    if atom.id < _topid(hi) and atom.id < _topid(lo): return node(atom, hi, lo)
    return ite(B(atom), hi, lo)

_ite_memo = {}
def ite(c, x, y):
    """if c then x else y, c a boolean term"""
    if c is TRUE: return x
    if c is FALSE: return y
    if x is y: return x
    k = (c.id, x.id, y.id)
    r = _ite_memo.get(k)
    if r is not None: return r
    if c.op != 'ite': raise Unsup('non-boolean condition %s' % show(c))
    top = c.a[0]
    for z in (x, y):
        if z.op == 'ite' and z.a[0].id < top.id: top = z.a[0]
    def co(z, i): return z.a[i] if z.op == 'ite' and z.a[0] is top else z
    r = node(top, ite(co(c, 1), co(x, 1), co(y, 1)), ite(co(c, 2), co(x, 2), co(y, 2)))
    if len(_ite_memo) > 3000000: _ite_memo.clear()
    _ite_memo[k] = r
    return r

def not_(c): return ite(c, FALSE, TRUE)
def and_(a, b): return ite(a, b, FALSE)
def or_(a, b): return ite(a, TRUE, b)
def all_(cs):
    r = TRUE
    for c in cs: r = and_(r, c)
    return r
def any_(cs):
    r = FALSE
    for c in cs: r = or_(r, c)
    return r

def leaves(t, out=None, seen=None):
    if out is None: out = []; seen = set()
    if t.id in seen: return out
    seen.add(t.id)
    if t.op == 'ite':
        leaves(t.a[1], out, seen); leaves(t.a[2], out, seen)
    else: out.append(t)
    return out

def atoms_of(t, out=None, seen=None):
    if out is None: out = []; seen = set()
    if t.id in seen: return out
    seen.add(t.id)
    if t.op == 'ite':
        if t.a[0] not in out: out.append(t.a[0])
        atoms_of(t.a[1], out, seen); atoms_of(t.a[2], out, seen)
    return out

# ---------------------------------------------------------------- numbers
NUM = ('int', 'float', 'bool', 'num')
def isnum(t): return t.sort in NUM

def pdict(t):
    """leaf number term -> {monomial: coeff}; a monomial is a tuple of (atom, exponent)"""
    if t.op == 'c': 
        v = cv(t)
        return {(): v} if v else {}
    if t.op == 'poly': return dict(t.a[0])
    return {((t, 1),): 1}

def _mkey(m): return tuple((a.id, e) for a, e in m)
def mkpoly(d, sort='int'):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items: return ZERO if sort != 'float' else K(0.0)
    if len(items) == 1:
        m, c = items[0]
        if m == (): return K(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    lo, hi = _prange(items)
    return mk('poly', (tuple(items),), sort, lo, hi)

def _mono_range(m):
    lo, hi = 1, 1
    for a, e in m:
        al, ah = a.lo, a.hi
        for _ in range(e):
            if al is not None and al >= 0 and lo is not None and lo >= 0:
                lo = lo * al
                hi = None if hi is None or ah is None else hi * ah
            else:
                if None in (al, ah, lo, hi): return (0 if e % 2 == 0 and len(m) == 1 else None), None
                c = [lo * al, lo * ah, hi * al, hi * ah]
                lo, hi = min(c), max(c)
    return lo, hi

def _prange(items, bounds=None):
    L = H = 0
    for m, c in items:
        if m == (): lo = hi = 1
        else: lo, hi = _mono_range(m)
        if c < 0: lo, hi = hi, lo
        if L is not None: L = None if lo is None else L + c * lo
        if H is not None: H = None if hi is None else H + c * hi
        if L is None and H is None: break
    return L, H

def _psort(*ts):
    if any(t.sort == 'float' for t in ts): return 'float'
    if all(t.sort in ('int', 'bool') for t in ts): return 'int'
    return 'num'

def _num(t):
    if t.op == 'c' and t.sort == 'bool': return K(int(cv(t)))
    return t

def _padd(a, b, s=1):
    d = pdict(a)
    for m, c in pdict(b).items(): d[m] = d.get(m, 0) + s * c
    return d

def _pmul(d1, d2):
    r = {}
    if len(d1) * len(d2) > 4000: raise Blowup('polynomial too large')
    for m1, c1 in d1.items():
        for m2, c2 in d2.items():
            m = _mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return r

def _mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    e = dict(m1)
    for a, k in m2: e[a] = e.get(a, 0) + k
    return tuple(sorted(e.items(), key=lambda x: x[0].id))

def _add(a, b):
    a = _num(a); b = _num(b)
    if a.sort in NUM and b.sort in NUM or a.sort in NUM and b.sort == 'any' or b.sort in NUM and a.sort == 'any':
        if isc(a) and isc(b): return K(cv(a) + cv(b))
        return mkpoly(_padd(a, b), _psort(a, b))
    if a.sort in ('bytes', 'str') and b.sort == a.sort: return cat([a, b])
    if a.sort in ('bytes', 'str') and b.sort == 'any' or b.sort in ('bytes', 'str') and a.sort == 'any':
        return cat([a, b], a.sort if a.sort != 'any' else b.sort)
    if a.sort == 'seq' and b.sort == 'seq': return seqcat([a, b])
    if a.sort == 'any' and b.sort == 'any': return mk('add', (a, b), 'any')
    raise Unsup('add %s %s' % (a.sort, b.sort))
def add(a, b): return lift(_add, (a, b))
def _sub(a, b):
    a = _num(a); b = _num(b)
    if a.sort in ('bytes', 'str', 'seq') or b.sort in ('bytes', 'str', 'seq'): raise Unsup('sub')
    if isc(a) and isc(b): return K(cv(a) - cv(b))
    return mkpoly(_padd(a, b, -1), _psort(a, b))
def sub(a, b): return lift(_sub, (a, b))
def neg(a): return sub(ZERO, a)

def _mul(a, b):
    a = _num(a); b = _num(b)
    for x, y in ((a, b), (b, a)):
        if x.sort in ('bytes', 'str', 'seq'):
            if isc(y) and y.sort == 'int':
                n = max(0, cv(y))
                if isc(x): return K(cv(x) * n)
                if x.op == 'tup' and n * len(x.a) < 5000: return tup(list(x.a) * n)
                if n < 64: return cat([x] * n, x.sort) if x.sort != 'seq' else seqcat([x] * n)
            if isc(x) and x.sort in ('bytes', 'str') and len(cv(x)) == 0: return x
            if y.sort in ('int', 'any', 'num'): return mk('rep', (x, y), x.sort)
            raise Unsup('mul')
    if isc(a) and isc(b): return K(cv(a) * cv(b))
    return mkpoly(_pmul(pdict(a), pdict(b)), _psort(a, b))
def mul(a, b): return lift(_mul, (a, b))

def _pow(a, b):
    if isc(a) and isc(b):
        if cv(b) > 5000: raise Unsup('pow')
        return K(cv(a) ** cv(b))
    if isc(b) and isinstance(cv(b), int) and 0 <= cv(b) <= 6:
        r = ONE
        for _ in range(cv(b)): r = _mul(r, a)
        return r
    return mk('pow', (a, b), _psort(a, b))
def pow_(a, b): return lift(_pow, (a, b))

def _mod(p, m):
    p = _num(p)
    if p.sort in ('str', 'bytes'): raise Unsup('format')
    if isc(p) and isc(m):
        return K(cv(p) % cv(m))
    if isc(m) and m.sort == 'int' and _pow2(cv(m)):
        mv = cv(m)
        if p.op == 'bxor':
            r = ZERO
            for x in p.a: r = _bxor(r, _mod(x, m))
            return r
        if p.op == 'tbl' and (p.lo < 0 or p.hi >= mv): return _tblpart(p, lambda v: v % mv, ('mod', mv))
        if mv == 256:
            q, k = (p.a[0], cv(p.a[1])) if p.op == 'fdiv' and isc(p.a[1]) else (p, 1)
            if q.op == 'dec' and q.a[1] in '<>' and isinstance(k, int) and _pow2(k) and (k.bit_length() - 1) % 8 == 0:
                n = length(q.a[0]); j = (k.bit_length() - 1) // 8
                if isc(n) and j < cv(n): return byte(q.a[0], K(cv(n) - 1 - j if q.a[1] == '>' else j))
    if p.sort not in ('int',) or m.sort not in ('int', 'any', 'num'):
        if p.sort in ('any', 'num'): pass
        else: return mk('mod', (p, m), 'num')
    d = pdict(p)
    # ring homomorphism: inner "mod m" vanish
    again = True
    while again:
        again = False
        for mono, c in list(d.items()):
            for (at, e) in mono:
                if at.op == 'mod' and at.a[1] is m or (at.op == 'mod' and isc(m) and isc(at.a[1]) and cv(m) and cv(at.a[1]) % cv(m) == 0):
                    rest = tuple((x, k) for x, k in mono if x is not at)
                    q = {rest: c}
                    for _ in range(e): q = _pmul(q, pdict(at.a[0]))
                    del d[mono]
                    for mm, cc in q.items(): d[mm] = d.get(mm, 0) + cc
                    again = True
                    break
            if again: break
    if isc(m):
        mv = cv(m)
        if mv > 0:
            nd = {}
            for mono, c in d.items():
                c = c % mv
                if c: nd[mono] = c
            d2 = nd
            # drop multiples of m; keep small negative representation canonical (0..m-1)
            q = mkpoly(d2)
            if isc(q): return K(cv(q) % mv)
            if q.lo is not None and q.hi is not None and 0 <= q.lo and q.hi < mv: return q
            # original may be in range already
            q0 = mkpoly(d)
            if q0.lo is not None and q0.hi is not None and 0 <= q0.lo and q0.hi < mv: return q0
            return mk('mod', (q, m), 'int', 0, mv - 1)
    else:
        # drop monomials divisible by m
        nd = {}
        for mono, c in d.items():
            if any(at is m for at, e in mono): continue
            nd[mono] = c
        d = nd
    q = mkpoly(d)
    if isc(q) and cv(q) == 0: return ZERO
    return mk('mod', (q, m), 'int', 0, None)
def mod(a, b): return lift(_mod, (a, b))

def _fdiv(a, b):
    a = _num(a); b = _num(b)
    if isc(a) and isc(b):
        if cv(b) == 0: raise Unsup('division by zero')
        return K(cv(a) // cv(b))
    if isc(b) and isinstance(cv(b), int) and cv(b) > 0:
        bv = cv(b)
        if bv == 1 and a.sort == 'int': return a
        if _pow2(bv) and a.op == 'bxor':
            r = ZERO
            for x in a.a: r = _bxor(r, _fdiv(x, b))
            return r
        if _pow2(bv) and a.op == 'tbl': return _tblpart(a, lambda v: v // bv, ('fdiv', bv))
        if a.op == 'fdiv' and isc(a.a[1]) and cv(a.a[1]) > 0: return _fdiv(a.a[0], K(cv(a.a[1]) * bv))
        if a.sort == 'int':
            d = pdict(a)
            q = {}; r = {}
            for m, c in d.items():
                if c % bv == 0: q[m] = c // bv
                else: r[m] = c
            if q:
                return _add(mkpoly(q), _fdiv(mkpoly(r), b))
            rp = mkpoly(r)
            if rp.lo is not None and rp.hi is not None and rp.lo // bv == rp.hi // bv: return K(rp.lo // bv)
            return mk('fdiv', (a, b), 'int', None if a.lo is None else a.lo // bv, None if a.hi is None else a.hi // bv)
    return mk('fdiv', (a, b), 'int' if a.sort == 'int' and b.sort == 'int' else 'num')
def fdiv(a, b): return lift(_fdiv, (a, b))
def _tdiv(a, b):
    if isc(a) and isc(b): 
        if cv(b) == 0: raise Unsup('division by zero')
        return K(cv(a) / cv(b))
    return mk('tdiv', (a, b), 'float')
def tdiv(a, b): return lift(_tdiv, (a, b))

def _pow2(n): return n > 0 and n & (n - 1) == 0
def _shl(a, b):
    if isc(b): return _mul(a, K(1 << cv(b)))
    if isc(a) and cv(a) == 1: return _pow(K(2), b)
    return mk('shl', (a, b), 'int')
def shl(a, b): return lift(_shl, (a, b))
def _shr(a, b):
    if isc(b): return _fdiv(a, K(1 << cv(b)))
    return mk('shr', (a, b), 'int')
def shr(a, b): return lift(_shr, (a, b))
def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op: out.extend(x.a)
        else: out.append(x)
    return out
def _band(a, b):
    a = _num(a); b = _num(b)
    if isc(a) and isc(b): return K(cv(a) & cv(b))
    if isc(a): a, b = b, a
    if isc(b) and a.sort in ('int', 'any', 'num'):
        v = cv(b)
        if v == 0: return ZERO
        if v > 0:
            if _pow2(v + 1): return _mod(a, K(v + 1))
            # contiguous mask shifted: (x & 0xff00)
            s = 0
            while not (v >> s) & 1: s += 1
            w = v >> s
            if _pow2(w + 1): return _mul(_mod(_fdiv(a, K(1 << s)), K(w + 1)), K(1 << s))
    xs = sorted(set(_flat('band', [a, b])), key=lambda t: t.id)
    if len(xs) == 1: return xs[0]
    return mk('band', tuple(xs), 'int', 0 if any(x.lo is not None and x.lo >= 0 for x in xs) else None)
def band(a, b): return lift(_band, (a, b))

def bitmask(t):
    """a superset of the bits a non-negative term can have, or None"""
    if t.lo is None or t.lo < 0: return None
    if t.op == 'poly':
        tot = 0
        for m, c in t.a[0]:
            if c < 0: return None
            lo, hi = _mono_range(m) if m else (1, 1)
            if lo is None or hi is None or lo < 0: return None
            s = (c & -c).bit_length() - 1
            mm = ((1 << (hi * (c >> s)).bit_length()) - 1) << s
            if tot & mm: return ((1 << t.hi.bit_length()) - 1) if t.hi is not None else None
            tot |= mm
        return tot
    if t.hi is None: return None
    if isc(t): return cv(t)
    return (1 << t.hi.bit_length()) - 1

def _bor(a, b):
    a = _num(a); b = _num(b)
    if isc(a) and isc(b): return K(cv(a) | cv(b))
    for x, y in ((a, b), (b, a)):
        if isc(x) and cv(x) == 0: return y
    ma, mb = bitmask(a), bitmask(b)
    if ma is not None and mb is not None and ma & mb == 0: return _add(a, b)
    xs = sorted(set(_flat('bor', [a, b])), key=lambda t: t.id)
    if len(xs) == 1: return xs[0]
    hi = None
    if ma is not None and mb is not None: hi = (1 << (ma | mb).bit_length()) - 1
    return mk('bor', tuple(xs), 'int', 0 if hi is not None else None, hi)
def bor(a, b): return lift(_bor, (a, b))
def _bxor(a, b):
    a = _num(a); b = _num(b)
    if isc(a) and isc(b): return K(cv(a) ^ cv(b))
    c = 0; cnt = {}
    for x in _flat('bxor', [a, b]):
        if isc(x): c ^= cv(x)
        elif x in cnt: del cnt[x]
        else: cnt[x] = 1
    xs = sorted(cnt, key=lambda t: t.id)
    if c or not xs: xs = xs + [K(c)]
    if len(xs) == 1: return xs[0]
    ms = [bitmask(x) for x in xs]
    hi = None
    if None not in ms:
        m = 0
        for q in ms: m |= q
        hi = (1 << m.bit_length()) - 1
    return mk('bxor', tuple(xs), 'int', 0 if hi is not None else None, hi)
def bxor(a, b): return lift(_bxor, (a, b))

def _inv(a, m):
    """modular inverse, an uninterpreted ring element; sign pulled out, argument reduced"""
    q = _mod(a, m)
    if q.op == 'mod': p = q.a[0]
    else: p = q
    d = pdict(p)
    if d:
        lead = sorted(d.items(), key=lambda mc: _mkey(mc[0]))[-1]
        mv = cv(m) if isc(m) else None
        c = lead[1]
        negv = c < 0 or (mv is not None and c > mv // 2)
        if negv:
            return _mod(_sub(ZERO, mk('inv', (_mod(_sub(ZERO, p), m), m), 'int', 0)), m)
    return mk('inv', (q, m), 'int', 0, None)
def inv(a, m): return lift(_inv, (a, m))

def _trunc(a):
    if isc(a): return K(int(cv(a)))
    if a.sort in ('int',): return a
    return mk('trunc', (a,), 'int')

def seal(x, most=3):
    """a value with many alternatives as one opaque term: what is computed from it is not spread over them"""
    if x.op != 'ite': return x
    ls = leaves(x)
    if len(ls) <= most or any(l.sort != ls[0].sort or l.sort == 'none' or l.op == 'ref' for l in ls): return x
    lo = None if any(l.lo is None for l in ls) else min(l.lo for l in ls)
    hi = None if any(l.hi is None for l in ls) else max(l.hi for l in ls)
    return mk('seal', (x,), ls[0].sort, lo, hi)

# ---------------------------------------------------------------- comparison
def _allint(d):
    return all(a.sort in ('int', 'bool') for m in d for a, e in m) and all(isinstance(c, int) for c in d.values())

def _lt(a, b):
    a = _num(a); b = _num(b)
    if isc(a) and isc(b):
        try: return K(cv(a) < cv(b))
        except TypeError: raise Unsup('ordering of constants')
    if a.sort in ('bytes', 'str', 'seq', 'none', 'obj') or b.sort in ('bytes', 'str', 'seq', 'none', 'obj'):
        return B(mk('ltx', (a, b), 'bool'))
    return lt0(_padd(a, b, -1))
def lt(a, b): return lift(_lt, (a, b))
def le(a, b): return not_(lt(b, a))

def lt0(d):
    """p < 0"""
    d = {m: c for m, c in d.items() if c != 0}
    if not d or set(d) == {()}: return K(d.get((), 0) < 0)
    items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    if _allint(d):
        lo, hi = _prange(items)
        if hi is not None and hi < 0: return TRUE
        if lo is not None and lo >= 0: return FALSE
        c0 = d.get((), 0)
        lin = {m: c for m, c in d.items() if m != ()}
        g = 0
        for c in lin.values(): g = gcd(g, abs(c))
        lead = [c for m, c in items if m != ()][-1]
        # lin + c0 < 0  <=>  lin <= -c0-1  <=> lin/g <= floor((-c0-1)/g)
        k = (-c0 - 1) // g
        lin = {m: c // g for m, c in lin.items()}
        if lead > 0:   # atom: lin <= k, i.e. lin - k - 1 < 0
            return B(_lt0atom(lin, k))
        # -lin' <= k <=> lin' >= -k <=> not (lin' <= -k-1)
        lin = {m: -c for m, c in lin.items()}
        return not_(B(_lt0atom(lin, -k - 1)))
    return B(mk('ltr', (mkpoly(d, 'num'),), 'bool'))
def _lt0atom(lin, k):
    return mk('le', (mkpoly(lin), K(k)), 'bool')   # lin <= k, integers

def _disjoint_sorts(a, b):
    base = {'int', 'bytes', 'str', 'none', 'seq', 'obj', 'dict', 'fn'}
    return a.sort in base and b.sort in base and a.sort != b.sort

def _eq(a, b):
    a = _num(a); b = _num(b)
    if a is b: return TRUE
    if isc(a) and isc(b): return K(cv(a) == cv(b))
    if _disjoint_sorts(a, b): return FALSE
    if a.op == 'tup' and b.op == 'tup':
        if len(a.a) != len(b.a): return FALSE
        return all_([eq(x, y) for x, y in zip(a.a, b.a)])
    if isc(b) and b.sort == 'none' or isc(a) and a.sort == 'none':
        x = a if isc(b) and b.sort == 'none' else b
        if x.sort in ('int', 'bytes', 'str', 'seq', 'obj', 'dict', 'fn', 'float', 'bool', 'num'): return FALSE
        if x.ext == 'nn' or x.op in ('ref', 'objval', 'dictv', 'listv'): return FALSE
        return B(mk('isnone', (x,), 'bool'))
    if a.sort in ('int', 'float', 'num') or b.sort in ('int', 'float', 'num'):
        return eq0(_padd(a, b, -1))
    if a.sort == 'bytes' or b.sort == 'bytes' or a.sort == 'str' or b.sort == 'str':
        return _eqb(a, b)
    return B(mk('eq', tuple(sorted((a, b), key=lambda t: t.id)), 'bool'))
def eq(a, b): return lift(_eq, (a, b))

def eq0(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d: return TRUE
    if set(d) == {()}: return FALSE
    items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    if _allint(d):
        lo, hi = _prange(items)
        if hi is not None and hi < 0 or lo is not None and lo > 0: return FALSE
        c0 = d.get((), 0)
        lin = {m: c for m, c in d.items() if m != ()}
        g = 0
        for c in lin.values(): g = gcd(g, abs(c))
        if c0 % g: return FALSE
        if len(lin) == 2 and c0 == 0:
            (m1, c1), (m2, c2) = lin.items()
            if c1 + c2 == 0 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
                x, y = m1[0][0], m2[0][0]
                if x.op == 'mod' and y.op == 'mod' and x.a[1] is y.a[1] and isc(x.a[1]):
                    z = _mod(_sub(x.a[0], y.a[0]), x.a[1])
                    if isc(z): return K(cv(z) == 0)
        lead = [c for m, c in items if m != ()][-1]
        s = 1 if lead > 0 else -1
        lin = {m: s * c // g for m, c in lin.items()}
        return B(mk('eqi', (mkpoly(lin), K(-s * c0 // g)), 'bool'))
    lead = items[-1][1]
    if lead < 0: d = {m: -c for m, c in d.items()}
    return B(mk('eqr', (mkpoly(d, 'num'),), 'bool'))

B64 = frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=')
def isb64(y):
    """a piece of what base64 writes"""
    return y.op == 'b64enc' or y.op == 'slice' and y.a[0].op == 'b64enc'
def _eqb(a, b):
    for x, y in ((a, b), (b, a)):
        if isc(x) and x.sort == 'bytes' and isb64(y) and any(c not in B64 for c in cv(x)): return FALSE
        if isc(x) and len(cv(x)) == 0 and y.sort in ('bytes', 'str'):
            return eq(length(y), ZERO)
        if isc(x) and x.sort == 'bytes' and len(cv(x)) == 1 and y.sort == 'bytes':
            return and_(eq(length(y), ONE), eq(byte(y, ZERO), K(cv(x)[0])))
        if isc(x) and x.sort == 'bytes' and len(cv(x)) <= 16 and y.op == 'slice' and y.sort == 'bytes':
            n = len(cv(x))
            w = sub(y.a[2], y.a[1]) if y.a[2] is not None else None
            if w is not None and isc(w):
                if cv(w) < n: return FALSE
                if cv(w) == n: return and_(eq(length(y), K(n)), all_([eq(byte(y, K(i)), K(c)) for i, c in enumerate(cv(x))]))
    if a.sort == b.sort:
        la, lb = length(a), length(b)
        if isc(la) and isc(lb) and cv(la) != cv(lb): return FALSE
        # strip common prefix / suffix parts of known length
        pa = list(a.a) if a.op == 'cat' else [a]
        pb = list(b.a) if b.op == 'cat' else [b]
        ch = False
        while pa and pb and pa[0] is pb[0]: pa.pop(0); pb.pop(0); ch = True
        while pa and pb and pa[-1] is pb[-1]: pa.pop(); pb.pop(); ch = True
        if ch: return eq(cat(pa, a.sort), cat(pb, a.sort))
        if a.op == 'b58e' and b.op == 'b58e': return eq(a.a[0], b.a[0])
        if pa and pb and isc(pa[0]) and isc(pb[0]) and (len(pa) > 1 or len(pb) > 1):
            x, y = cv(pa[0]), cv(pb[0]); n = min(len(x), len(y))
            if n:
                if x[:n] != y[:n]: return FALSE
                return eq(cat([K(x[n:])] + pa[1:], a.sort), cat([K(y[n:])] + pb[1:], a.sort))
        if pa and pb and isc(pa[-1]) and isc(pb[-1]) and (len(pa) > 1 or len(pb) > 1):
            x, y = cv(pa[-1]), cv(pb[-1]); n = min(len(x), len(y))
            if n:
                if x[-n:] != y[-n:]: return FALSE
                return eq(cat(pa[:-1] + [K(x[:-n])], a.sort), cat(pb[:-1] + [K(y[:-n])], a.sort))
    return B(mk('eq', tuple(sorted((a, b), key=lambda t: t.id)), 'bool'))

# ---------------------------------------------------------------- byte and text strings
def cat(parts, sort=None):
    out = []
    for p in parts:
        if p.op == 'ite':
            return lift(lambda *ps: cat(list(ps), sort), parts)
    for p in parts:
        if sort is None: sort = p.sort
        if p.op == 'cat': ps = p.a
        else: ps = (p,)
        for q in ps:
            if isc(q) and len(cv(q)) == 0: continue
            if out and isc(q) and isc(out[-1]):
                out[-1] = K(cv(out[-1]) + cv(q))
            else: 
                if out:
                    j = _join(out[-1], q)
                    if j is not None: out[-1] = j; continue
                out.append(q)
    if not out: return K(b'') if sort == 'bytes' or sort is None else K('')
    if len(out) == 1: return out[0]
    return mk('cat', tuple(out), sort)

def _join(a, b):
    """x[l:m] + x[m:h] -> x[l:h]"""
    if a.op == 'slice' and b.op == 'slice' and a.a[0] is b.a[0] and a.a[2] is b.a[1]:
        return mkslice_raw(a.a[0], a.a[1], b.a[2])
    return None

FIXLEN = {'sha256': 32, 'sha1': 20, 'sha512': 64, 'ripemd160': 20, 'md5': 16}
def length(t):
    return lift(_length, (t,))
def _length(t):
    if isc(t): return K(len(cv(t)))
    if t.op == 'cat':
        r = ZERO
        for p in t.a: r = add(r, length(p))
        return r
    if t.op == 'enc': return K(t.a[1])
    if t.op == 'tup': return K(len(t.a))
    if t.op in ('digest', 'hmac') and t.a[0] in FIXLEN: return K(FIXLEN[t.a[0]])
    if type(t.ext) is int and t.sort in ('bytes', 'str', 'seq'): return K(t.ext)
    if t.op == 'hex': return mul(K(2), length(t.a[0]))
    if t.op == 'tobytes': return length(t.a[0])
    if t.op == 'encode' and t.a[1] in ('latin-1', 'ascii'): return length(t.a[0])
    if t.op == 'decode' and (t.a[1] in ('latin-1', 'ascii') or t.a[0].op == 'hex'): return length(t.a[0])
    if t.op == 'rep':
        return ite(lt(ZERO, t.a[1]), mul(length(t.a[0]), t.a[1]), ZERO)
    if t.op == 'rev': return length(t.a[0])
    if t.op == 'm_ljust' and isc(t.a[1]):
        L = length(t.a[0])
        return ite(lt(L, t.a[1]), t.a[1], L)
    if t.op == 'urandom' and nonneg(t.a[0]): return t.a[0]
    if t.op == 'slice':
        b, lo, hi = t.a
        L = length(b)
        if hi is None:
            return ite(lt(lo, L), sub(L, lo), ZERO)
        if nonneg(sub(hi, lo)):
            return ite(le(hi, L), sub(hi, lo), ite(lt(lo, L), sub(L, lo), ZERO))
        hh = ite(le(hi, L), hi, L)
        return ite(lt(lo, hh), sub(hh, lo), ZERO)
    if t.op == 'seqcat':
        r = ZERO
        for p in t.a: r = add(r, length(p))
        return r
    if t.op in ('hexnum', 'dec10'): return mk('len', (t,), 'int', 1)
    if t.op == 'm_split' and len(t.a) > 1 or t.op == 'm_rsplit': return mk('len', (t,), 'int', 1)
    return mk('len', (t,), 'int', 0)

def nonneg(t):
    return all(x.lo is not None and x.lo >= 0 for x in leaves(t))

def mkslice_raw(b, lo, hi):
    if isc(lo) and cv(lo) == 0 and (hi is None or isc(hi) and type(b.ext) is int and cv(hi) >= b.ext): return b
    return mk('slice', (b, lo, hi), b.sort)

def slice_(b, lo, hi):
    """b[lo:hi]; lo/hi terms or None"""
    if lo is None: lo = ZERO
    args = [b, lo] + ([hi] if hi is not None else [])
    return lift(lambda b, lo, hi=None: _slice(b, lo, hi), args)

def _slice(b, lo, hi, lok=False, hok=False):
    """lok/hok: the bound is known to be non-negative on this branch"""
    if b.sort not in ('bytes', 'str', 'seq', 'any'): raise Unsup('slice of %s' % b.sort)
    L = length(b)
    if hi is not None and isc(hi) and hi.sort == 'none': hi = None
    if isc(lo) and lo.sort == 'none': lo = ZERO
    if L.op == 'ite': return lift(lambda L: _slice3(b, lo, hi, lok, hok, L), (L,))
    return _slice3(b, lo, hi, lok, hok, L)
def _slice3(b, lo, hi, lok, hok, L):
    if not lok and not nonneg(lo):
        n = _add(L, lo)
        return ite(lt(lo, ZERO), ite(lt(n, ZERO), _slice3(b, ZERO, hi, True, hok, L), _slice3(b, n, hi, True, hok, L)) if not (isc(n) and cv(n) < 0) else _slice3(b, ZERO, hi, True, hok, L),
                   _slice3(b, lo, hi, True, hok, L) if not (isc(lo) and cv(lo) < 0) else b)
    if hi is not None and not hok and not nonneg(hi):
        n = _add(L, hi)
        return ite(lt(hi, ZERO), ite(lt(n, ZERO), _empty(b), _slice3(b, lo, n, lok, True, L)) if not (isc(n) and cv(n) < 0) else _empty(b),
                   _slice3(b, lo, hi, lok, True, L) if not (isc(hi) and cv(hi) < 0) else b)
    if hi is not None:
        z = sub(hi, lo)
        if all(x.hi is not None and x.hi <= 0 for x in leaves(z)): return _empty(b)
    if isc(b) and isc(lo) and (hi is None or isc(hi)):
        return K(cv(b)[cv(lo):(cv(hi) if hi is not None else None)])
    if b.op == 'tup' and isc(lo) and (hi is None or isc(hi)):
        return tup(b.a[cv(lo):(cv(hi) if hi is not None else None)])
    if isc(L):
        if isc(lo) and cv(lo) >= cv(L): return _empty(b)
        if hi is not None and isc(hi) and cv(hi) >= cv(L): hi = None
    if hi is not None and hi is L: hi = None
    if hi is None and isc(lo) and cv(lo) == 0: return b
    if lo is L: return _empty(b)
    if hi is not None and lo is hi: return _empty(b)
    if b.op in ('cat', 'seqcat'):
        r = _slice_cat(b, lo, hi)
        if r is not None: return r
    if b.op == 'slice':
        b0, l0, h0 = b.a
        nl = add(l0, lo)
        if h0 is None:
            return lift(lambda nl, nh=None: _slice(b0, nl, nh, True, True), (nl,) + ((add(l0, hi),) if hi is not None else ()))
        if hi is None: return lift(lambda nl: _slice(b0, nl, h0, True, True), (nl,))
        nh = add(l0, hi)
        return lift(lambda nl, nh: _slice(b0, nl, nh, True, True), (nl, ite(le(nh, h0), nh, h0)))
    if isc(L) and hi is None: hi = L
    return mkslice_raw(b, lo, hi)

def _empty(b):
    return K(b'') if b.sort in ('bytes', 'any') else (K('') if b.sort == 'str' else tup([]))

def _slice_cat(b, lo, hi):
    mkc = (lambda ps: cat(ps, b.sort)) if b.op == 'cat' else seqcat
    parts = list(b.a)
    # drop leading parts entirely before lo
    while parts:
        l = length(parts[0])
        r = sub(lo, l)
        if l.op == 'ite' or r.op == 'ite': break
        if r.lo is not None and r.lo >= 0:
            parts.pop(0); lo = r
            if hi is not None: hi = sub(hi, l)
        else: break
    if not parts: return _empty(b)
    if isc(lo) and cv(lo) == 0:
        if hi is None: return mkc(parts)
        out = []
        while parts:
            l = length(parts[0])
            r = sub(hi, l)
            if l.op == 'ite' or r.op == 'ite': break
            if r.lo is not None and r.lo >= 0:
                out.append(parts.pop(0)); hi = r
            else: break
        if isc(hi) and cv(hi) == 0: return mkc(out) if out else _empty(b)
        if not parts: return mkc(out)
        l = length(parts[0])
        if isc(l) and isc(hi) and cv(hi) <= cv(l):
            return mkc(out + [slice_(parts[0], ZERO, hi)])
        if out:
            rest = mkc(parts)
            if rest.op == b.op: return mkc(out + [mkslice_raw(rest, ZERO, hi)])
            return mkc(out + [slice_(rest, ZERO, hi)])
        return None
    l = length(parts[0])
    if isc(l) and isc(lo):
        first = slice_(parts[0], lo, None)
        rest = mkc([first] + parts[1:])
        if hi is None: return rest
        return slice_(rest, ZERO, sub(hi, lo))
    if len(parts) < len(b.a):
        c = mkc(parts)
        return slice_(c, lo, hi)
    return None

def byte(b, i): return lift(_byte, (b, i))
def _byte(b, i):
    """b[i] for bytes, the index known to be in range"""
    if isc(b) and isc(i):
        try: return K(cv(b)[cv(i)])
        except IndexError: raise Unsup('byte index')
    if isc(i) and cv(i) < 0:
        n = add(length(b), i)
        return byte(b, n)
    if b.op == 'slice' and nonneg(i): return byte(b.a[0], add(b.a[1], i))
    if b.op == 'cat':
        parts = list(b.a); j = i
        while parts:
            l = length(parts[0])
            r = sub(j, l)
            if l.op == 'ite' or r.op == 'ite': break
            if r.lo is not None and r.lo >= 0: parts.pop(0); j = r; continue
            if r.hi is not None and r.hi < 0: return byte(parts[0], j)
            break
        if len(parts) < len(b.a) and parts: return byte(cat(parts), j)
        # a tail of constant length counted from the end
    if b.op == 'enc':
        x, n, e, s = b.a
        if isc(i):
            k = cv(i) if e == '<' else n - 1 - cv(i)
            if not s or True: return _mod(_fdiv(x, K(256 ** k)), K(256))
    if b.op == 'rev':
        L = length(b.a[0])
        if isc(L): return byte(b.a[0], sub(sub(L, ONE), i))
    if b.op == 'tobytes': return seqget(b.a[0], i)
    if b.op == 'rep' and isc(b.a[0]) and len(cv(b.a[0])) == 1: return K(cv(b.a[0])[0])
    if b.op == 'hex': pass
    return mk('byte', (b, i), 'int', 0, 255)

def enc(x, n, e, s):
    """fixed-width integer encoding, x known to be in range"""
    return lift(lambda x: _enc(x, n, e, s), (x,))
def _enc(x, n, e, s):
    x = _num(x)
    if isc(x):
        try: return K(cv(x).to_bytes(n, 'little' if e == '<' else 'big', signed=bool(s)))
        except OverflowError: raise Unsup('enc range')
    if n == 1: e = '>'
    if x.op == 'dec' and x.a[1] == e and x.a[2] == s:
        l = length(x.a[0])
        if isc(l) and cv(l) == n: return x.a[0]
        if x.a[0].op == 'slice' and x.a[0].a[2] is not None:
            z = sub(x.a[0].a[2], x.a[0].a[1])
            if isc(z) and cv(z) == n: return x.a[0]
    if x.op == 'byte' and n == 1: return mkslice_raw(x.a[0], x.a[1], add(x.a[1], ONE)) if x.a[0].op in ('sym', 'slice', 'digest', 'aesenc', 'aesdec') and x.a[0].op != 'slice' else mk('enc', (x, n, e, s), 'bytes')
    return mk('enc', (x, n, e, s), 'bytes')

def dec(b, n, e, s):
    """integer read from n bytes (length known to be n)"""
    return lift(lambda b: _dec(b, n, e, s), (b,))
def _dec(b, n, e, s):
    if isc(b): return K(int.from_bytes(cv(b), 'little' if e == '<' else 'big', signed=bool(s)))
    if n == 1: e = '>'
    if b.op == 'enc' and b.a[1] == n and b.a[2] == e and b.a[3] == s: return b.a[0]
    if n == 1 and not s: return byte(b, ZERO)
    if b.op == 'cat' and not s and all(p.op == 'enc' and p.a[1] == 1 for p in b.a):
        # the octets of one number
        es = [p.a[0] for p in b.a]
        if e == '<': es.reverse()
        if es[-1].op == 'mod':
            x = es[-1].a[0]; k = len(es)
            if x.sort == 'int' and all(_mod(_fdiv(x, K(256 ** (k - 1 - i))), K(256)) is y for i, y in enumerate(es)): return _mod(x, K(256 ** k))
    if n is None: lo, hi = 0, None
    elif s: lo, hi = -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1
    else: lo, hi = 0, (1 << (8 * n)) - 1
    if b.op == 'rev' and not s: return dec(b.a[0], n, '<' if e == '>' else '>', s)
    return mk('dec', (b, e, s), 'int', lo, hi)

def rev(b): return lift(_rev, (b,))
def _rev(b):
    if isc(b): return K(cv(b)[::-1])
    if b.op == 'rev': return b.a[0]
    if b.op == 'tup': return tup(list(b.a)[::-1])
    if b.op == 'cat': return cat([rev(p) for p in reversed(b.a)], b.sort)
    if b.op == 'enc': return _enc(b.a[0], b.a[1], '<' if b.a[2] == '>' and b.a[1] > 1 else '>', b.a[3])
    return mk('rev', (b,), b.sort)

def hexl(b): return lift(_hexl, (b,))
def _hexl(b):
    if isc(b):
        import binascii
        return K(binascii.hexlify(cv(b)))
    if b.op == 'unhex': pass
    return mk('hex', (b,), 'bytes')

def encode(s, codec): return lift(lambda s: _encode(s, codec), (s,))
def _encode(s, codec):
    if isc(s) and s.sort == 'str': return K(cv(s).encode(codec))
    if s.op == 'decode' and s.a[1] == codec and codec == 'latin-1': return s.a[0]
    if s.op == 'decode' and s.a[0].op == 'hex': return s.a[0]
    if s.op == 'cat': return cat([_encode(p, codec) for p in s.a], 'bytes')
    return mk('encode', (s, codec), 'bytes')
def decode(b, codec): return lift(lambda b: _decode(b, codec), (b,))
def _decode(b, codec):
    if isc(b): return K(cv(b).decode(codec))
    if b.op == 'encode' and b.a[1] == codec: return b.a[0]
    return mk('decode', (b, codec), 'str')

# ---------------------------------------------------------------- sequences
def tup(xs):
    return mk('tup', tuple(xs), 'seq')
def seqcat(parts):
    for p in parts:
        if p.op == 'ite': return lift(lambda *ps: seqcat(list(ps)), parts)
    out = []
    for p in parts:
        ps = p.a if p.op == 'seqcat' else (p,)
        for q in ps:
            if q.op == 'tup' and not q.a: continue
            if out and q.op == 'tup' and out[-1].op == 'tup': out[-1] = tup(out[-1].a + q.a)
            else: out.append(q)
    if not out: return tup([])
    if len(out) == 1: return out[0]
    return mk('seqcat', tuple(out), 'seq')

def seqget(s, i): return lift(_seqget, (s, i))
def _seqget(s, i):
    if s.op == 'tup' and isc(i):
        try: return s.a[cv(i)]
        except IndexError:
            raise Unsup('sequence index')
    if s.op == 'tup' and i.sort in ('int', 'bool', 'any', 'num'):
        vs = _table(s)
        if vs is not None: return _lookup(s, vs, i)
    if s.op == 'seqcat' and isc(i) and cv(i) >= 0:
        parts = list(s.a); j = i
        while parts:
            l = length(parts[0])
            r = sub(j, l)
            if l.op == 'ite' or r.op == 'ite': break
            if r.lo is not None and r.lo >= 0: parts.pop(0); j = r; continue
            if r.hi is not None and r.hi < 0: return seqget(parts[0], j)
            break
    if s.op == 'slice' and nonneg(i): return seqget(s.a[0], add(s.a[1], i))
    srt, lo, hi, ext = elem_sort(s)
    if isinstance(ext, Shape): return expand(mk('elem', (s, i), srt, lo, hi, ext.cls), ext)
    return mk('elem', (s, i), srt, lo, hi, ext)

_tables = {}
def _table(s):
    """(values, whether xor goes through) of a constant table"""
    if s in _tables: return _tables[s]
    r = None
    if len(s.a) > 8 and all(isc(x) and x.sort == 'int' for x in s.a):
        v = [cv(x) for x in s.a]
        lin = len(v) == 256 and v[0] == 0 and all(v[i] == v[i & -i] ^ v[i & (i - 1)] for i in range(1, 256))
        r = (v, lin, v == list(range(len(v))))
    _tables[s] = r
    return r
def _lookup(s, vs, i):
    v, lin, ident = vs
    if ident and i.lo is not None and i.lo >= 0 and i.hi is not None and i.hi < len(v): return i
    if i.op == 'tbl':
        w = _table(i.a[0])[0]
        if min(w) >= 0 and max(w) < len(v): return _seqget(tup([s.a[k] for k in w]), i.a[1])
    if lin and i.op == 'bxor' and all(x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi < 256 for x in i.a):
        r = ZERO
        for x in i.a: r = _bxor(r, _seqget(s, x))
        return r
    return mk('tbl', (s, i), 'int', min(v), max(v))
_part = {}
def _tblpart(x, f, key):
    """f applied to every entry of the table"""
    k = (x.a[0], key); s = _part.get(k)
    if s is None: s = _part[k] = tup([K(f(cv(y))) for y in x.a[0].a])
    if all(y is s.a[0] for y in s.a): return s.a[0]
    return _seqget(s, x.a[1])

class Shape(object):
    """the known structure of the elements of a sequence: an instance, a dict with constant keys, a list or a leaf"""
    _all = {}
    def __new__(cls, kind, c, parts):
        k = (kind, c, parts)
        r = cls._all.get(k)
        if r is None:
            r = object.__new__(cls); r.kind = kind; r.cls = c; r.parts = parts; cls._all[k] = r
        return r
    @property
    def qual(self):
        f = lambda y: y.qual if hasattr(y, 'qual') else repr(y)
        return '%s(%s:%s)' % (self.kind, getattr(self.cls, 'qual', self.cls), ','.join(
            '%s=%s' % (n if isinstance(n, str) else repr(n.a[-1]), f(x) if not isinstance(x, tuple) else ','.join(f(z) for z in x)) for n, x in self.parts))
def shape(x):
    """shape of a reified term, or None for a leaf"""
    if x.op == 'objval':
        return Shape('obj', x.a[0], tuple((n, shape(v)) for n, v in x.a[1]))
    if x.op == 'dictv' and x.a[0].op == 'map' and x.a[0].a[0] is None and all(k.op == 'c' for k, _ in x.a[0].a[1]):
        return Shape('dict', None, tuple((k, shape(v)) for k, v in x.a[0].a[1]))
    if x.op == 'listv':
        return Shape('list', None, (('', shape(x.a[0])),))
    if x.op == 'ite':
        ss = [shape(l) for l in leaves(x)]
        r = ss[0]
        for y in ss[1:]: r = shape_join(r, y)
        return r
    if x.op == 'tup' and 0 < len(x.a) <= 40:
        return Shape('tup', None, tuple((str(i), shape(v)) for i, v in enumerate(x.a)))
    if x.sort == 'seq':
        if x.op == 'tup':
            es = None
            for e in x.a:
                y = shape(e)
                es = y if es is None else shape_join(es, y)
            return Shape('leaf', None, (('', ('seq', None, None, None) + ((es,) if es is not None else ())),))
        es = _elem_sort.get(x)
        return Shape('leaf', None, (('', ('seq', None, None, None) + ((leafshape(es),) if es else ())),))
    return Shape('leaf', None, (('', (x.sort, x.lo, x.hi, x.ext if not isinstance(x.ext, tuple) else None)),))
def leafshape(es):
    if isinstance(es[3], Shape): return es[3]
    return Shape('leaf', None, (('', tuple(es)),))
def shape_join(a, b):
    if a is b: return a
    if a is None or b is None: return None
    if a.kind == 'leaf' and a.parts[0][1][0] == 'undef': return b
    if b.kind == 'leaf' and b.parts[0][1][0] == 'undef': return a
    if a.kind != b.kind or a.kind == 'tup' and len(a.parts) != len(b.parts):
        a = tup_as_seq(a); b = tup_as_seq(b)
        if a is None or b is None or a.kind != 'leaf' or b.kind != 'leaf': return None
    if a.kind == 'leaf':
        x, y = a.parts[0][1], b.parts[0][1]
        if x[0] != y[0]:
            return Shape('leaf', None, (('', ('any', None, None, None)),))
        lo = None if None in (x[1], y[1]) else min(x[1], y[1])
        hi = None if None in (x[2], y[2]) else max(x[2], y[2])
        e = ()
        if x[0] == 'seq':
            if len(x) > 4 and len(y) > 4:
                z = shape_join(x[4], y[4])
                if z is not None: e = (z,)
            elif len(x) > 4: e = (x[4],) if len(y) == 4 else ()
            elif len(y) > 4: e = (y[4],)
        return Shape('leaf', None, (('', (x[0], lo, hi, x[3] if x[3] is y[3] or x[3] == y[3] else None) + e),))
    if a.cls is not b.cls or len(a.parts) != len(b.parts): return None
    out = []
    for (n, x), (m, y) in zip(a.parts, b.parts):
        if n is not m and n != m: return None
        z = shape_join(x, y)
        if z is None: return None
        out.append((n, z))
    return Shape(a.kind, a.cls, tuple(out))
def tup_as_seq(a):
    if a.kind != 'tup': return a
    es = a.parts[0][1]
    for _, y in a.parts[1:]:
        if es is not None: es = shape_join(es, y)
    return Shape('leaf', None, (('', ('seq', None, None, None) + ((es,) if es is not None else ())),))
def widen_shape(old, new):
    """joined shape whose bounds only ever disappear"""
    j = shape_join(old, new)
    if j is None or j is old: return j
    if j.kind != old.kind: return j
    def go(o, x):
        if o is None or x is None or o.kind != x.kind or len(o.parts) != len(x.parts): return x
        if o.kind == 'leaf':
            a, b = o.parts[0][1], x.parts[0][1]
            return Shape('leaf', None, (('', (b[0], b[1] if a[1] == b[1] else None, b[2] if a[2] == b[2] else None, b[3]) + tuple(b[4:])),))
        return Shape(x.kind, x.cls, tuple((n, go(p, q)) for (n, p), (_, q) in zip(o.parts, x.parts)))
    return go(old, j)
def expand(e, sh):
    """term of the structure sh whose leaves are projections of e"""
    if sh is None: return e
    if sh.kind == 'obj':
        return mk('objval', (sh.cls, tuple((n, expand(mk('fld', (e, n), 'any'), x)) for n, x in sh.parts)), 'obj', None, None, sh.cls)
    if sh.kind == 'dict':
        return mk('dictv', (mk('map', (None, tuple((k, expand(mk('fld', (e, k), 'any'), x)) for k, x in sh.parts)), 'map'),), 'dictv')
    if sh.kind == 'tup':
        return tup([expand(mk('fld', (e, n), 'any'), x) for n, x in sh.parts])
    if sh.kind == 'list':
        return mk('listv', (expand(mk('fld', (e, ''), 'any'), sh.parts[0][1]),), 'listv')
    srt, lo, hi, ext = sh.parts[0][1][:4]
    if isinstance(srt, str):
        r = mk(e.op, e.a + ((srt, lo, hi, str(ext)) if e.op == 'fld' else ()), srt, lo, hi, ext)
        if srt == 'seq' and len(sh.parts[0][1]) > 4:
            es = sh.parts[0][1][4]
            set_elem_sort(r, *shape_elem(es))
        if srt == 'bool': return B(r)
        return r
def shape_elem(es):
    if es.kind == 'leaf': return es.parts[0][1][:4] if len(es.parts[0][1]) == 4 else ('seq', None, None, es)
    if es.kind == 'tup': return ('seq', None, None, es)
    return ('obj' if es.kind == 'obj' else 'dictv' if es.kind == 'dict' else 'listv', None, None, es)

_ms = {}
def map_shape(m):
    """(shape of the keys, shape of the values) of a map whose every store is known, None when it is not; (None, None) when it is empty"""
    if m in _ms: return _ms[m]
    def join(a, b):
        if a is None or b is None: return None
        out = []
        for x, y in zip(a, b):
            if x is None or y is None: out.append(x if y is None else y)
            else:
                z = shape_join(x, y)
                if z is None: return None
                out.append(z)
        return tuple(out)
    def walk(m, bot, busy):
        if m in bot:
            if m in busy: return (None, None)
            busy = busy | {m}
            r = (None, None)
            for x in bot[m]: r = join(r, walk(x, bot, busy))
            return r
        if m.op == 'ite':
            r = (None, None)
            for l in leaves(m): r = join(r, walk(l, bot, busy))
            return r
        if m.op == 'map':
            r = (None, None) if m.a[0] is None else walk(m.a[0], bot, busy)
            for k, v in m.a[1]:
                a, b = shape(k), shape(v)
                if a is None or b is None: return None
                r = join(r, (a, b))
            return r
        if m.op == 'mapdel': return walk(m.a[0], bot, busy)
        if m.op == 'lout':
            h, e = m.a
            b2 = dict(bot)
            for i, p in enumerate(h.a[0]):
                if p.sort == 'map': b2[p] = (h.a[1][i], h.a[2][i])
            return walk(e, b2, busy)
        return None
    try: r = walk(m, {}, frozenset())
    except (AttributeError, KeyError): r = None
    _ms[m] = r
    return r

_elem_sort = {}
def elem_sort(s):
    if s.sort == 'bytes': return ('int', 0, 255, None)
    r = _elem_sort.get(s)
    if r: return r
    return ('any', None, None, None)

def set_elem_sort(s, sort, lo=None, hi=None, ext=None): _elem_sort[s] = (sort, lo, hi, ext)

def app(name, args, sort='any', lo=None, hi=None, ext=None):
    """uninterpreted application, lifted over decision nodes"""
    def f(*xs): return mk(name, tuple(xs), sort, lo, hi, ext)
    return lift(f, list(args)) if args else mk(name, (), sort, lo, hi, ext)

# ---------------------------------------------------------------- printing
def show(t, d=6):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '(' + ', '.join(show(x, d) for x in t) + ')'
        return getattr(t, 'name', None) or repr(t)
    if t.op == 'c':
        v = t.a[1]
        if isinstance(v, int) and not isinstance(v, bool) and abs(v) > 1 << 40: return hex(v)
        s = repr(v)
        return s if len(s) < 80 else s[:77] + '...'
    if t.op == 'sym': return str(t.a[0])
    if d == 0: return '..'
    if t.op == 'ite':
        return '(%s ? %s : %s)' % (show(t.a[0], d - 1), show(t.a[1], d - 1), show(t.a[2], d - 1))
    if t.op == 'poly':
        out = []
        for m, c in t.a[0]:
            f = [show(a, d - 1) + ('^%d' % e if e > 1 else '') for a, e in m]
            if not f: out.append(show(K(c)))
            elif c == 1: out.append('*'.join(f))
            else: out.append('%s*%s' % (show(K(c)), '*'.join(f)))
        return '(' + ' + '.join(out) + ')'
    if t.op == 'cat': return '(' + ' || '.join(show(x, d - 1) for x in t.a) + ')'
    if t.op == 'le': return '%s <= %s' % (show(t.a[0], d - 1), show(t.a[1]))
    if t.op == 'eqi': return '%s == %s' % (show(t.a[0], d - 1), show(t.a[1]))
    if t.op == 'slice': return '%s[%s:%s]' % (show(t.a[0], d - 1), show(t.a[1], d - 1), '' if t.a[2] is None else show(t.a[2], d - 1))
    if t.op == 'byte': return '%s[%s]' % (show(t.a[0], d - 1), show(t.a[1], d - 1))
    if t.op == 'tup': 
        xs = [show(x, d - 1) for x in t.a[:12]]
        return '[' + ', '.join(xs) + (', ...%d' % len(t.a) if len(t.a) > 12 else '') + ']'
    return '%s(%s)' % (t.op, ', '.join(show(x, d - 1) for x in t.a))
