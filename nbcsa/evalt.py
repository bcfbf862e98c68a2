"""Valuations of value graphs.

Two value graphs that are not syntactically equal after normalisation are compared by random interpretation
(Gulwani and Necula): every symbol gets a value, every operator its meaning, operators nobody knows a
consistent random function.  A valuation on which the two graphs differ shows that they denote different
functions; none found among all the valuations tried leaves them congruent as far as the analysis can tell.
Valuations are aimed at the decision nodes (walk): an atom met on the way is made true or false, at its boundary.
"""
import random, hashlib, binascii, sys
from fractions import Fraction
from . import terms as t
from .terms import T, isc, cv, K
from .loops import fsyms
from .interp import Obj, Cls, Inst, Func, Mod, Builtin, UNDEF

class Fail(Exception):
    """this valuation gives no meaning to the graph"""

class Tok(object):
    """an opaque individual"""
    __slots__ = ('key', 'cls')
    def __init__(self, key, cls=None): self.key = key; self.cls = cls
    def __eq__(self, o): return isinstance(o, Tok) and o.key == self.key
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.key)
    def __repr__(self): return '<%s>' % (self.key,)
class V(object):
    """a structured value: kind, payload"""
    __slots__ = ('k', 'p')
    def __init__(self, k, p): self.k = k; self.p = p
    def __eq__(self, o): return isinstance(o, V) and o.k == self.k and o.p == self.p
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((self.k, repr(self.p)))
    def __repr__(self): return '%s%r' % (self.k, self.p)
class Map(object):
    __slots__ = ('d',)
    def __init__(self, d): self.d = d
    def __eq__(self, o): return isinstance(o, Map) and o.d == self.d
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(repr(sorted(map(repr, self.d.items()))))
    def __repr__(self): return 'map%r' % (self.d,)

def hkey(x):
    """stable text of a value"""
    if isinstance(x, tuple): return '(' + ','.join(hkey(y) for y in x) + ')'
    if isinstance(x, Map): return '{' + ','.join(sorted(hkey(k) + ':' + hkey(v) for k, v in x.d.items())) + '}'
    if isinstance(x, V): return x.k + hkey(x.p)
    if isinstance(x, bool): return 'B%d' % x
    if isinstance(x, Obj): return objkey(x)
    return type(x).__name__ + repr(x)
def objkey(o):
    if isinstance(o, Cls): return 'cls:' + o.qual
    if isinstance(o, Func): return 'fn:' + o.qual
    if isinstance(o, Mod): return 'mod:' + o.name
    if isinstance(o, Inst): return 'inst:%s#%d' % (o.cls.qual, id(o))
    return '%s:%s' % (type(o).__name__, o.name)

PURE_B = {}
def H(seed, *parts):
    return hashlib.sha256(('%s|' % seed + '|'.join(hkey(p) for p in parts)).encode('utf-8', 'surrogatepass')).digest()

_accs = {}
def accumulators(h):
    """the loop variables that only ever grow at the end and are read nowhere else in the loop"""
    r = _accs.get(h)
    if r is not None: return r
    bvs, inits, nexts, guards = h.a
    r = set()
    for b, x in zip(bvs, nexts):
        if b.sort not in ('seq', 'bytes', 'str'): continue
        ok = not any(b in fsyms(g) for g in guards) and not any(b in fsyms(y) for c, y in zip(bvs, nexts) if c is not b)
        ls = t.leaves(x) if ok else []
        for l in ls:
            if l is b: continue
            if not (l.op in ('seqcat', 'cat') and l.a[0] is b and not any(b in fsyms(y) for y in l.a[1:])): ok = False
        if ok and x.op == 'ite' and any(b in fsyms(at) for at in t.atoms_of(x)): ok = False
        if ok: r.add(b)
    _accs[h] = r
    return r

class _Loc(object):
    __slots__ = ('vals', 'memo')
    def __init__(self, vals): self.vals = vals; self.memo = {}

CODE_ALPHA = '0123456789abcdefABCDEFghijkLMNxyzZ:./- '
MAXITER = 3000

ALIKE = {}
class Val(object):
    """one valuation"""
    def __init__(self, seed, pools, gens=None, mode=0):
        self.seed = seed; self.rng = random.Random(seed)
        self.pools = pools; self.gens = gens or {}
        self.asg = {}; self.table = {}
        self.memo = {}
        self.mode = mode; self.index = 0; self.big = False
        self.steps = 0
    # ------------------------------------------------------------ symbols
    def symval(self, x):
        if x in self.asg: return self.asg[x]
        g = self.gens.get(x) or self.gens.get(x.a[0])
        v = self.earlier(x) if g is None and str(x.a[0]).startswith('earlier ') else g(self, x) if g else self.gen(x.sort, x.lo, x.hi, x.ext, ('sym', x.a[0]), x)
        self.asg[x] = v
        return v
    def earlier(self, x):
        """a value of the call before: often the same as now, or nearly"""
        from .history import EARLIER
        y = EARLIER[x]
        if self.alike is None: self.alike = self.rng.choice((0, .5, .5, .8, .95))
        r = self.rng
        if y in ALIKE and r.random() < self.alike:          # an argument in the same place of another call
            w = self.symval(ALIKE[y])
            if not isinstance(w, int) or (x.lo is None or w >= x.lo) and (x.hi is None or w <= x.hi): return w
        if r.random() < self.alike: return self.symval(y)
        c = r.random()
        if c < .3:
            v = self.symval(y)
            if type(v) is int:
                for _ in range(4):
                    w = r.choice((v + 1, v - 1, -v, v ^ 1, v ^ 1 << 31, v ^ 1 << r.randrange(256), v + (1 << 32), v & 0xffff, v + 256))
                    if (x.lo is None or w >= x.lo) and (x.hi is None or w <= x.hi): return w
            if type(v) is bytes and v and x.ext is None and not self.gens.get(y.a[0]):
                i = r.randrange(len(v))
                return r.choice((v[:i] + bytes((v[i] ^ 1 << r.randrange(8),)) + v[i + 1:], v[:i], v + v[i:]))
        g = self.gens.get(y) or self.gens.get(y.a[0])
        return g(self, y) if g else self.gen(y.sort, y.lo, y.hi, y.ext, ('sym', x.a[0]), x)
    alike = None
    def genint(self, lo, hi, r):
        p = self.pools['int']
        for _ in range(6):
            c = r.random()
            if c < .35 and p: v = r.choice(p) + r.choice((0, 0, 0, -1, 1))
            elif c < .5 and lo is not None: v = lo + r.choice((0, 0, 1, 2, 3))
            elif c < .65 and hi is not None: v = hi - r.choice((0, 0, 1, 2))
            elif c < .8: v = r.randint(0, 12)
            else: v = r.getrandbits(r.choice((4, 7, 8, 9, 16, 32, 33, 64, 256))) * (1 if lo is not None and lo >= 0 or r.random() < .7 else -1)
            if (lo is None or v >= lo) and (hi is None or v <= hi): return v
        if lo is not None and hi is not None: return r.randint(lo, hi)
        if lo is not None: return lo + r.randint(0, 300)
        if hi is not None: return hi - r.randint(0, 300)
        return v
    def genlen(self, r):
        p = self.pools['len']
        c = r.random()
        if c < .5 and p: return max(0, r.choice(p) + r.choice((0, 0, 0, -1, 1)))
        if c < .8: return r.randint(0, 12)
        return r.randint(0, 120)
    def genbytes(self, n, r):
        c = r.random()
        if c < .1: return b'\0' * n
        if c < .15: return b'\xff' * n
        if c < .3: return bytes(r.choice((0, 1, 2, 3, 0xfd, 0xff, 0x80)) for _ in range(n))
        b = bytearray(r.getrandbits(8) for _ in range(n))
        if c < .5:
            for _ in range(3):
                if n: b[r.randrange(n)] = r.choice((0, 0, 1, 0xfc, 0xfd, 0xfe, 0xff))
        pb = self.pools['bytes']
        if c > .85 and pb:
            q = r.choice(pb)
            if len(q) <= n:
                o = r.choice((0, n - len(q)))
                b[o:o + len(q)] = q
        return bytes(b)
    def genstr(self, n, r):
        c = r.random()
        ps = self.pools['str']
        if c < .3 and ps: return r.choice(ps)
        if c < .5: return ''.join(r.choice('0123456789') for _ in range(n))
        if c < .6: return ''.join(r.choice('0123456789abcdef') for _ in range(n))
        return ''.join(r.choice(CODE_ALPHA) for _ in range(n))
    def gen(self, sort, lo, hi, ext, key, term=None):
        r = random.Random(H(self.seed, *key))
        if sort == 'int': return self.genint(lo, hi, r)
        if sort == 'bool': return r.random() < .5
        if sort in ('float', 'num'):
            if sort == 'num' and r.random() < .5: return self.genint(lo, hi, r)
            p = self.pools['int']
            v = float(r.choice(p)) if p and r.random() < .5 and abs(p[-1]) < 1 << 60 and all(abs(q) < 1 << 200 for q in p) else r.random() * r.choice((1, 60, 7200, 2e9))
            v += r.choice((0, 0, 1, -1, .5))
            if lo is not None: v = max(v, float(lo))
            return v
        if sort == 'bytes': return self.genbytes(ext if isinstance(ext, int) else self.genlen(r), r)
        if sort == 'str': return self.genstr(ext if isinstance(ext, int) else self.genlen(r), r)
        if sort == 'none': return None
        if sort == 'seq':
            n = ext if isinstance(ext, int) else r.choice((0, 1, 2, 3, 4, 5, 7))
            es = t.elem_sort(term) if term is not None else ('any', None, None, None)
            return tuple(self.gen(es[0], es[1], es[2], es[3], key + (i,)) for i in range(n))
        if sort == 'map': return Tok(('map',) + key)
        if sort == 'obj' or sort == 'cls' or sort == 'fn': return Tok(key, ext if isinstance(ext, Cls) else None)
        if sort == 'any':
            if ext == 'nn': c = r.choice('isbt')
            else: c = r.choice('nisbtt')
            if c == 'n': return None
            if c == 'i': return self.genint(None, None, r)
            if c == 's': return self.genstr(self.genlen(r), r)
            if c == 'b': return self.genbytes(self.genlen(r), r)
            return Tok(key)
        raise Fail('sort %s' % sort)

    # ------------------------------------------------------------ evaluation
    def ev(self, x, loc=None):
        if x.op == 'c': return x.a[1]
        m = self.memo if (loc is None or not fsyms(x)) else loc.memo
        try: return m[x]
        except KeyError: pass
        self.steps += 1
        if self.steps > 400000 and not self.big: raise Fail('too long')
        try:
            if x.op == 'ite':
                y = x
                while y.op == 'ite':
                    y = y.a[1] if self.ev(y.a[0], loc) else y.a[2]
                r = self.ev(y, loc)
            elif x.op == 'sym':
                if loc is not None and x in loc.vals: r = loc.vals[x]
                else: r = self.symval(x)
            else:
                f = OPS.get(x.op)
                r = f(self, x, loc) if f is not None else self.unknown(x, loc)
        except (IndexError, ValueError, TypeError, OverflowError, ZeroDivisionError, AttributeError, KeyError, MemoryError, UnicodeError) as e:
            raise Fail('%s in %s: %s' % (type(e).__name__, x.op, e))
        m[x] = r
        return r
    def evs(self, xs, loc):
        return tuple(self.ev(y, loc) if isinstance(y, T) else (objkey(y) if isinstance(y, Obj) else (self.evs(y, loc) if isinstance(y, tuple) else y)) for y in xs)
    def unknown(self, x, loc):
        key = (x.op,) + self.evs(x.a, loc)
        k = hkey(key)
        if k in self.table: return self.table[k]
        return self.gen(x.sort, x.lo, x.hi, x.ext, key, x)
    def run_loop(self, h, loc):
        m = self.memo if (loc is None or not fsyms(h)) else loc.memo
        r = m.get(h)
        if r is not None: return r
        bvs, inits, nexts, guards = h.a
        base = dict(loc.vals) if loc is not None else {}
        vals = dict(base)
        for b, i in zip(bvs, inits): vals[b] = self.ev(i, loc)
        accs = accumulators(h)
        pile = dict((b, [vals[b]]) for b in accs)
        for n in range(MAXITER if not self.big else 60000):
            l2 = _Loc(vals)
            for j, g in enumerate(guards):
                if self.ev(g, l2):
                    for b in accs:
                        p = pile[b]
                        if isinstance(p[0], tuple): vals[b] = tuple(x for q in p for x in q)
                        else: vals[b] = p[0][:0].join(p)
                    l2 = _Loc(vals)
                    m[h] = (j, l2)
                    return m[h]
            nv = dict(base)
            for b, x in zip(bvs, nexts):
                if b in accs:
                    while x.op == 'ite': x = x.a[1] if self.ev(x.a[0], l2) else x.a[2]
                    if x is not b:
                        for y in x.a[1:]: pile[b].append(self.ev(y, l2))
                    nv[b] = None
                else: nv[b] = self.ev(x, l2)
            vals = nv
        raise Fail('loop does not end')

    # ------------------------------------------------------------ aiming
    def set(self, x, v):
        self.asg[x] = v; self.memo = {}
    def setapp(self, x, v):
        self.table[hkey((x.op,) + self.evs(x.a, None))] = v; self.memo = {}
    def force(self, x, v, d=0):
        """try to give term x the value v"""
        if d > 30 or fsyms(x): return False
        try: return self._force(x, v, d)
        except Fail: return False
        except (TypeError, ValueError, IndexError, OverflowError, ZeroDivisionError, AttributeError, KeyError): return False
    def _force(self, x, v, d):
        op = x.op
        if op == 'c': return x.a[1] == v
        if op == 'ite':
            y = x
            while y.op == 'ite': y = y.a[1] if self.ev(y.a[0]) else y.a[2]
            return self.force(y, v, d + 1)
        if op == 'sym':
            if isinstance(v, bool) != (x.sort == 'bool'): 
                if x.sort not in ('any',): return False
            if isinstance(v, int) and x.sort == 'int':
                if x.lo is not None and v < x.lo or x.hi is not None and v > x.hi: return False
            elif x.sort == 'bytes':
                if not isinstance(v, bytes) or isinstance(x.ext, int) and len(v) != x.ext: return False
            elif x.sort == 'str':
                if not isinstance(v, str) or isinstance(x.ext, int) and len(v) != x.ext: return False
            elif x.sort == 'seq' and not isinstance(v, tuple): return False
            elif x.sort in ('float',) : v = float(v)
            elif x.sort == 'any' and x.ext == 'nn' and v is None: return False
            self.set(x, v); return True
        if op == 'poly':
            items = list(x.a[0]); self.rng.shuffle(items)
            cur = self.ev(x)
            for m, c in items:
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]; a0 = self.ev(a)
                    dv = v - cur
                    if isinstance(c, int) and isinstance(dv, int):
                        if dv % c: continue
                        n = a0 + dv // c
                    else: n = a0 + dv / c
                    if a.lo is not None and n < a.lo or a.hi is not None and n > a.hi: continue
                    if self.force(a, n, d + 1): return True
            return False
        if op == 'byte':
            b, i = x.a
            if not 0 <= v <= 255: return False
            iv = self.ev(i); bv = self.ev(b)
            if iv >= len(bv): bv = bv + bytes(iv + 1 - len(bv))
            return self.force(b, bv[:iv] + bytes([v]) + bv[iv + 1:], d + 1)
        if op == 'dec':
            b, e, s = x.a
            n = len(self.ev(b))
            return self.force(b, v.to_bytes(n, 'little' if e == '<' else 'big', signed=bool(s)), d + 1)
        if op == 'enc':
            y, n, e, s = x.a
            if len(v) != n: return False
            return self.force(y, int.from_bytes(v, 'little' if e == '<' else 'big', signed=bool(s)), d + 1)
        if op == 'len':
            b = x.a[0]; bv = self.ev(b)
            if v < 0 or v > 70000: return False
            if isinstance(bv, bytes): 
                nv = bv[:v] + bytes(self.rng.getrandbits(8) for _ in range(v - len(bv)))
            elif isinstance(bv, str): nv = bv[:v] + ''.join(self.rng.choice(CODE_ALPHA) for _ in range(v - len(bv)))
            elif isinstance(bv, tuple):
                es = t.elem_sort(b)
                if v > 400: return False
                nv = bv[:v] + tuple(self.gen(es[0], es[1], es[2], es[3], ('ext', b.id, i, self.rng.random())) for i in range(v - len(bv)))
            else: return False
            return self.force(b, nv, d + 1)
        if op == 'mod':
            a, m = x.a
            av, mv = self.ev(a), self.ev(m)
            return self.force(a, av - av % mv + v, d + 1)
        if op == 'fdiv':
            a, m = x.a
            av, mv = self.ev(a), self.ev(m)
            return self.force(a, v * mv + av % mv, d + 1)
        if op == 'slice':
            b, lo, hi = x.a
            bv, l = self.ev(b), self.ev(lo)
            h = self.ev(hi) if hi is not None else None
            if l > len(bv):
                if l > 70000: return False
                bv = bv + bv[:0] + (bytes(l - len(bv)) if isinstance(bv, bytes) else '0' * (l - len(bv)))
            if h is not None and h - l != len(v): 
                if h - l < len(v): return False
                return self.force(b, bv[:l] + v, d + 1)       # ends early
            nv = bv[:l] + v + (bv[h:] if h is not None else bv[:0])
            return self.force(b, nv, d + 1)
        if op == 'cat':
            parts = x.a
            lens = [len(self.ev(p)) for p in parts]
            if sum(lens) != len(v):
                # let one part of free length take the difference
                for i, p in enumerate(parts):
                    if not isc(t.length(p)):
                        lens[i] += len(v) - sum(lens)
                        if lens[i] < 0: return False
                        break
                else: return False
            o = 0; ok = True
            for p, n in zip(parts, lens):
                if isc(p):
                    if cv(p) != v[o:o + n]: ok = False
                else: ok = self.force(p, v[o:o + n], d + 1) and ok
                o += n
            return ok
        if op == 'rev': return self.force(x.a[0], v[::-1], d + 1)
        if op == 'hex': return self.force(x.a[0], binascii.unhexlify(v), d + 1)
        if op == 'unhex': return self.force(x.a[0], binascii.hexlify(v) if not isinstance(self.ev(x.a[0]), str) else binascii.hexlify(v).decode(), d + 1)
        if op == 'encode': return self.force(x.a[0], v.decode(x.a[1]), d + 1)
        if op == 'decode': return self.force(x.a[0], v.encode(x.a[1]), d + 1)
        if op == 'dec10': return self.force(x.a[0], int(v), d + 1)
        if op == 'parseint': return self.force(x.a[0], str(v) if not isinstance(self.ev(x.a[0]), bytes) else str(v).encode(), d + 1)
        if op == 'trunc': return self.force(x.a[0], float(v) + self.rng.choice((0, .5)), d + 1)
        if op == 'elem':
            s, i = x.a
            sv, iv = self.ev(s), self.ev(i)
            if not isinstance(sv, tuple) or iv >= len(sv): return False
            return self.force(s, sv[:iv] + (v,) + sv[iv + 1:], d + 1)
        if op == 'tup':
            if len(v) != len(x.a): return False
            return all([self.force(y, w, d + 1) for y, w in zip(x.a, v)])
        if op == 'tobytes': return self.force(x.a[0], tuple(v), d + 1)
        if op == 'bseq': return self.force(x.a[0], bytes(v), d + 1)
        if op == 'mapget':
            m, k = x.a
            mv, kv = self.ev(m), self.ev(k)
            if isinstance(mv, Map) and m.op == 'sym':
                dd = dict(mv.d); dd[kv] = v
                self.set(m, Map(dd)); return True
            if isinstance(mv, Map): return False
            self.setapp(x, v); return True
        if op in ('digest', 'hmac'):
            if len(v) != len(self.ev(x)): return False
            self.setapp(x, v); return True
        if op == 'bxor' or op == 'band' or op == 'bor':
            if op == 'bxor':
                r = v
                for y in x.a[1:]: r ^= self.ev(y)
                return self.force(x.a[0], r, d + 1)
            return False
        if op in ('lout', 'lexit', 'tbl', 'inv', 'powmod', 'sortby', 'seqcat', 'join', 'fmtv', 'tdiv', 'pow'): return False
        if op in OPS: 
            if op not in FREE: return False
        self.setapp(x, v)
        return True
    def aim(self, a, want):
        """try to make atom a true or false"""
        if fsyms(a): return
        r = self.rng
        try:
            if a.op == 'le':
                k = cv(a.a[1])
                off = r.choice((0, 0, 0, 0, 1, 2, r.randint(0, 40), r.getrandbits(16)))
                for o in (off, 0):
                    if self.force(a.a[0], k - o if want else k + 1 + o): return
            elif a.op == 'eqi':
                k = cv(a.a[1])
                if want: self.force(a.a[0], k)
                elif self.ev(a):
                    for _ in range(3):
                        if self.force(a.a[0], k + r.choice((1, -1, 2, -2, 5))): return
            elif a.op == 'eq':
                x, y = a.a
                if want:
                    if self.ev(a): return
                    if r.random() < .5: x, y = y, x
                    if not self.force(x, self.ev(y)): self.force(y, self.ev(x))
                elif self.ev(a):
                    self.perturb(x) or self.perturb(y)
            elif a.op in ('eqr', 'ltr'):
                if a.op == 'eqr': self.force(a.a[0], 0 if want else 1)
                else: self.force(a.a[0], -r.choice((1, .5, 100)) if want else r.choice((0, 0, 1, 100)))
            elif a.op == 'isnone':
                if want: self.force(a.a[0], None)
                elif self.ev(a.a[0]) is None: self.force(a.a[0], r.choice((0, 1, b'abc', 'abc', Tok(('nn', r.random())))))
            elif a.op == 'maphas':
                m, k = a.a
                mv = self.ev(m)
                if isinstance(mv, Map) and m.op == 'sym':
                    kv = self.ev(k)
                    if want and kv not in mv.d:
                        if mv.d and r.random() < .7:
                            if self.force(k, r.choice(list(mv.d))): return
                    elif not want and kv in mv.d:
                        d = dict(mv.d); del d[kv]; self.set(m, Map(d))
                elif not isinstance(mv, Map): self.setapp(a, want)
            elif a.op == 'sym': self.set(a, want)
            elif a.op == 'm_isdigit' and want: self.force(a.a[0], r.choice(('7', '12', '0')))
            elif a.op == 'inseq':
                s, y = a.a
                sv = self.ev(s)
                if want and sv and not self.ev(a): self.force(y, r.choice(sv))
            elif a.op == 'substr':
                s, y = a.a
                sv, yv = self.ev(s), self.ev(y)
                if want and not self.ev(a):
                    if not isc(s) and isc(y): 
                        p = r.randint(0, len(sv)); self.force(s, sv[:p] + yv + sv[p:])
                    elif isc(s) and sv:
                        p = r.randrange(len(sv)); self.force(y, sv[p:p + max(1, len(yv))])
                elif not want and self.ev(a):
                    if not isc(s) and len(yv): self.force(s, sv.replace(yv, sv[:0]))
                    elif isc(s): self.force(y, '\x7f' if isinstance(sv, str) else b'\x7f')
            elif a.op in ('nothex', 'notnum', 'badb32', 'badjson', 'undecodable'):
                if not want and self.ev(a):
                    x = a.a[0]; xv = self.ev(x)
                    if a.op == 'nothex': nv = hashlib.md5(hkey(xv).encode('utf-8', 'surrogatepass')).hexdigest()[:2 * max(1, min(16, (len(xv) + 1) // 2))]
                    elif a.op == 'notnum': nv = str(r.choice((0, 1, 2, 5, 10, 255, 256, 70000)))
                    else: return
                    self.force(x, nv if isinstance(xv, str) else nv.encode())
                elif want and not self.ev(a):
                    xv = self.ev(a.a[0])
                    if xv: self.force(a.a[0], xv[:-1] + ('!' if isinstance(xv, str) else b'!'))
                    else: self.force(a.a[0], '!' if isinstance(xv, str) else b'!')
            elif a.op in FREE or a.op not in OPS: self.setapp(a, want)
            elif a.op == 'lexit' or a.op == 'lout': pass
        except (Fail, TypeError, ValueError, IndexError, OverflowError, ZeroDivisionError, AttributeError, KeyError): pass
    def perturb(self, x):
        v = self.ev(x)
        if isinstance(v, (bytes, str)) and v:
            i = self.rng.randrange(len(v))
            c = bytes([v[i] ^ 1]) if isinstance(v, bytes) else chr(ord(v[i]) ^ 1)
            return self.force(x, v[:i] + c + v[i + 1:])
        if isinstance(v, int): return self.force(x, v + 1)
        return False
    def walk(self, x, goal=None):
        """go down a decision diagram in a random direction, making the atoms comply; goal: leaf to reach"""
        y = x
        n = 0
        while y.op == 'ite' and n < 60:
            n += 1
            a, hi, lo = y.a
            want = self.rng.random() < .5
            if goal is not None:
                if not self._reach(hi, goal): want = False
                elif not self._reach(lo, goal): want = True
            if self.rng.random() < .85: self.aim(a, want)
            try: got = bool(self.ev(a))
            except Fail: 
                got = want
            y = hi if got else lo
        return y
    _rm = {}
    def _reach(self, x, goal):
        if x is goal: return True
        if x.op != 'ite': return False
        k = (x, goal)
        r = Val._rm.get(k)
        if r is None:
            r = Val._rm[k] = self._reach(x.a[1], goal) or self._reach(x.a[2], goal)
        return r

# ---------------------------------------------------------------- operators
OPS = {}
FREE = set()       # operators with a meaning whose result may still be fixed by a valuation
def op(*names):
    def d(f):
        for n in names: OPS[n] = f
        return f
    return d
def simple(name, f): OPS[name] = lambda s, x, loc: f(*[s.ev(y, loc) if isinstance(y, T) else y for y in x.a])

def _fin(v):
    if isinstance(v, int) and v.bit_length() > 60000: raise Fail('huge')
    return v
@op('poly')
def _(s, x, loc):
    r = 0
    for m, c in x.a[0]:
        v = c
        for a, e in m:
            w = s.ev(a, loc)
            if not isinstance(w, (int, float)): raise Fail('number expected')
            for _ in range(e): v = v * w
        r = r + v
    return _fin(r)
simple('mod', lambda a, b: a % b)
simple('fdiv', lambda a, b: a // b)
simple('tdiv', lambda a, b: a / b)
def _pow(a, b):
    if isinstance(b, int) and abs(b) > 20000: raise Fail('power')
    return _fin(a ** b)
simple('pow', _pow)
def _shl(a, b):
    if b > 20000: raise Fail('shift')
    return a << b
simple('shl', _shl)
simple('shr', lambda a, b: a >> b)
@op('band')
def _(s, x, loc):
    r = -1
    for y in x.a: r &= s.ev(y, loc)
    return r
@op('bor')
def _(s, x, loc):
    r = 0
    for y in x.a: r |= s.ev(y, loc)
    return r
@op('bxor')
def _(s, x, loc):
    r = 0
    for y in x.a: r ^= s.ev(y, loc)
    return r
def _inv(a, m):
    try: return pow(a, -1, m)
    except ValueError: raise Fail('not invertible')
simple('inv', _inv)
simple('trunc', lambda a: int(a))
simple('add', lambda a, b: a + b)
simple('le', lambda a, b: a <= b)
simple('ltr', lambda a: a < 0)
simple('ltx', lambda a, b: a < b)
simple('eqi', lambda a, b: a == b)
def _eqv(a, b):
    if isinstance(a, Map) != isinstance(b, Map): return False
    return type(a) == type(b) and a == b or isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b
simple('eq', _eqv)
simple('eqr', lambda a: a == 0)
simple('is', lambda a, b: a is b or _eqv(a, b))
simple('isnone', lambda a: a is None)
@op('truth')
def _(s, x, loc):
    v = s.ev(x.a[0], loc)
    if isinstance(v, Tok): return True
    return bool(v)
BT = {'int': int, 'bytes': bytes, 'str': str, 'float': float, 'NoneType': type(None), 'tuple': tuple}
@op('isinst')
def _(s, x, loc):
    v = s.ev(x.a[0], loc); c = x.a[1]
    if isinstance(v, Tok):
        if v.cls is not None: return c in v.cls.mro
        if c.builtin and c.name in BT: return False
        return s.unknown(x, loc)
    if isinstance(v, V):
        return False
    k = BT.get(c.name) if c.builtin else None
    if k is None:
        if c.builtin and c.name == 'bool': return isinstance(v, bool)
        return False
    return isinstance(v, k)
def _len(v):
    if isinstance(v, (bytes, str, tuple)): return len(v)
    if isinstance(v, Map): return len(v.d)
    raise Fail('len')
@op('len')
def _(s, x, loc):
    v = s.ev(x.a[0], loc)
    if isinstance(v, Tok): return s.unknown(x, loc)
    return _len(v)
def _rep(a, n):
    if n * len(a) > 200000: raise Fail('huge')
    return a * n
simple('rep', _rep)
def _slice(b, lo, hi):
    if lo < 0 or hi is not None and hi < 0: raise Fail('negative bound')
    if not isinstance(b, (bytes, str, tuple)): raise Fail('slice')
    return b[lo:hi]
simple('slice', _slice)
simple('stepslice', lambda b, lo, hi, st: b[lo:hi:st])
def _byte(b, i):
    if i < 0 or not isinstance(b, bytes): raise Fail('index')
    if i >= len(b): return (len(b) * 31 + i * 7) % 256           # guarded by a length test wherever it matters
    return b[i]
simple('byte', _byte)
simple('enc', lambda x, n, e, s: x.to_bytes(n, 'little' if e == '<' else 'big', signed=bool(s)))
simple('encn', lambda x, n, e: x.to_bytes(n, 'little' if e == '<' else 'big'))
def _encmin(v):
    h = '%x' % v
    if len(h) % 2: h = '0' + h
    return binascii.unhexlify(h)
simple('encmin', _encmin)
simple('oddhex', lambda v: len('%x' % v) % 2 == 1)
simple('dec', lambda b, e, s: int.from_bytes(b, 'little' if e == '<' else 'big', signed=bool(s)))
simple('rev', lambda b: b[::-1])
simple('hex', lambda b: binascii.hexlify(b))
simple('unhex', lambda b: binascii.unhexlify(b))
@op('nothex')
def _(s, x, loc):
    v = s.ev(x.a[0], loc)
    if not isinstance(v, (str, bytes)): raise Fail('nothex')
    try: binascii.unhexlify(v); return False
    except ValueError: return True
@op('hexnum')
def _(s, x, loc):
    v = s.ev(x.a[0], loc); n = x.a[1]
    return ('%0' + str(n) + 'x') % v if isinstance(n, int) and n else ('%' + (n if isinstance(n, str) else '') + 'x') % v
simple('dec10', lambda v: str(v))
simple('encode', lambda v, c: v.encode(c))
simple('decode', lambda v, c: v.decode(c))
def _try(f, *e):
    def g(*a):
        try: f(*a); return False
        except e: return True
    return g
simple('notlatin', _try(lambda v: v.encode('latin-1'), UnicodeError))
simple('notascii', _try(lambda v: v.encode('ascii'), UnicodeError))
simple('undecodable', _try(lambda v, c: v.decode(c), UnicodeError))
def _pint(v, b):
    if not isinstance(v, (str, bytes)): raise Fail('parseint')
    return int(v, b)
simple('parseint', _pint)
simple('notnum', _try(_pint, ValueError))
@op('cat')
def _(s, x, loc):
    ps = [s.ev(y, loc) for y in x.a]
    if isinstance(ps[0], bytes): return b''.join(ps)
    if isinstance(ps[0], str): return ''.join(ps)
    raise Fail('cat')
@op('tup')
def _(s, x, loc): return tuple(s.ev(y, loc) for y in x.a)
@op('seqcat')
def _(s, x, loc):
    r = ()
    for y in x.a:
        v = s.ev(y, loc)
        if isinstance(v, bytes): v = tuple(v)
        if not isinstance(v, tuple): raise Fail('seqcat')
        r = r + v
    return r
@op('elem')
def _(s, x, loc):
    v = s.ev(x.a[0], loc); i = s.ev(x.a[1], loc)
    if isinstance(v, (tuple, bytes)):
        if i < 0: raise Fail('index')
        return v[i]
    return s.unknown(x, loc)
simple('tbl', lambda v, i: v[i] if i >= 0 else 1 // 0)
simple('bseq', lambda b: tuple(b))
simple('tobytes', lambda v: bytes(v))
simple('badbytes', lambda v: any(not isinstance(i, int) or not 0 <= i <= 255 for i in v))
simple('seqset', lambda v, i, w: v[:i] + (w,) + v[i + 1:])
def _seqremove(v, w):
    i = v.index(w); return v[:i] + v[i + 1:]
simple('seqremove', _seqremove)
@op('sortby')
def _(s, x, loc):
    v, ks = s.ev(x.a[0], loc), s.ev(x.a[1], loc)
    try: idx = sorted(range(len(v)), key=lambda i: ks[i], reverse=bool(x.a[2]))
    except TypeError: raise Fail('sort')
    return tuple(v[i] for i in idx)
def _uniq(v):
    out = []
    for e in v:
        if e not in out: out.append(e)
    return tuple(out)
simple('uniq', _uniq)
@op('inseq')
def _(s, x, loc):
    v, w = s.ev(x.a[0], loc), s.ev(x.a[1], loc)
    if isinstance(v, Tok): return s.unknown(x, loc)
    return w in v
simple('substr', lambda a, b: b in a)
simple('seqcount', lambda v, w: v.count(w))
simple('seqindex', lambda v, w: v.index(w))
for _n in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'capitalize', 'zfill', 'rjust', 'ljust', 'swapcase', 'title', 'find', 'rfind', 'count', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'index'):
    def _m(n):
        def f(v, *a):
            if not isinstance(v, (str, bytes)): raise Fail('method')
            return getattr(v, n)(*a)
        simple('m_' + n, f)
    _m(_n)
for _n in ('split', 'rsplit', 'splitlines'):
    def _m(n):
        def f(v, *a):
            if not isinstance(v, (str, bytes)): raise Fail('method')
            return tuple(getattr(v, n)(*a))
        simple('m_' + n, f)
    _m(_n)
@op('map')
def _(s, x, loc):
    base, items = x.a
    if base is None: d = {}
    else:
        b = s.ev(base, loc)
        if not isinstance(b, Map): raise Fail('map')
        d = dict(b.d)
    for k, v in items: d[s.ev(k, loc)] = s.ev(v, loc)
    return Map(d)
@op('mapdel')
def _(s, x, loc):
    b = s.ev(x.a[0], loc)
    if not isinstance(b, Map): raise Fail('map')
    d = dict(b.d); d.pop(s.ev(x.a[1], loc), None)
    return Map(d)
@op('mapget')
def _(s, x, loc):
    b, k = s.ev(x.a[0], loc), s.ev(x.a[1], loc)
    if isinstance(b, Map):
        if k not in b.d: raise Fail('mapget')
        return b.d[k]
    return s.unknown(x, loc)
@op('maphas')
def _(s, x, loc):
    b, k = s.ev(x.a[0], loc), s.ev(x.a[1], loc)
    if isinstance(b, Map): return k in b.d
    return s.unknown(x, loc)
@op('mapkeys')
def _(s, x, loc):
    b = s.ev(x.a[0], loc)
    if isinstance(b, Map): return tuple(b.d)
    return s.unknown(x, loc)
@op('maplen')
def _(s, x, loc):
    b = s.ev(x.a[0], loc)
    if isinstance(b, Map): return len(b.d)
    return s.unknown(x, loc)
simple('mapof', lambda v: Map(dict(v)))
FREE |= {'digest', 'hmac', 'field', 'elem', 'fld'}
@op('digest')
def _(s, x, loc):
    alg = x.a[0]; v = s.ev(x.a[1], loc)
    k = hkey(('digest', alg, v))
    if k in s.table: return s.table[k]
    if not isinstance(v, bytes): raise Fail('digest')
    return s.digest(alg, v)
def _digest(s, alg, v):
    k = hkey(('digest', alg, v))
    if k in s.table: return s.table[k]
    n = t.FIXLEN.get(alg, 48)
    if s.mode == 1: return bytes(n)
    if s.mode == 2: return hashlib.sha256(v).digest()[:1] * n
    try: return hashlib.new(alg, v).digest()
    except ValueError: return hashlib.sha512(alg.encode() + v).digest()[:n]
Val.digest = _digest
@op('hmac')
def _(s, x, loc):
    alg, key, m = x.a
    kv, mv = s.ev(key, loc), s.ev(m, loc)
    k = hkey(('hmac', alg, kv, mv))
    if k in s.table: return s.table[k]
    import hmac
    if alg in t.FIXLEN and alg != 'ripemd160': return hmac.new(kv, mv, alg).digest()
    return hmac.new(kv, mv, 'sha256').digest()
@op('urandom')
def _(s, x, loc):
    n, c = s.ev(x.a[0], loc), s.ev(x.a[1], loc)
    if n > 100000 or n < 0: raise Fail('urandom')
    r = random.Random(H(s.seed, 'urandom', c))
    k = hkey(('urandom', n, c))
    if k in s.table: return s.table[k]
    return s.genbytes(n, r)
FREE.add('urandom')
@op('randint')
def _(s, x, loc):
    lo, hi, c = s.ev(x.a[0], loc), s.ev(x.a[1], loc), s.ev(x.a[2], loc)
    return random.Random(H(s.seed, 'randint', c)).randint(lo, hi)
@op('json')
def _(s, x, loc): return 'json:' + hkey(s.ev(x.a[0], loc))
simple('log', lambda *a: __import__('math').log(*a))
simple('ceil', lambda a: __import__('math').ceil(a))
simple('floor', lambda a: __import__('math').floor(a))
simple('isint', lambda a: float(a).is_integer())
simple('tofloat', lambda a: float(a))
simple('bitlen', lambda a: a.bit_length())
simple('chr', lambda a: chr(a))
simple('ord', lambda a: ord(a))
simple('toint', lambda a: int(a))
def _powmod(a, e, m):
    if m <= 0 or e < 0: raise Fail('powmod')
    return pow(a, e, m)
simple('powmod', _powmod)
@op('objval')
def _(s, x, loc): return V('obj ' + x.a[0].name, tuple((n, s.ev(v, loc)) for n, v in x.a[1]))
@op('fld')
def _(s, x, loc):
    b = s.ev(x.a[0], loc); n = x.a[1]
    if isinstance(b, V):
        if b.k.startswith('obj '):
            for m, v in b.p:
                if m == n: return v
        elif b.k == 'dict' and isinstance(n, T): return b.p.d[n.a[1]]
        elif b.k == 'list': return b.p
        raise Fail('fld')
    if isinstance(b, tuple): return b[int(n)]
    return s.unknown(x, loc)
@op('listv')
def _(s, x, loc): return V('list', s.ev(x.a[0], loc))
@op('setv')
def _(s, x, loc): return V('set', frozenset(s.ev(x.a[0], loc)))
@op('dictv')
def _(s, x, loc): return V('dict', s.ev(x.a[0], loc))
@op('boundv')
def _(s, x, loc): return V('bound ' + objkey(x.a[0]), s.ev(x.a[1], loc))
@op('ref')
def _(s, x, loc): return Tok(objkey(x.a[0]), x.a[0].cls if isinstance(x.a[0], Inst) else None)
@op('back')
def _(s, x, loc): return V('back', x.a[0])
@op('undef')
def _(s, x, loc): return Tok('undef')
@op('join')
def _(s, x, loc):
    sep, xs = s.ev(x.a[0], loc), s.ev(x.a[1], loc)
    return sep.join(xs)
@op('fmt')
def _(s, x, loc):
    f, a = s.ev(x.a[0], loc), s.ev(x.a[1], loc)
    if isinstance(f, str) and isinstance(a, (int, str, tuple)):
        try: return f % a
        except (TypeError, ValueError): raise Fail('fmt')
    return s.unknown(x, loc)
@op('badfmt')
def _(s, x, loc):
    f, a = s.ev(x.a[0], loc), s.ev(x.a[1], loc)
    if isinstance(f, (str, bytes)) and isinstance(a, (int, str, bytes, tuple, float)):
        try: f % a; return False
        except (TypeError, ValueError): return True
    return s.unknown(x, loc)
def _format(f, a):
    try: return f.format(*a)
    except (IndexError, KeyError, ValueError, AttributeError, TypeError): raise Fail('format')
simple('fformat', _format)
def _badformat(f, a):
    try: f.format(*a); return False
    except (IndexError, KeyError, ValueError, AttributeError, TypeError): return True
simple('badformat', _badformat)
@op('fmtv')
def _(s, x, loc):
    f, a = x.a[0], s.ev(x.a[1], loc)
    if f == 's' and isinstance(a, (str, int)): return str(a)
    if f in ('r', 's') and (a is None or isinstance(a, (int, str, bytes, float))): return repr(a)
    if f[0] != ':' and f[0] not in 'rs' and isinstance(a, (int, str, float)) and not isinstance(a, bool):
        try: return ('%' + f) % (a,)
        except (TypeError, ValueError): raise Fail('fmtv')
    if f[0] == ':' and isinstance(a, (int, str, float)): 
        try: return format(a, f[1:])
        except (TypeError, ValueError): raise Fail('fmtv')
    return 'fmt:%s:%s' % (f, hkey(a))
import base64 as _b64
simple('b32enc', lambda v: _b64.b32encode(v))
simple('b64enc', lambda v: _b64.b64encode(v))
simple('b32dec', lambda v: _b64.b32decode(v))
simple('b64dec', lambda v: _b64.b64decode(v))
simple('badb32', _try(lambda v: _b64.b32decode(v), ValueError))
simple('badb64', _try(lambda v: _b64.b64decode(v), ValueError))
@op('lout')
def _(s, x, loc):
    j, l2 = s.run_loop(x.a[0], loc)
    return s.ev(x.a[1], l2)
@op('lexit')
def _(s, x, loc): return s.run_loop(x.a[0], loc)[0]
@op('varlen')
def _(s, x, loc):
    v = s.ev(x.a[0], loc)
    return {0xfd: 3, 0xfe: 5, 0xff: 9}.get(v[0], 1)
@op('varval')
def _(s, x, loc):
    v = s.ev(x.a[0], loc)
    n = {0xfd: 3, 0xfe: 5, 0xff: 9}.get(v[0], 1)
    if len(v) < n: raise Fail('varval')
    return v[0] if n == 1 else int.from_bytes(v[1:n], 'little')
@op('varbad')
def _(s, x, loc):
    v = s.ev(x.a[0], loc)
    return len(v) < 1 or len(v) < {0xfd: 3, 0xfe: 5, 0xff: 9}.get(v[0], 1)

# ---------------------------------------------------------------- pools
def constants(ts, lim=4000):
    """constants a valuation should meet"""
    ints = {0, 1}; lens = {0, 1}; bs = set(); ss = set()
    seen = set(); st = list(ts)
    n = 0
    while st and n < 60000:
        x = st.pop()
        if x in seen: continue
        seen.add(x); n += 1
        if x.op == 'c':
            v = x.a[1]
            if isinstance(v, bool) or v is None: continue
            if isinstance(v, int): ints.add(v)
            elif isinstance(v, bytes):
                if len(v) <= 64: bs.add(v)
                lens.add(len(v))
            elif isinstance(v, str):
                if len(v) <= 200: ss.add(v)
                lens.add(len(v))
            continue
        if x.op in ('le', 'eqi'):
            k = cv(x.a[1])
            if 0 <= abs(k) < 3000: lens.add(abs(k))
        if x.op == 'slice':
            for y in x.a[1:]:
                if y is not None and isc(y) and isinstance(cv(y), int) and 0 <= cv(y) < 3000: lens.add(cv(y))
        if x.op == 'poly':
            for m, c in x.a[0]:
                if isinstance(c, int): ints.add(c)
                if m == () and isinstance(c, int) and abs(c) < 3000: lens.add(abs(c))
        if x.op in ('enc',): lens.add(x.a[1])
        def kids(a):
            for y in a:
                if isinstance(y, T): st.append(y)
                elif isinstance(y, tuple): kids(y)
        if x.op != 'sym': kids(x.a)
    def cut(s):
        l = sorted(s, key=lambda v: (len(repr(v)), repr(v)))
        return l[:lim]
    return {'int': cut(ints), 'len': sorted(lens)[:300], 'bytes': cut(bs), 'str': cut(ss)}
simple('digits_b', lambda v: '{:b}'.format(v))
simple('digits_o', lambda v: '{:o}'.format(v))
simple('based_b', lambda v: bin(v))
simple('based_o', lambda v: oct(v))
simple('based_x', lambda v: hex(v))
simple('notfromhex', _try(lambda v: bytes.fromhex(v), ValueError))
simple('fromhex', lambda v: bytes.fromhex(v))
for _e in ('replace', 'ignore', 'backslashreplace'): simple('decode_' + _e, lambda b, c, e=_e: b.decode(c, e))

import posixpath as _pp
simple('dirname', _pp.dirname); simple('basename', _pp.basename); simple('pathjoin', _pp.join)
