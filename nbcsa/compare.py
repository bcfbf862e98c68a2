"""Congruence of two value graphs: the code's and the reference definition's."""
import time, random, hashlib, traceback, signal, os
from . import terms as t, evalt
from .terms import T, mk, K, TRUE, FALSE, NONE, isc, cv, ite, or_, Unsup
from .interp import Broken, Dead, Inst, Cls, UNDEF
from .evalt import Val, Fail

class Timeout(Exception): pass

class Result(object):
    """status: proved | agreed | undecided | refuted"""
    def __init__(self, name, status, note='', n=0, where='', functions=(), witness='', secs=0.0):
        self.name = name; self.status = status; self.note = note; self.n = n; self.where = where
        self.functions = sorted(functions); self.witness = witness; self.secs = secs

def exc_class(v):
    if v.op == 'ref' and isinstance(v.a[0], Inst): return v.a[0].cls
    if v.op == 'objval': return v.a[0]
    if isinstance(v.ext, Cls): return v.ext
    return None

def category(cats):
    """exception class -> name of the first listed class it is a kind of"""
    def f(c):
        if c is None: return '?'
        if cats is None: return 'refused'
        for n in cats:
            if any(k.name == n for k in c.mro): return n
        return 'other:' + c.name
    return f

def outcomes(I, exits, obs, cat):
    """[(path condition, outcome term)]"""
    out = []
    for kind, st, v, loc in exits:
        if kind == 'raise' and os.environ.get('NBCSA_DEBUG'): print('exit', [exc_class(x).name if exc_class(x) else x for x in t.leaves(v)], loc)
        if kind == 'return':
            ext = obs(I, st, v)
            out.append((st.pc, t.lift(lambda *xs: t.tup([K('return')] + list(xs)), tuple(ext)) if _flat(ext) else t.tup([K('return')] + list(ext))))
        else:
            o = t.lift(lambda x: t.tup([K('raise'), K(cat(exc_class(x)))]), (v,))
            if obs.on_raise is not None:
                ext = obs.on_raise(I, st, v)
                o = t.lift(lambda x: t.tup(list(x.a) + list(ext)), (o,))
            out.append((st.pc, o))
    return out
def _flat(xs): 
    n = 1
    for x in xs:
        if x.op == 'ite':
            n *= len(t.leaves(x))
            if n > 600: return False
    return True

class Obs(object):
    """what counts of an outcome: the value returned, and the listed extras"""
    def __init__(self, value=None, on_raise=None): 
        self.value = value; self.on_raise = on_raise
    def __call__(self, I, st, v):
        if self.value is None: return [I.reify(v, st)]
        return self.value(I, st, v)

def combine(outs):
    r = None
    for pc, o in outs:
        r = o if r is None else ite(pc, o, r)
    return r

class _Budget(Exception): pass

def linear(lits, ne_split=3):
    """the linear constraints among literals: [({monomial: coefficient}, constant)] meaning sum + constant <= 0, and disequalities"""
    cons = []; ne = []
    def lin(x):
        d = dict(t.pdict(x)); return {m: c for m, c in d.items() if m != ()}, d.get((), 0)
    for a, v in lits.items():
        if a.op == 'le':
            d, c = lin(a.a[0]); k = cv(a.a[1])
            if v: cons.append((d, c - k))
            else: cons.append(({m: -x for m, x in d.items()}, -c + k + 1))
        elif a.op == 'eqi':
            d, c = lin(a.a[0]); k = cv(a.a[1])
            if v:
                cons.append((d, c - k)); cons.append(({m: -x for m, x in d.items()}, -c + k))
            else: ne.append((d, c - k))
        elif a.op in AXIOMS:
            from .interp import Facts, prune
            for x in AXIOMS[a.op](a, v):
                x = prune(x, Facts(lits))
                if x.op != 'ite': cons.append(lin(x))
    return cons, ne
# what an atom implies about lengths: terms that are <= 0
def _var_ax(a, v):
    if v: return []
    b = a.a[0]
    L = t.length(b) if b.op != 'slice' or b.a[2] is not None else t.sub(t.length(b.a[0]), b.a[1])      # not empty
    return [t.sub(mk('varlen', (b,), 'int', 1, 9), L)]
AXIOMS = {'varbad': _var_ax}

def infeasible(lits):
    """no integers satisfy the linear literals (Fourier-Motzkin over the bounds domain); False when not shown"""
    try: cons, ne = linear(lits)
    except Exception: return False
    if not cons: return False
    def close(cons):
        cons = list(cons)
        ms = set(m for d, _ in cons for m in d)
        for m in ms:
            lo, hi = t._mono_range(m)
            if lo is not None: cons.append(({m: -1}, lo))
            if hi is not None: cons.append(({m: 1}, -hi))
        while ms:
            best = None
            for m in ms:
                p = sum(1 for d, _ in cons if d.get(m, 0) > 0); n = sum(1 for d, _ in cons if d.get(m, 0) < 0)
                if best is None or p * n - p - n < best[0]: best = (p * n - p - n, m)
            m = best[1]; ms.discard(m)
            pos = [(d, c) for d, c in cons if d.get(m, 0) > 0]; neg = [(d, c) for d, c in cons if d.get(m, 0) < 0]
            new = {}
            def put(d, c):
                if not d:
                    return c > 0
                k = tuple(sorted(((t._mkey(x), y) for x, y in d.items()), key=repr))
                if k not in new or new[k][1] < c: new[k] = (d, c)
                return False
            for d, c in cons:
                if d.get(m, 0) == 0 and put(d, c): return True
            if len(pos) * len(neg) > 400: continue
            for d1, c1 in pos:
                for d2, c2 in neg:
                    a, b = d1[m], -d2[m]
                    d = {}
                    for x, y in d1.items(): d[x] = d.get(x, 0) + y * b
                    for x, y in d2.items(): d[x] = d.get(x, 0) + y * a
                    d = {x: y for x, y in d.items() if y != 0}
                    c = c1 * b + c2 * a
                    g = 0
                    for y in d.values():
                        if not isinstance(y, int): g = 1; break
                        g = t.gcd(g, abs(y))
                    if g > 1 and isinstance(c, int): d = {x: y // g for x, y in d.items()}; c = -((-c) // g)
                    if put(d, c): return True
            cons = list(new.values())
            if len(cons) > 400: return False
        return False
    def rec(cons, ne):
        if close(cons): return True
        if not ne or len(ne) > 6: return False
        d, c = ne[0]
        return rec(cons + [(d, c + 1)], ne[1:]) and rec(cons + [({m: -x for m, x in d.items()}, -c + 1)], ne[1:])
    return rec(cons, ne)

def graphs_equal(a, b, limit=6000, secs=8):
    """two decision graphs denote the same function: their product is walked with the facts met on the way"""
    from .interp import Facts
    seen = {}; n = [0]; t0 = time.time()
    def decide(x, f):
        while x.op == 'ite':
            d = f.decide(x.a[0])
            if d is None: break
            x = x.a[1] if d else x.a[2]
        return x
    def rec(a, b, f, depth):
        a = decide(a, f); b = decide(b, f)
        if a is b: return True
        n[0] += 1
        if n[0] > limit or time.time() - t0 > secs or depth > 400: raise _Budget()
        if a.op != 'ite' and b.op != 'ite':
            if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a) and all(rec(x, y, f, depth + 1) for x, y in zip(a.a, b.a)): return True
            return infeasible(f.lits)
        k = (a.id, b.id, frozenset((x.id, v) for x, v in f.lits.items()))
        if k in seen: return seen[k]
        at = min((x.a[0] for x in (a, b) if x.op == 'ite'), key=lambda z: z.id)
        r = True
        for v in (True, False):
            g = f.copy(); g.add(at, v)
            lo, hi = g.rng(at.a[0]) if at.op in ('le', 'eqi') else (None, None)
            if lo is not None and hi is not None and lo > hi: continue
            if at.op in ('le', 'eqi') and infeasible(g.lits): continue
            if not rec(a, b, g, depth + 1): r = False; break
        seen[k] = r
        return r
    try: return rec(a, b, Facts(), 0)
    except _Budget: return False
    except RecursionError: return False

def canon_eq(I, A, B):
    """same normal form, path condition by path condition?"""
    ca = or_all([p for p, _ in A]); cb = or_all([p for p, _ in B])
    if ca is not cb and not graphs_equal(ca, cb): return False
    a = combine(A); b = combine(B)
    if a is b: return True
    from .interp import restrict
    if restrict(a, ca) is restrict(b, ca): return True
    # outside the domain both mean nothing
    dead = K('no exit')
    return graphs_equal(ite(ca, a, dead), ite(ca, b, dead))
def or_all(xs):
    r = FALSE
    for x in xs: r = or_(r, x)
    return r

def pick(v, outs):
    hit = None
    for pc, o in outs:
        if pc is TRUE: ok = True
        else:
            y = pc
            while y.op == 'ite': y = y.a[1] if v.ev(y.a[0]) else y.a[2]
            ok = y is TRUE
        if ok:
            if hit is not None: raise Fail('two exits')
            hit = o
    if hit is None: raise Fail('no exit')
    return hit

def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try: return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        except TypeError: return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, evalt.V) and isinstance(b, evalt.V): return a.k == b.k and same(a.p, b.p)
    if isinstance(a, evalt.Map) and isinstance(b, evalt.Map):
        return set(a.d) == set(b.d) and all(same(x, b.d[k]) for k, x in a.d.items())
    if isinstance(a, bool) != isinstance(b, bool): return False
    if type(a) != type(b) and not (isinstance(a, int) and isinstance(b, int)): return False
    return a == b

def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n - 20] + '...(%d)' % len(s)

def _diff(a, b, path='', n=None):
    """where two value graphs first differ, for the eyes"""
    if n is None: n = [6]
    if a is b or n[0] <= 0: return
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.a) == len(b.a):
        for i, (x, y) in enumerate(zip(a.a, b.a)): _diff(x, y, path + '/%s.%d' % (a.op, i), n)
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)): _diff(x, y, path + '.%d' % i, n)
        return
    n[0] -= 1
    print('DIFF %s\n   %s\n   %s' % (path[-300:], str(a)[:700], str(b)[:700]), flush=True)

def congruent(I, name, A, B, seed, samples, limit, gens=None, modes=(0,), where='', extra_terms=()):
    """A, B: outcome lists"""
    fs = set(I.stats['functions'])
    try:
        if canon_eq(I, A, B): return Result(name, 'proved', 'same normal form', 0, where, fs)
    except Unsup: pass
    if os.environ.get('NBCSA_DIFF'): _diff(combine(A), combine(B))
    ts = [x for p, o in A + B for x in (p, o)]
    pools = evalt.constants(ts)
    rng = random.Random(int.from_bytes(hashlib.sha256(('%s/%s' % (seed, name)).encode()).digest()[:8], 'big'))
    t0 = time.time()
    good = bad = 0; why = {}
    seen = set()
    for i in range(samples):
        if time.time() - t0 > limit: break
        v = Val(rng.getrandbits(64), pools, gens, modes[i % len(modes)]); v.index = i
        aim = .4 if gens else 1
        if gens and i < 4: aim = 0
        side = A if rng.random() < .5 else B
        pc, o = rng.choice(side)
        try:
            if rng.random() < .9 * aim: v.walk(pc, TRUE)
            if rng.random() < .7 * aim: v.walk(o)
            if rng.random() < .3 * aim: v.walk(rng.choice(ts))
            oa = pick(v, A); ob = pick(v, B)
            ra = v.ev(oa); rb = v.ev(ob)
        except Fail as e:
            bad += 1; k = str(e)[:60]; why[k] = why.get(k, 0) + 1
            continue
        except RecursionError:
            bad += 1; why['recursion'] = why.get('recursion', 0) + 1
            continue
        good += 1
        seen.add(evalt.hkey(ra)[:200])
        if not same(ra, rb):
            if any(s.a[0][:1] == '%' for s in v.asg if isinstance(s.a[0], str)):
                return Result(name, 'undecided', 'a loop variable escapes its loop in the value graph', good, where, fs, '', time.time() - t0)
            w = 'inputs: ' + ', '.join('%s = %s' % (s.a[0], short(x)) for s, x in list(v.asg.items())[:12])
            if v.table: w += '; given ' + ', '.join('%s = %s' % (k[:60], short(x, 60)) for k, x in list(v.table.items())[:4])
            w += '; the code gives %s, the definition gives %s' % (short(ra, 400), short(rb, 400))
            return Result(name, 'refuted', 'the value graphs differ', good, where, fs, w, time.time() - t0)
    if good == 0:
        return Result(name, 'undecided', 'no valuation could be evaluated (%s)' % '; '.join('%s x%d' % kv for kv in sorted(why.items(), key=lambda kv: -kv[1])[:3]), 0, where, fs, '', time.time() - t0)
    return Result(name, 'agreed', '%d valuations, %d distinct outcomes, %d without meaning%s' % (good, len(seen), bad, ' (%s)' % '; '.join('%s x%d' % kv for kv in sorted(why.items(), key=lambda kv: -kv[1])[:3]) if why else ''), good, where, fs, '', time.time() - t0)
