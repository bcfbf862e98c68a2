"""Loops over unknown data: one pass over the body per fixpoint round, no unrolling.

Every location the body may change gets a phi; the loop becomes
    loop(phis, initial values, next values, exit guards)
and a value observed at exit j is lout(loop, expression over the phis), cut down to the phis it needs and
renamed canonically, so that two loops computing the same recurrence have the same value number.
"""
from . import terms as t
from .terms import T, mk, K, TRUE, FALSE, NONE, ZERO, ONE, isc, cv, ite, and_, or_, not_, Unsup, Blowup, B
from .interp import (Obj, Inst, ListO, SetO, DictO, Frame, Iter, Dead, UNDEF, Cls, Mod, State, facts_of, restrict, Func, BoundM)
from .models import EV, _Ev

# ---------------------------------------------------------------- symbols inside terms
_fs = {}
def fsyms(x):
    """free phi symbols of a term"""
    r = _fs.get(x)
    if r is not None: return r
    # iterative to survive deep terms
    st = [(x, False)]
    while st:
        y, done = st.pop()
        if y in _fs: continue
        if not done:
            st.append((y, True))
            for c in kids(y):
                if c not in _fs: st.append((c, False))
            continue
        if y.op == 'sym':
            n = y.a[0]
            r = frozenset((y,)) if isinstance(n, str) and n[:1] in '%@' else frozenset()
        else:
            r = frozenset()
            for c in kids(y):
                if _fs[c]: r = r | _fs[c]
            if y.op == 'loop':
                r = r - frozenset(y.a[0])
                for c in y.a[1]: r = r | _fs[c]
            elif y.op in ('lout', 'lexit'): r = r - frozenset(y.a[0].a[0]) | _fs[y.a[0]]
        _fs[y] = r
    return _fs[x]
def kids(x):
    out = []
    def rec(a):
        for c in a:
            if isinstance(c, T): out.append(c)
            elif isinstance(c, tuple): rec(c)
    if x.op not in ('c', 'sym'): rec(x.a)
    return out

def subst(x, m, memo=None):
    if memo is None: memo = {}
    keys = frozenset(m)
    def sub(a):
        out = []
        for c in a:
            if isinstance(c, T): out.append(go(c))
            elif isinstance(c, tuple): out.append(sub(c))
            else: out.append(c)
        return tuple(out)
    def go(y):
        if y in m: return m[y]
        r = memo.get(y)
        if r is not None: return r
        if not (fsyms(y) & keys): r = y
        else: r = mk(y.op, sub(y.a), y.sort, y.lo, y.hi, y.ext)
        memo[y] = r
        return r
    import sys
    if sys.getrecursionlimit() < 20000: sys.setrecursionlimit(20000)
    return go(x)

_lv = {}
def level(x):
    """nesting height of the loops in a term"""
    r = _lv.get(x)
    if r is None:
        r = 0
        for c in kids(x): r = max(r, level(c))
        if x.op == 'loop': r += 1
        _lv[x] = r
    return r

def order_syms(x, wanted, out, seen):
    st = [x]
    while st:
        y = st.pop()
        if y in seen or not (fsyms(y) & wanted): continue
        seen.add(y)
        if y in wanted:
            if y not in out: out.append(y)
            continue
        st.extend(reversed(kids(y)))

def bound(L, i, s):
    es = t.elem_sort(s) if s.sort == 'seq' else None
    f = lambda x: x.qual if hasattr(x, 'qual') else repr(x)
    r = t.sym('@%d.%d:%s:%s:%s:%s%s' % (L, i, s.sort, s.lo, s.hi, f(s.ext), ':' + ','.join(f(y) for y in es) if es else ''), s.sort, s.lo, s.hi, s.ext)
    if es: t.set_elem_sort(r, *es)
    return r

class Loop(object):
    """phis: {sym: (init, next)}"""
    def __init__(self, phis, guards):
        self.phis = phis; self.guards = guards
        self.wanted = frozenset(phis)
    def header(self, expr):
        out = []; seen = set()
        for g in self.guards: order_syms(g, self.wanted, out, seen)
        if expr is not None: order_syms(expr, self.wanted, out, seen)
        i = 0
        while i < len(out):
            order_syms(self.phis[out[i]][1], self.wanted, out, seen); i += 1
        nexts = [self.phis[s][1] for s in out]
        L = 1 + max([0] + [level(y) for y in nexts + list(self.guards)] + ([level(expr)] if expr is not None else []))
        m = {}
        for i, s in enumerate(out): m[s] = bound(L, i, s)
        memo = {}
        bvs = tuple(m[s] for s in out)
        h = mk('loop', (bvs, tuple(self.phis[s][0] for s in out), tuple(subst(y, m, memo) for y in nexts),
                        tuple(subst(g, m, memo) for g in self.guards)), 'loop')
        return h, (subst(expr, m, memo) if expr is not None else None)
    def dep(self, x): return bool(fsyms(x) & self.wanted)
    def out(self, v, lo=None, hi=None):
        """value of v at the exit"""
        if not self.dep(v): return v
        if v.op == 'ite':
            ls = t.leaves(v)
            if v.sort == 'bool': return self._atoms(v) if len(t.atoms_of(v)) > 40 else self._bool(v)
            sorts = set(l.sort for l in ls)
            if any(l.op == 'ref' or l is UNDEF for l in ls) or len(sorts) > 1 or any(self._struct(l) for l in ls): return self._atoms(v)
            los = [l.lo for l in ls]; his = [l.hi for l in ls]
            return self._mk(v, None if None in los else min(los), None if None in his else max(his))
        if v.op == 'ref': return v
        if v.op == 'tup' and len(v.a) <= 64: return t.tup([self.out(x) for x in v.a])
        if v.op == 'map' and v.a[0] is None and all(not self.dep(k) for k, _ in v.a[1]):
            return mk('map', (None, tuple((k, self.out(x)) for k, x in v.a[1])), 'map')
        if v.op == 'objval': return mk('objval', (v.a[0], tuple((n, self.out(x)) for n, x in v.a[1])), 'obj', None, None, v.ext)
        if v.op == 'listv': return mk('listv', (self.out(v.a[0]),), 'listv')
        return self._mk(v, v.lo, v.hi)
    def _struct(self, l): return l.op in ('objval', 'listv')
    def _mk(self, v, lo, hi):
        h, e = self.header(v)
        r = mk('lout', (h, e), v.sort, lo, hi, v.ext)
        if v.sort == 'seq':
            es = self.elem.get(v)
            if es is None:
                for l in t.leaves(v):
                    e2 = t._elem_sort.get(l)
                    if e2: es = e2
            if es: t.set_elem_sort(r, *es)
        return r
    elem = {}
    def _bool(self, v):
        h, e = self.header(v)
        return B(mk('lout', (h, e), 'bool'))
    def _atoms(self, v, memo=None):
        if memo is None: memo = {}
        r = memo.get(v)
        if r is not None: return r
        if v.op != 'ite': r = self.out(v)
        else:
            a = v.a[0]
            c = self._bool(B(a)) if self.dep(a) else B(a)
            r = ite(c, self._atoms(v.a[1], memo), self._atoms(v.a[2], memo))
        memo[v] = r
        return r
    def exit_atom(self, j):
        h, _ = self.header(None)
        n = len(self.guards)
        return mk('lexit', (h,), 'int', 0, n - 1)

# ---------------------------------------------------------------- phis
def sort_join(a, b):
    if a == b: return a
    if a in ('int', 'float', 'num') and b in ('int', 'float', 'num'): return 'num'
    return 'any'

class Phi(object):
    """the unknown contents of one location at the loop head"""
    def __init__(self, I, init, late=False):
        self.init = init; self.late = late; self.islist = False
        self.const = None
        ls = [l for l in t.leaves(init)] if not late else []
        self.kind = 'leaf'
        if not late and ls and all(l.op in ('ref', 'objval') and I.class_of(l) is not None and not getattr(l.a[0], 'symbolic', False) for l in ls):
            r = I.reify(init) 
            rl = t.leaves(r)
            if len(set((l.a[0], tuple(n for n, _ in l.a[1])) for l in rl if l.op == 'objval')) == 1 and all(l.op == 'objval' for l in rl):
                self.kind = 'obj'; self.cls = rl[0].a[0]
                self.names = [n for n, _ in rl[0].a[1]]
                self.fields = {}
                for n in self.names:
                    fv = t.lift(lambda l: dict(l.a[1])[n], (r,))
                    # the same outer reference at every iteration is kept as it is
                    self.fields[n] = Phi(I, fv)
                return
        if not late and any(l.op == 'ref' for l in ls):
            self.kind = 'const'; return
        if not late and ls and all(l.op == 'listv' for l in ls):
            # a list that is another list at every iteration: its elements vary, it is only read
            self.islist = True
            self.init = t.lift(lambda l: l.a[0], (init,)); ls = t.leaves(self.init)
        so = None
        for l in ls:
            if l is UNDEF: continue
            so = l.sort if so is None else sort_join(so, l.sort)
        self.sort = so if so is not None else None
        los = [l.lo for l in ls]; his = [l.hi for l in ls]
        self.lo = None if not ls or None in los else min(los)
        self.hi = None if not ls or None in his else max(his)
        if self.sort not in ('int',): self.lo = self.hi = None
        exts = set(l.ext if isinstance(l.ext, Cls) else None for l in ls)
        self.ext = exts.pop() if len(exts) == 1 else None
        self.es = None
    def make(self, I):
        """value at the loop head"""
        if self.kind == 'const': self.syms = []; return self.init
        if self.kind == 'obj':
            o = Inst(self.cls); o.phi = True
            I.put(o, '$inst', TRUE)
            for n in self.names: I.put(o, n, self.fields[n].make(I))
            self.obj = o
            return o.ref
        I.symn += 1
        so = self.sort or 'any'
        self.sym = t.sym('%%%d' % I.symn, so, self.lo, self.hi, self.ext)
        if so == 'seq' and self.es: t.set_elem_sort(self.sym, *self.es)
        if self.islist: return I.thaw(mk('listv', (self.sym,), 'listv'))
        return B(self.sym) if so == 'bool' else self.sym
    def close(self, I, nxt, phis, reify):
        """nxt: value at the end of the iteration; -> stable? (records the recurrence in phis)"""
        if self.kind == 'const':
            if nxt is self.init: return True
            n2 = reify(nxt)
            self.kind = 'leaf'
            i2 = I.reify(self.init)
            self.__init__(I, i2)
            if self.kind == 'const': raise Unsup('a variable holds different objects in a loop')
            return False
        if self.kind == 'obj':
            if nxt.op == 'ref' and nxt.a[0] is self.obj and False: pass
            r = I.reify(nxt) if not (nxt.op == 'ref' and nxt.a[0] is self.obj) else I.reify(nxt)
            ok = True
            for l in t.leaves(r):
                if l.op != 'objval' or l.a[0] is not self.cls or [n for n, _ in l.a[1]] != self.names:
                    raise Unsup('a variable holds objects of different kinds in a loop')
            for n in self.names:
                fv = t.lift(lambda l: dict(l.a[1])[n], (r,))
                if not self.fields[n].close(I, fv, phis, reify): ok = False
            return ok
        v = reify(nxt)
        ls = t.leaves(v)
        if self.islist:
            if any(l.op != 'listv' for l in ls): raise Unsup('a variable holds a list and another value in a loop')
            v = t.lift(lambda l: l.a[0], (v,)); ls = t.leaves(v)
        if self.late:
            v = t.lift(lambda y: self.sym if y is UNDEF else y, (v,)) if any(l is UNDEF for l in ls) else v
            ls = [l for l in ls if l is not UNDEF]
        so = self.sort
        for l in ls:
            if l is self.sym: continue
            so = l.sort if so is None else sort_join(so, l.sort)
        ok = True
        if so != self.sort: self.sort = so; self.lo = self.hi = None; return False
        if so == 'int':
            if self.lo is not None:
                if not all(l is self.sym or l.lo is not None and l.lo >= self.lo for l in ls): self.lo = None; ok = False
            if self.hi is not None:
                if not all(l is self.sym or l.hi is not None and l.hi <= self.hi for l in ls): self.hi = None; ok = False
        if so == 'obj' or so == 'any':
            exts = set(l.ext for l in ls if l is not self.sym and isinstance(l.ext, Cls))
            if so == 'obj' and self.late and len(exts) == 1 and self.ext is None:
                self.ext = exts.pop(); ok = False
        if so == 'seq':
            es = self._elems(I, v, ls)
            if es != self.es: self.es = es; ok = False
        init = self.init if not self.late else NONE
        if so == 'seq' and not self.late: init = I.reify(init)
        if so == 'bool' and self.late: init = FALSE
        if any(l.op == 'ref' for l in t.leaves(init)): init = I.reify(init)
        phis[self.sym] = (init, v)
        return ok
    def _elems(self, I, v, ls):
        es = [None]; bad = [False]
        def addel(e):
            sh = t.shape(e)
            if sh is None: bad[0] = True; return
            if es[0] is None: es[0] = sh
            else:
                es[0] = t.shape_join(es[0], sh)
                if es[0] is None: bad[0] = True
        def seq(s):
            if s is self.sym or bad[0]: return
            if s.op == 'tup':
                for e in s.a: addel(e)
            elif s.op == 'seqcat':
                for p in s.a: seq(p)
            elif s.op in ('slice', 'seqremove', 'seqset', 'rev'):
                seq(s.a[0])
                if s.op == 'seqset': addel(s.a[2])
            else:
                e = t._elem_sort.get(s)
                if e is None: bad[0] = True
                else: addel_sh(t.leafshape(e))
        def addel_sh(sh):
            es[0] = sh if es[0] is None else t.shape_join(es[0], sh)
            if es[0] is None: bad[0] = True
        for l in ls: seq(l)
        for l in (t.leaves(I.reify(self.init)) if not self.late else ()): seq(l)
        if bad[0] or es[0] is None: return None
        r = es[0]
        if self.es is not None:
            r = t.widen_shape(t.leafshape(self.es), r)
            if r is None: return None
        return tuple(t.shape_elem(r))

def _objs(h): return set(k[0] for k in h)

def run(I, s, its):
    import ast
    I.stats['loops'] += 1
    st0 = I.st; outer = I.exits
    isfor = its is not None
    base_objs = getattr(I, '_base_objs', None)
    if base_objs is None or I._base_n != len(I.base):
        base_objs = I._base_objs = _objs(I.base); I._base_n = len(I.base)
    known = _objs(st0.h)
    M = {}
    order = []
    if isfor:
        I.symn += 1
        tv = t.sym('%%%d' % I.symn, 'int', 0)
        inrange = t.lt(tv, its.n)
    for rnd in range(40):
        h = dict(st0.h)
        I.st = State(h, st0.pc); I.exits = []
        for k in order:
            p = M[k]
            v = p.make(I)
            if not p.late: I.st.h[k] = v
        heads = dict((k, I.st.h.get(k)) for k in order)
        start_h = dict(I.st.h)
        start_objs = _objs(start_h)
        done = None; alive = True
        # head
        try:
            if isfor: c = inrange
            else: c = I.truth(I.ev(s.test))
            c = I.simp(c)
            dpc = and_(I.st.pc, not_(c))
            if dpc is not FALSE: done = I.st.fork(dpc)
            bpc = and_(I.st.pc, c)
            if bpc is FALSE: raise Dead()
            I.st = I.st.fork(bpc) if done is not None else State(I.st.h, bpc)
            if isfor: I.assign(s.target, I.simpv(its.get(tv)))
            I.block(s.body)
        except Dead: alive = False
        ex = I.exits; I.exits = outer
        conts = [(e[1], NONE) for e in ex if e[0] == 'continue']
        if alive: conts.append((I.st, NONE))
        brks = [e for e in ex if e[0] == 'break']
        rets = [e for e in ex if e[0] == 'return']
        rais = [e for e in ex if e[0] == 'raise']
        end = I.merge(conts)[0] if conts else None
        # changed locations
        ends = [e[1] for e in ex if e[0] in ('break', 'return', 'raise')]
        new = []
        def pre(k):
            v = start_h.get(k)
            return v if v is not None else I.base.get(k)
        if end is not None:
            for k, v in end.h.items():
                if k in M: continue
                p = pre(k)
                if p is v: continue
                if p is None:
                    o = k[0]
                    if o in start_objs or o in base_objs or o is I.ctx.frame or isinstance(o, _Ev):
                        if isinstance(o, _Ev): 
                            new.append((k, Phi(I, t.tup([]) if k[1].startswith('$ev') else ZERO)))
                        else: new.append((k, Phi(I, NONE, late=True)))
                    continue
                if not isinstance(k[0], (Obj,)) and fsyms(k[0]): raise Unsup('store to an element object in a loop')
                new.append((k, Phi(I, p)))
        # event channels touched only on the way out keep their prefix
        if new:
            for k, p in new: M[k] = p; order.append(k)
            # event channels start empty
            for k, p in new:
                if isinstance(k[0], _Ev) and pre(k) is None: st0.h[k] = p.init
            continue
        if end is None:
            # the body never completes: at most one iteration
            break
        def reify(v):
            I._rf = lambda o: not (o in known or o in base_objs) or getattr(o, 'phi', False)
            old = I.st; I.st = end
            try: return I.reify(v)
            finally: I._rf = None; I.st = old
        phis = {}
        ok = True
        old = I.st; I.st = end
        try:
            for k in order:
                v = end.h.get(k)
                if v is None: v = UNDEF
                if not M[k].close(I, v, phis, reify): ok = False
        finally: I.st = old
        if ok: break
    else: raise Unsup('loop does not stabilise')
    if end is None:
        # no back edge
        falls = [(e[1], NONE) for e in brks]
        outer.extend(rets); outer.extend(rais)
        I.exits = outer
        if done is not None:
            I.st = done
            try:
                I.block(s.orelse); falls.append((I.st, NONE))
            except Dead: pass
        if not falls: raise Dead()
        I.st, _ = I.merge(falls)
        return
    if isfor: phis[tv] = (ZERO, t.add(tv, ONE))
    # drop phis that never change
    # exits
    exits = []
    oexits = []
    if done is not None and s.orelse:
        I.st = done; I.exits = []
        try:
            I.block(s.orelse); falls = [(I.st, NONE)]
        except Dead: falls = []
        for e in I.exits:
            if e[0] == 'return': rets.append(e)
            elif e[0] == 'raise': rais.append(e)
            elif e[0] in ('break', 'continue'): raise Unsup('break in else of a loop')
        I.exits = outer
    else: falls = [(done, NONE)] if done is not None else []
    falls += [(e[1], NONE) for e in brks]
    if falls: exits.append(('fall',) + I.merge(falls))
    if rets: exits.append(('return',) + I.merge([(e[1], e[2]) for e in rets]) + (rets[0][3],))
    if rais: exits.append(('raise',) + I.merge([(e[1], e[2]) for e in rais]) + (rais[0][3],))
    if not exits: raise Dead()
    guards = tuple(restrict(e[1].pc, st0.pc) for e in exits)
    L = Loop(phis, guards)
    L.elem = {}
    for k in order:
        p = M[k]
        if p.kind == 'leaf' and p.sort == 'seq' and p.es: L.elem[p.sym] = p.es
    res = []
    la = L.exit_atom(0) if len(exits) > 1 else None
    for j, e in enumerate(exits):
        st = e[1]
        pc = st0.pc if la is None else and_(st0.pc, t.eq(la, K(j)))
        if pc is FALSE: continue
        h = {}
        memo = {}
        for k, v in st.h.items():
            if not isinstance(k[0], Obj) and fsyms(k[0]) & L.wanted: continue
            w = memo.get(v)
            if w is None:
                w = v
                if v.sort in ('seq', 'map') and (L.dep(v) or k in M):
                    # objects born in the last iteration become values
                    I._rf = lambda o: not (o in known or o in base_objs) or getattr(o, 'phi', False)
                    try: w = I.reify(v, st)
                    finally: I._rf = None
                if L.dep(w): w = L.out(w)
                memo[v] = w
            h[k] = w
        for k in order:
            p = M[k]
            if p.late and k not in h and p.kind == 'leaf' and p.sym in phis:
                h[k] = L.out(B(p.sym) if p.sort == 'bool' else p.sym)
        val = e[2] if e[0] != 'fall' else None
        if val is not None and L.dep(val): val = L.out(val)
        res.append((e[0], State(h, pc), val, e[3] if len(e) > 3 else None))
    fall = None
    for e in res:
        if e[0] == 'fall': fall = e[1]
        else: outer.append(e)
    if fall is None: raise Dead()
    I.st = fall

def seqmap(I, it):
    """[it.get(i) for i in range(it.n)] with no side effects"""
    I.symn += 1
    tv = t.sym('%%%d' % I.symn, 'int', 0)
    st0 = I.st
    I.st = st0.fork(and_(st0.pc, t.lt(tv, it.n)))
    ex0 = len(I.exits)
    try:
        h0 = dict(I.st.h)
        try: v = I.reify(I.simpv(it.get(tv)))
        except Dead: raise Unsup('sequence element never computed')
        if len(I.exits) != ex0: del I.exits[ex0:]; raise Unsup('sequence element may raise')
        for k, x in I.st.h.items():
            if k in h0 and h0[k] is not x and not isinstance(k[0], Frame): raise Unsup('sequence element with side effects')
    finally: I.st = st0
    if v.op == 'elem' and v.a[1] is tv and t.length(v.a[0]) is it.n: return v.a[0]
    if v.op == 'byte' and v.a[1] is tv and t.length(v.a[0]) is it.n: return mk('bseq', (v.a[0],), 'seq')
    I.symn += 1
    acc = t.sym('%%%d' % I.symn, 'seq')
    L = Loop({tv: (ZERO, t.add(tv, ONE)), acc: (t.tup([]), t.seqcat([acc, t.tup([v])]))}, (not_(t.lt(tv, it.n)),))
    sh = t.shape(v)
    if sh is not None: L.elem = {acc: tuple(t.shape_elem(sh))}
    return L.out(acc)

