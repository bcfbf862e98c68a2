"""Abstract interpreter over value numbers (terms.py).

Flow-sensitive dataflow analysis of Python source: states are joined at every merge point with gated
phi nodes, calls are inlined (context sensitive), exceptions are guarded exits, loops over symbolic
data become phi-congruence classes ('lout' terms).  Nothing of /repo is imported or executed.
"""
import ast, os, sys
from . import terms as t, sugar
from .terms import T, mk, K, TRUE, FALSE, NONE, ZERO, ONE, isc, cv, ite, and_, or_, not_, Unsup, Blowup

UNDEF = mk('undef', (), 'undef')

class Dead(Exception):
    """the current program point is unreachable"""

class Gone(Unsup):
    """a helper the analysis knows about is not there any more: undecided"""
class Broken(Exception):
    """an anchor of the analysis is missing: error exit"""

# ---------------------------------------------------------------- objects
class Obj(object):
    sort = 'obj'
    _ref = None
    @property
    def ref(self):
        if self._ref is None: self._ref = mk('ref', (self,), self.sort)
        return self._ref
    name = '?'
    def __repr__(self): return '<%s %s>' % (type(self).__name__, self.name)

class Func(Obj):
    sort = 'fn'
    def __init__(self, node, mod, scopes, name, qual, defaults, kwdefaults, cls=None):
        self.node = node; self.mod = mod; self.scopes = scopes; self.name = name; self.qual = qual
        self.defaults = defaults; self.kwdefaults = kwdefaults; self.cls = cls
class Builtin(Obj):
    sort = 'fn'
    def __init__(self, name, fn): self.name = name; self.fn = fn
class BoundM(Obj):
    sort = 'fn'
    def __init__(self, func, self_): self.func = func; self.self_ = self_; self.name = 'bound'
class StaticM(Obj):
    sort = 'fn'
    def __init__(self, func): self.func = func
class ClassM(Obj):
    sort = 'fn'
    def __init__(self, func): self.func = func
class Prop(Obj):
    sort = 'fn'
    def __init__(self, fget, fset=None): self.fget = fget; self.fset = fset
class Cls(Obj):
    sort = 'cls'
    def __init__(self, name, bases, mod=None, meta=None, builtin=False):
        self.name = name; self.bases = bases; self.mod = mod; self.meta = meta; self.builtin = builtin
        self.mro = linearize(self)
    @property
    def qual(self): return (self.mod.name + '.' if self.mod else '') + self.name
def linearize(c):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in x[1:] for x in seqs): break
            else: raise Unsup('mro')
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out
    return [c] + merge([b.mro for b in c.bases] + [c.bases])
class Inst(Obj):
    def __init__(self, cls, name=None): self.cls = cls; self.name = name or cls.name
class ListO(Obj):
    sort = 'list'; frozen = False
class DictO(Obj):
    sort = 'dict'; frozen = False
FROZEN = (ListO, DictO)
class SetO(Obj):
    sort = 'set'
class Mod(Obj):
    sort = 'mod'
    def __init__(self, name, path=None, pkg=False): self.name = name; self.path = path; self.pkg = pkg
class Frame(Obj):
    def __init__(self, name): self.name = name
class Ext(Obj):
    """something of a library nobody described: using it makes the result undecided"""
    sort = 'fn'
    def __init__(self, name): self.name = name
class SuperO(Obj):
    def __init__(self, cls, obj): self.cls = cls; self.obj = obj
class Iter(Obj):
    """an iterable with symbolic length: n, get(i)"""
    sort = 'iter'
    def __init__(self, n, get): self.n = n; self.get = get

class Gen(Obj):
    """a generator without end: its function, the arguments and how many values were taken"""
    sort = 'iter'
    def __init__(self, f, vals): self.f = f; self.vals = vals; self.name = 'generator'; self.known = []
class Enough(Exception): pass

class State(object):
    __slots__ = ('h', 'pc')
    def __init__(self, h, pc): self.h = h; self.pc = pc
    def fork(self, pc): return State(dict(self.h), pc)

# ---------------------------------------------------------------- facts
_ess_memo = {}
def essential(pc):
    """literals that hold wherever pc holds"""
    r = _ess_memo.get(pc.id)
    if r is not None: return r
    if pc is TRUE: r = {}
    elif pc is FALSE: r = None
    else:
        at, hi, lo = pc.a
        h = essential(hi) if hi is not FALSE else None
        l = essential(lo) if lo is not FALSE else None
        if h is None: r = dict(l); r[at] = False
        elif l is None: r = dict(h); r[at] = True
        else: r = dict((k, v) for k, v in h.items() if l.get(k) is v)
    if r is not None: _ess_memo[pc.id] = r
    return r

class Facts(object):
    def __init__(self, lits=None):
        self.lits = {}; self.bnd = {}; self.ne = set(); self.eqv = {}
        if lits:
            for a, v in lits.items(): self.add(a, v)
    def copy(self):
        f = Facts(); f.lits = dict(self.lits); f.bnd = dict(self.bnd); f.ne = set(self.ne); f.eqv = dict(self.eqv)
        return f
    def add(self, a, v):
        self.lits[a] = v
        if a.op == 'le':
            lin, k = a.a[0], cv(a.a[1])
            lo, hi = self.bnd.get(lin, (None, None))
            if v: hi = k if hi is None else min(hi, k)
            else: lo = k + 1 if lo is None else max(lo, k + 1)
            self.bnd[lin] = (lo, hi)
        elif a.op == 'eqi':
            lin, k = a.a[0], cv(a.a[1])
            if v: self.bnd[lin] = (k, k)
            else: self.ne.add((lin, k))
        elif a.op == 'eq' and v:
            x, y = a.a
            if isc(y): self.eqv[x] = y
            if isc(x): self.eqv[y] = x
    def rng(self, lin):
        lo, hi = lin.lo, lin.hi
        b = self.bnd.get(lin)
        if b:
            if b[0] is not None: lo = b[0] if lo is None else max(lo, b[0])
            if b[1] is not None: hi = b[1] if hi is None else min(hi, b[1])
        if lin.op == 'poly':
            L = H = 0
            for m, c in lin.a[0]:
                if m == (): a, b2 = 1, 1
                elif len(m) == 1 and m[0][1] == 1:
                    x = m[0][0]
                    a, b2 = x.lo, x.hi
                    bb = self.bnd.get(x)
                    if bb:
                        if bb[0] is not None: a = bb[0] if a is None else max(a, bb[0])
                        if bb[1] is not None: b2 = bb[1] if b2 is None else min(b2, bb[1])
                else: a, b2 = t._mono_range(m)
                if c < 0: a, b2 = b2, a
                L = None if L is None or a is None else L + c * a
                H = None if H is None or b2 is None else H + c * b2
            if L is not None: lo = L if lo is None else max(lo, L)
            if H is not None: hi = H if hi is None else min(hi, H)
        while lo is not None and (lin, lo) in self.ne: lo += 1
        while hi is not None and (lin, hi) in self.ne: hi -= 1
        return lo, hi
    def decide(self, a):
        v = self.lits.get(a)
        if v is not None: return v
        if a.op == 'le':
            lo, hi = self.rng(a.a[0]); k = cv(a.a[1])
            if hi is not None and hi <= k: return True
            if lo is not None and lo > k: return False
        elif a.op == 'eqi':
            lo, hi = self.rng(a.a[0]); k = cv(a.a[1])
            if (a.a[0], k) in self.ne: return False
            if lo is not None and lo > k or hi is not None and hi < k: return False
            if lo is not None and lo == hi == k: return True
        elif a.op == 'eq':
            x, y = a.a
            if isc(x): x, y = y, x
            if isc(y) and x in self.eqv: return self.eqv[x] is y
        return None

_facts_memo = {}
def facts_of(pc):
    f = _facts_memo.get(pc.id)
    if f is None:
        f = Facts(essential(pc)); _facts_memo[pc.id] = f
        if len(_facts_memo) > 200000: _facts_memo.clear()
    return f

def prune(x, facts, depth=0, budget=None):
    """drop the branches the facts exclude"""
    if x.op != 'ite': return x
    if budget is None: budget = [3000]
    budget[0] -= 1
    if budget[0] < 0: return x
    at, hi, lo = x.a
    d = facts.decide(at)
    if d is True: return prune(hi, facts, depth, budget)
    if d is False: return prune(lo, facts, depth, budget)
    if depth > 40: return x
    fh = facts.copy(); fh.add(at, True)
    fl = facts.copy(); fl.add(at, False)
    h = prune(hi, fh, depth + 1, budget); l = prune(lo, fl, depth + 1, budget)
    if h is hi and l is lo: return x
    return t.insert(at, h, l)

def restrict(f, care):
    if care is TRUE or f.op != 'ite' or care is FALSE: return f
    if f is care: return TRUE
    a = f.a[0]
    while care.op == 'ite' and care.a[0].id < a.id:
        care = or_(care.a[1], care.a[2])
    if care is TRUE: return f
    if care.op == 'ite' and care.a[0] is a: ch, cl = care.a[1], care.a[2]
    else: ch = cl = care
    if ch is FALSE: return restrict(f.a[2], cl)
    if cl is FALSE: return restrict(f.a[1], ch)
    return t.insert(a, restrict(f.a[1], ch), restrict(f.a[2], cl))

# ---------------------------------------------------------------- local names of a function
_locals_memo = {}
def local_names(node):
    r = _locals_memo.get(node)
    if r is not None: return r
    out = set(); glob = set()
    def targets(x):
        if isinstance(x, ast.Name): out.add(x.id)
        elif isinstance(x, (ast.Tuple, ast.List)):
            for e in x.elts: targets(e)
        elif isinstance(x, ast.Starred): targets(x.value)
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): out.add(c.name); continue
            if isinstance(c, ast.Lambda): continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                walk(c); continue
            if isinstance(c, ast.comprehension): 
                walk(c); continue
            if isinstance(c, (ast.Global, ast.Nonlocal)): glob.update(c.names)
            elif isinstance(c, ast.Assign):
                for x in c.targets: targets(x)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For)): targets(c.target)
            elif isinstance(c, ast.NamedExpr): targets(c.target)
            elif isinstance(c, ast.withitem):
                if c.optional_vars is not None: targets(c.optional_vars)
            elif isinstance(c, ast.ExceptHandler):
                if c.name: out.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names: out.add((al.asname or al.name).split('.')[0])
            elif isinstance(c, ast.Delete):
                for x in c.targets: targets(x)
            walk(c)
    if isinstance(node, ast.Lambda): pass
    else:
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)): out.add(s.name); continue
            fake = ast.Module(body=[s], type_ignores=[])
            walk(fake)
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs: out.add(p.arg)
    if a.vararg: out.add(a.vararg.arg)
    if a.kwarg: out.add(a.kwarg.arg)
    out -= glob
    _locals_memo[node] = out
    return out

def is_gen(node):
    for n in walk_own(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
    return False
def endless(node):
    for n in walk_own(node):
        if isinstance(n, ast.While) and (isinstance(n.test, ast.Constant) and n.test.value or isinstance(n.test, ast.Name) and n.test.id == 'True'):
            if not any(isinstance(m, (ast.Break, ast.Return)) for m in ast.walk(n)): return True
    return False
def walk_own(node):
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        st.extend(ast.iter_child_nodes(n))

class Ctx(object):
    """a function activation"""
    __slots__ = ('frame', 'scopes', 'mod', 'locals', 'cls', 'curexc', 'classbody', 'comp', 'qual')

def key_source(k):
    """the map a term is a key of, when it comes out of its keys"""
    if k.op == 'tup' and k.a and all(x.op == 'fld' for x in k.a) and all(x.a[0] is k.a[0].a[0] for x in k.a): k = k.a[0].a[0]
    if k.op != 'elem': return None
    s = k.a[0]
    while s.op in ('sortby', 'rev', 'seqslice', 'uniq'): s = s.a[0]
    return s.a[0] if s.op == 'mapkeys' else None

class Interp(object):
    def __init__(self, roots, maxsteps=3000000):
        """roots: list of (package name, directory)"""
        self.roots = dict(roots)
        self.base = {}
        self.st = State({}, TRUE)
        self.exits = []
        self.mods = {}
        self.overrides = {}
        self.schema = {}          # (class name, field) -> (sort, lo, hi, ext) | callable
        self.depth = 0
        self.steps = 0; self.maxsteps = maxsteps
        self.exc_cls = {}
        self.ctx = None
        self.loopn = 0
        self.stats = {'functions': set(), 'calls': 0, 'joins': 0, 'loops': 0}
        self.loc = None
        self.silent = set()       # overridden names whose absence is fine
        self.symn = 0
        self.unsup_top = []
        from . import models
        self.models = models
        models.setup(self)

    # ------------------------------------------------------------ state
    onlock = None
    nbase = 0                 # what counters of fresh unknowns start from
    watch = None              # hook: every access of a cell (object, field, 'r' or 'w')
    def get(self, o, f):
        v = self.st.h.get((o, f))
        if v is None: v = self.base.get((o, f))
        if self.watch is not None and v is not None: self.watch(o, f, 'r')
        return v
    def put(self, o, f, v):
        if o.__class__ in FROZEN and o.frozen: raise Unsup('store to a frozen container')
        if self.watch is not None: self.watch(o, f, 'w')
        self.st.h[(o, f)] = v
    def thaw(self, w):
        """a container that is a value becomes an object that is only read"""
        if w.op == 'ite' and any(l.op in ('dictv', 'listv') for l in t.leaves(w)): return t.lift(self.thaw, (w,))
        if w.op == 'dictv':
            o = DictO(); o.name = 'dict'; self.put(o, '$map', w.a[0]); o.frozen = True; return o.ref
        if w.op == 'listv':
            o = ListO(); o.name = 'list'; self.put(o, '$seq', w.a[0]); o.frozen = True; return o.ref
        return w
    def freeze(self):
        """the current heap becomes the base state"""
        self.base.update(self.st.h)
        self.st = State({}, TRUE)
    def reset(self):
        self.st = State({}, TRUE); self.exits = []; self.depth = 0

    def simp(self, c):
        if c.op == 'c': return c
        pc = self.st.pc
        if pc is TRUE: return prune(c, facts_of(pc))
        r = prune(c, facts_of(pc))
        if r.op == 'c': return r
        if and_(pc, r) is FALSE: return FALSE
        if and_(pc, not_(r)) is FALSE: return TRUE
        return r
    def simpv(self, v):
        if v.op != 'ite': return v
        return restrict(prune(v, facts_of(self.st.pc)), self.st.pc)

    def join(self, c, s1, s2):
        self.stats['joins'] += 1
        h1, h2 = s1.h, s2.h
        h = {}
        for k, v in h1.items():
            w = h2.get(k)
            if w is v: h[k] = v; continue
            if w is None: w = self.base.get(k)
            if w is None:
                if isinstance(k[0], Frame): h[k] = ite(c, v, UNDEF)
                elif k[1].__class__ is str and k[1].startswith('$'): h[k] = v   # object of one branch only
                else: h[k] = ite(c, v, UNDEF)
                continue
            h[k] = v if w is v else ite(c, v, w)
        for k, w in h2.items():
            if k in h1: continue
            v = self.base.get(k)
            if v is None:
                if k[1].__class__ is str and k[1].startswith('$'): h[k] = w
                else: h[k] = ite(c, UNDEF, w)
            else: h[k] = v if w is v else ite(c, v, w)
        return State(h, or_(s1.pc, s2.pc))

    def branch(self, c, f1, f2):
        c = self.simp(c)
        if c is TRUE: return f1()
        if c is FALSE: return f2()
        s0 = self.st
        s1 = s2 = v1 = v2 = None
        self.st = s0.fork(and_(s0.pc, c))
        try: v1 = f1(); s1 = self.st
        except Dead: pass
        self.st = s0.fork(and_(s0.pc, not_(c)))
        try: v2 = f2(); s2 = self.st
        except Dead: pass
        if s1 is None and s2 is None: raise Dead()
        if s1 is None: self.st = s2; return v2
        if s2 is None: self.st = s1; return v1
        self.st = self.join(c, s1, s2)
        if v1 is v2: return v1
        return ite(c, v1, v2)

    def merge(self, items):
        """items: [(state, value)] with disjoint path conditions -> joined (state, value)"""
        if not items: return None
        st, v = items[0]
        for s2, v2 in items[1:]:
            care = or_(st.pc, s2.pc)
            g = restrict(s2.pc, care)
            st = self.join(g, s2, st)
            v = v if v is v2 else ite(g, v2, v)
        return st, v

    def cases(self, x):
        """[(guard, leaf)]"""
        x = self.simpv(x)
        if x.op != 'ite': return [(TRUE, x)]
        out = {}
        order = []
        memo = {}
        ls = t.leaves(x)
        if len(ls) > 400: raise Blowup('too many cases')
        for l in ls:
            g = t.lift(lambda y: TRUE if y is l else FALSE, (x,))
            out[l] = g; order.append(l)
        return [(out[l], l) for l in order]

    def bycase(self, x, f):
        if x.op != 'ite': return f(x)
        x = self.simpv(x)
        if x.op != 'ite': return f(x)
        cs = self.cases(x)
        def rec(i):
            if i == len(cs) - 1: return f(cs[i][1])
            return self.branch(cs[i][0], lambda: f(cs[i][1]), lambda: rec(i + 1))
        return rec(0)

    # ------------------------------------------------------------ exceptions
    def new_exc(self, cls, args=()):
        if isinstance(cls, str):
            c = self.exc_cls.get(cls)
            if c is None: raise Unsup('exception %s' % cls)
            cls = c
        e = Inst(cls)
        self.put(e, 'args', t.tup(list(args)))
        return e.ref
    def raise_(self, exc):
        self.exits.append(('raise', self.st, exc, self.loc))
        raise Dead()
    def throw(self, name, *args):
        self.raise_(self.new_exc(name, args))
    def assume(self, c):
        """what does not satisfy c is not looked at"""
        self.st = self.st.fork(and_(self.st.pc, c))
        if self.st.pc is FALSE: raise Dead()
    def raise_if(self, c, name):
        """name: of a builtin exception, or a function that raises"""
        thrown = name if callable(name) else (lambda: self.throw(name))
        c = self.simp(c)
        if c is FALSE: return
        if c is TRUE: thrown()
        s0 = self.st
        self.st = s0.fork(and_(s0.pc, c))
        try: thrown()
        except Dead: pass
        s0.pc = and_(s0.pc, not_(c))
        self.st = s0
        if s0.pc is FALSE: raise Dead()

    # ------------------------------------------------------------ modules
    def find_module(self, name):
        top = name.split('.')[0]
        d = self.roots.get(top)
        if d is None: return None
        p = os.path.join(d, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'): return p + '.py', False
        return None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None: return m
        fnd = self.find_module(name)
        if fnd is None:
            m = self.models.ext_module(self, name)
            if m is None: return None
            self.mods[name] = m
            return m
        path, pkg = fnd
        if '.' in name:
            par = self.load(name.rsplit('.', 1)[0])
        m = self.mods.get(name)
        if m is not None: return m
        m = Mod(name, path, pkg)
        self.mods[name] = m
        save, self.st = self.st, State({}, TRUE)
        try: return self._load(name, m, path)
        finally:
            self.base.update(self.st.h); self.st = save
    def _load(self, name, m, path):
        self.put(m, '__name__', K(name))
        src = open(path, encoding='utf-8').read()
        try: tree = sugar.rewrite(ast.parse(src, path))
        except SyntaxError as e: raise Broken('syntax error in %s' % path)
        ctx = Ctx(); ctx.frame = m; ctx.scopes = []; ctx.mod = m; ctx.locals = None; ctx.cls = None
        ctx.curexc = None; ctx.classbody = False; ctx.comp = 0; ctx.qual = name
        old, self.ctx = self.ctx, ctx
        oe, self.exits = self.exits, []
        try:
            try:
                for x in tree.body:
                    try: self.stmt(x)
                    except Unsup as e:
                        self.unsup_top.append((name, x.lineno, str(e)))
                        self.mark_unknown(x, str(e))
            except Dead: raise Broken('module %s does not load: %s' % (name, self.exit_text()))
        finally:
            self.ctx = old
            self.exits = oe
        if '.' in name:
            par, last = name.rsplit('.', 1)
            self.put(self.mods[par], last, m.ref)
        return m
    def mark_unknown(self, s, why):
        names = []
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): names.append(n.id)
            elif isinstance(n, ast.alias): names.append((n.asname or n.name).split('.')[0])
        if isinstance(s, (ast.ClassDef, ast.FunctionDef)): names = [s.name]
        for n in names:
            if self.get(self.ctx.frame, n) is None: self.assign_name(n, Ext('unknown:%s (%s)' % (n, why)).ref)
    def exit_text(self):
        return ', '.join('%s %s at %s' % (k, self.exc_name(v) if k == 'raise' else '', l) for k, s, v, l in self.exits[:3])
    def exc_name(self, v):
        return '/'.join(sorted(set(l.a[0].cls.name if l.op == 'ref' and isinstance(l.a[0], Inst) else '?' for l in t.leaves(v)))) if v is not None else ''

    def cls_of(self, path): return self.member(path).a[0]
    def obj(self, name, path): return t.sym(name, 'obj', None, None, self.cls_of(path))
    def member(self, path):
        """'nbc.util.key.foo' or 'nbc.node.connection.Connection.handle_read' -> value"""
        parts = path.split('.')
        for n in range(len(parts), 0, -1):
            name = '.'.join(parts[:n])
            if self.find_module(name) is None: continue
            m = self.load(name)
            v = m.ref
            rest = parts[n:]
            for p in rest:
                o = v.a[0]
                if isinstance(o, Cls):
                    w = self.cls_attr(o, p)
                    if w is not None and w.op == 'ref' and isinstance(w.a[0], StaticM): w = w.a[0].func
                    elif w is not None and w.op == 'ref' and isinstance(w.a[0], ClassM): w = BoundM(w.a[0].func, v).ref
                else: w = self.get(o, p)
                if w is None: raise Broken('anchor %s not found' % path)
                v = w
            return v
        raise Broken('anchor %s not found' % path)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts: self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.maxsteps: raise Blowup('too many steps')
        self.loc = (self.ctx.mod.name, getattr(s, 'lineno', 0))
        return getattr(self, 's_' + type(s).__name__, self.s_other)(s)
    def s_other(self, s): raise Unsup('statement %s' % type(s).__name__)
    def s_Pass(self, s): pass
    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value)
    def s_Global(self, s): pass
    s_Nonlocal = s_Global
    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        def failed(): self.throw('AssertionError', *([self.ev(s.msg)] if s.msg is not None else []))
        self.raise_if(not_(c), failed)
    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        self.exits.append(('return', self.st, v, self.loc)); raise Dead()
    def s_Break(self, s):
        self.exits.append(('break', self.st, None, self.loc)); raise Dead()
    def s_Continue(self, s):
        self.exits.append(('continue', self.st, None, self.loc)); raise Dead()
    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))
    def s_Assign(self, s):
        v = self.ev(s.value)
        for x in s.targets: self.assign(x, v)
    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value))
    def s_AugAssign(self, s):
        tg = s.target
        if isinstance(tg, ast.Name):
            old = self.ev_Name(tg)
            v = self.binop(type(s.op).__name__, old, self.ev(s.value), inplace=True)
            self.assign(tg, v)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value)
            nm = self.mangle(tg.attr)
            old = self.getattr_(o, nm)
            v = self.binop(type(s.op).__name__, old, self.ev(s.value), inplace=True)
            self.setattr_(o, nm, v)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value); i = self.ev_index(tg.slice)
            old = self.getitem(o, i)
            v = self.binop(type(s.op).__name__, old, self.ev(s.value), inplace=True)
            self.setitem(o, i, v)
        else: raise Unsup('augassign')
    def s_Delete(self, s):
        for x in s.targets:
            if isinstance(x, ast.Name): self.put(self.name_frame(x.id), x.id, UNDEF)
            elif isinstance(x, ast.Subscript): self.delitem(self.ev(x.value), self.ev_index(x.slice))
            elif isinstance(x, ast.Attribute): 
                o = self.ev(x.value)
                self.put(o.a[0] if o.op == 'ref' else o, self.mangle(x.attr), UNDEF)
            else: raise Unsup('delete')
    def s_Raise(self, s):
        if s.exc is None:
            if self.ctx.curexc is None: raise Unsup('bare raise')
            self.raise_(self.ctx.curexc)
        v = self.ev(s.exc)
        def f(v):
            if v.sort == 'cls': v = self.call(v, [], {})
            self.raise_(v)
        self.bycase(v, f)
    def s_FunctionDef(self, s):
        v = self.mkfunc(s, s.name)
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d), [v], {})
        self.assign_name(s.name, v)
    def s_ClassDef(self, s):
        bases = []
        for b in s.bases:
            x = self.ev(b)
            if x.op == 'ref' and isinstance(x.a[0], Cls): bases.append(x.a[0])
            else: raise Unsup('base class')
        meta = None
        for kw in s.keywords:
            if kw.arg == 'metaclass': meta = self.ev(kw.value).a[0]
        if not bases: bases = [self.object_cls]
        for b in bases:
            if b.meta is not None and meta is None: meta = b.meta
        c = Cls(s.name, bases, self.ctx.mod, meta)
        ctx = Ctx(); ctx.frame = c; ctx.scopes = self.ctx.scopes + ([self.ctx] if self.ctx.locals is not None else [])
        ctx.mod = self.ctx.mod; ctx.locals = None; ctx.cls = c; ctx.curexc = None; ctx.classbody = True; ctx.comp = 0
        ctx.qual = self.ctx.qual + '.' + s.name
        c.ctxqual = ctx.qual
        self.put(c, '__name__', K(s.name)); self.put(c, '__module__', K(self.ctx.mod.name))
        old, self.ctx = self.ctx, ctx
        try: self.block(s.body)
        finally: self.ctx = old
        self.run_meta(c)
        v = c.ref
        for d in reversed(s.decorator_list): v = self.call(self.ev(d), [v], {})
        self.assign_name(s.name, v)
    def run_meta(self, c):
        if c.meta is not None:
            f = self.cls_attr(c.meta, '__init__')
            if f is not None and isinstance(f.a[0], Func):
                self.call(f, [c.ref, K(c.name), t.tup([b.ref for b in c.bases]), self.new_dict([]) ], {})
    def s_Import(self, s):
        for al in s.names:
            m = self.load(al.name)
            if m is None: self.throw('ImportError')
            if al.asname: self.assign_name(al.asname, m.ref)
            else:
                top = al.name.split('.')[0]
                self.assign_name(top, self.load(top).ref)
    def s_ImportFrom(self, s):
        if s.level:
            base = self.ctx.mod.name if self.ctx.mod.pkg else self.ctx.mod.name.rpartition('.')[0]
            for _ in range(s.level - 1): base = base.rpartition('.')[0]
            name = base + ('.' + s.module if s.module else '')
        else: name = s.module
        m = self.load(name)
        if m is None: self.throw('ImportError')
        for al in s.names:
            if al.name == '*':
                al_ = self.get(m, '__all__')
                names = [cv(x) for x in self.seq_of(al_).a] if al_ is not None else \
                    [k[1] for k in list(self.st.h) + list(self.base) if k[0] is m and not k[1].startswith('_')]
                for n in names: self.assign_name(n, self.get(m, n))
                continue
            v = self.get(m, al.name)
            if v is None and self.find_module(name + '.' + al.name):
                v = self.load(name + '.' + al.name).ref
            if v is None and (m.path is None or m.name == 'threading'): v = self.models.ext_attr(self, m, al.name)
            if v is None: self.throw('ImportError')
            self.assign_name(al.asname or al.name, v)
    def s_Try(self, s):
        outer = self.exits
        self.exits = []
        alive = True
        st0 = self.st
        try: self.block(s.body)
        except Dead: alive = False
        except Unsup:
            self.exits = outer; raise
        ex = self.exits
        normal = []
        done = []                        # exits that leave
        if alive:
            self.exits = []
            try:
                self.block(s.orelse); normal.append((self.st, NONE))
            except Dead: pass
            done += self.exits
        raises = [e for e in ex if e[0] == 'raise']
        done += [e for e in ex if e[0] != 'raise']
        if s.handlers:
            # which handler takes which exit
            groups = [[] for _ in s.handlers]
            # types are evaluated in the state of the exit
            for e in raises:
                kind, st, v, loc = e
                left = st
                rest = []
                for g, leaf in self._cases_in(st, v):
                    if leaf.op != 'ref': raise Unsup('raise of unknown value')
                    pc = and_(st.pc, g)
                    if pc is FALSE: continue
                    stl = st if g is TRUE else st.fork(pc)
                    for i, h in enumerate(s.handlers):
                        if h.type is None or self.matches(stl, leaf.a[0].cls, h.type):
                            groups[i].append((stl, leaf)); break
                    else: done.append(('raise', stl, leaf, loc))
            for h, g in zip(s.handlers, groups):
                if not g: continue
                st, v = self.merge(g)
                self.st = st; self.exits = []
                oc, self.ctx.curexc = self.ctx.curexc, v
                try:
                    if h.name: self.assign_name(h.name, v)
                    self.block(h.body)
                    normal.append((self.st, NONE))
                except Dead: pass
                finally: self.ctx.curexc = oc
                done += self.exits
        else: done += raises
        if s.finalbody:
            out = []
            if normal:
                st, _ = self.merge(normal); self.st = st; self.exits = []
                try: self.block(s.finalbody); normal = [(self.st, NONE)]
                except Dead: normal = []
                out += self.exits
            kinds = {}
            for e in done: kinds.setdefault(e[0], []).append(e)
            for k, es in kinds.items():
                st, v = self.merge([(e[1], e[2] if e[2] is not None else NONE) for e in es])
                self.st = st; self.exits = []
                try:
                    self.block(s.finalbody)
                    out.append((k, self.st, v, es[0][3]))
                except Dead: pass
                out += self.exits
            done = out
        self.exits = outer
        self.exits.extend(done)
        if not normal: raise Dead()
        self.st, _ = self.merge(normal)
    def _cases_in(self, st, v):
        old, self.st = self.st, st
        try: return self.cases(v)
        finally: self.st = old
    def matches(self, st, cls, tnode):
        old, self.st = self.st, st.fork(st.pc)
        try: tv = self.ev(tnode)
        finally: self.st = old
        cand = list(self.seq_of(tv).a) if tv.sort in ('seq', 'list') else [tv]
        for c in cand:
            if c.op == 'ref' and isinstance(c.a[0], Cls):
                if c.a[0] in cls.mro: return True
            else: raise Unsup('except type')
        return False
    def s_With(self, s):
        vals = []
        for it in s.items:
            v = self.ev(it.context_expr)
            x = self.call(self.getattr_(v, '__enter__'), [], {})
            if it.optional_vars is not None: self.assign(it.optional_vars, x)
            vals.append(v)
        outer = self.exits; self.exits = []
        alive = True
        try: self.block(s.body)
        except Dead: alive = False
        ex = self.exits; self.exits = outer
        normal = []
        def leave(st):
            self.st = st
            for v in reversed(vals): self.call(self.getattr_(v, '__exit__'), [NONE, NONE, NONE], {})
            return self.st
        if alive:
            try: normal.append((leave(self.st), NONE))
            except Dead: pass
        for e in ex:
            try: self.exits.append((e[0], leave(e[1]), e[2], e[3]))
            except Dead: pass
        if not normal: raise Dead()
        self.st = normal[0][0]

    # ------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.ev(s.iter)
        def run(it):
            if it.op == 'ref' and isinstance(it.a[0], (ListO, SetO, DictO)):
                o = it.a[0]
                q = self.map_keys(self.get(o, '$map')) if isinstance(o, DictO) else self.get(o, '$seq')
                if q.op == 'ite': q = self.simpv(q)
                if q.op == 'ite':
                    ls = t.leaves(q)
                    if len(ls) <= 24 and all(l.op == 'tup' and len(l.a) <= 20 for l in ls): return self.bycase(q, run)
            its = self.iterate(it)
            if isinstance(its, list):
                if len(its) > 3000: raise Blowup('long loop')
                if len(its) > 60 and all(isc(x) and x.sort == 'int' for x in its) and any(isinstance(n, ast.While) for n in ast.walk(s)):
                    tab = t.tup(its)
                    self.symloop(s, Iter(K(len(its)), lambda i: t.seqget(tab, i)))
                else: self.unrolled(s, its)
            else: self.symloop(s, its)
        self.bycase(it, run)
    def unrolled(self, s, its):
        outer = self.exits; self.exits = []
        brk = []
        alive = True
        for x in its:
            try:
                self.assign(s.target, x); self.block(s.body)
            except Dead: alive = False
            ex = self.exits; self.exits = []
            cont = [(e[1], NONE) for e in ex if e[0] == 'continue']
            brk += [(e[1], NONE) for e in ex if e[0] == 'break']
            outer.extend(e for e in ex if e[0] not in ('continue', 'break'))
            if cont:
                if alive: cont.append((self.st, NONE))
                self.st, _ = self.merge(cont); alive = True
            if not alive: break
        self.exits = outer
        if alive and s.orelse:
            try: self.block(s.orelse)
            except Dead: alive = False
        if brk:
            if alive: brk.append((self.st, NONE))
            self.st, _ = self.merge(brk)
        elif not alive: raise Dead()
    def s_While(self, s):
        # unroll while the condition is known
        n = 0
        outer = self.exits; self.exits = []
        brk = []
        st0 = self.st.fork(self.st.pc); n0 = len(outer)
        while True:
            if n == 40 and len(outer) - n0 + len(brk) >= n:
                # each pass may leave: a search, better seen as a whole
                self.st = st0; del outer[n0:]
                self.exits = outer
                self.symloop(s, None)
                return
            st_before = self.st.fork(self.st.pc); ex_before = list(outer)
            try: c = self.simp(self.truth(self.ev(s.test)))
            except Dead:
                outer.extend(self.exits); self.exits = outer
                if brk: self.st, _ = self.merge(brk); return
                raise
            outer.extend(self.exits); self.exits = []
            if c is FALSE: break
            if c is TRUE and n < 400 and not (isinstance(s.test, ast.Constant) or (isinstance(s.test, ast.Name) and s.test.id == 'True')):
                alive = True
                try: self.block(s.body)
                except Dead: alive = False
                ex = self.exits; self.exits = []
                cont = [(e[1], NONE) for e in ex if e[0] == 'continue']
                brk += [(e[1], NONE) for e in ex if e[0] == 'break']
                outer.extend(e for e in ex if e[0] not in ('continue', 'break'))
                if cont:
                    if alive: cont.append((self.st, NONE))
                    self.st, _ = self.merge(cont); alive = True
                if not alive:
                    self.exits = outer
                    if brk: self.st, _ = self.merge(brk); return
                    raise Dead()
                n += 1
                continue
            if c is TRUE and n < 400:
                # `while True`: peel the iteration when it definitely continues or definitely leaves
                try:
                    alive = True
                    try: self.block(s.body)
                    except Dead: alive = False
                    ex = self.exits; self.exits = []
                    cont = [(e[1], NONE) for e in ex if e[0] == 'continue']
                    mine = [(e[1], NONE) for e in ex if e[0] == 'break']
                    rest = [e for e in ex if e[0] not in ('continue', 'break')]
                    if cont:
                        if alive: cont.append((self.st, NONE))
                        self.st, _ = self.merge(cont); alive = True
                    mixed = alive and (mine or (n == 0 and rest))
                except (Unsup, Blowup):
                    self.exits = []
                    mixed = True
                if not mixed:
                    outer.extend(rest)
                    if not alive:
                        self.exits = outer
                        if mine: self.st, _ = self.merge(mine); return
                        raise Dead()
                    n += 1
                    continue
            # symbolic
            self.st = st_before
            del outer[len(ex_before):]
            self.exits = outer
            if n > 0 and brk: self.st = st0; del outer[n0:]
            self.symloop(s, None)
            return
        self.exits = outer
        if s.orelse: self.block(s.orelse)
        if brk:
            brk.append((self.st, NONE)); self.st, _ = self.merge(brk)

    def symloop(self, s, its):
        from . import loops
        loops.run(self, s, its)

    def iterate(self, x):
        """-> python list of terms (known length) or Iter"""
        if x.op == 'ref':
            o = x.a[0]
            if isinstance(o, Iter): 
                if isc(o.n): return [o.get(K(i)) for i in range(cv(o.n))]
                return o
            if isinstance(o, (ListO, SetO)): return self.iterate(self.get(o, '$seq'))
            if isinstance(o, DictO): return self.iterate(self.map_keys(self.get(o, '$map')))
            if isinstance(o, Inst):
                f = self.cls_attr(o.cls, '__iter__')
                if f is not None: return self.iterate(self.call(self.bind(f, x, o.cls), [], {}))
            raise Unsup('iteration over %r' % o)
        if isc(x):
            v = cv(x)
            if isinstance(v, (bytes, str)):
                return [K(v[i]) for i in range(len(v))]
            self.throw('TypeError')
        if x.op == 'tup': return list(x.a)
        if x.sort in ('seq', 'bytes', 'str'):
            n = t.length(x)
            g = (lambda i: t.seqget(x, i)) if x.sort == 'seq' else (lambda i: t.byte(x, i)) if x.sort == 'bytes' else (lambda i: t.slice_(x, i, t.add(i, ONE)))
            n = self.simpv(n)
            if isc(n) and x.op == 'ite':
                # alternatives of another length are out of reach here
                m = cv(n)
                def fits(l):
                    k = t.length(l)
                    return not isc(k) or cv(k) == m
                ok = [l for l in t.leaves(x) if fits(l)]
                if ok: x = t.lift(lambda l: l if fits(l) else ok[0], (x,))
            if isc(n): return [g(K(i)) for i in range(cv(n))]
            return Iter(n, g)
        if x.sort == 'map': return self.iterate(self.map_keys(x))
        if x.sort in ('int', 'none', 'bool', 'float'): self.throw('TypeError')
        raise Unsup('iteration over %s' % t.show(x))

    def seq_of(self, x):
        """sequence term of a list/tuple/iterable value"""
        if x.op == 'ite': return self.bycase(x, self.seq_of)
        if x.op == 'ref':
            o = x.a[0]
            if isinstance(o, (ListO, SetO)): return self.get(o, '$seq')
            if isinstance(o, DictO): return self.map_keys(self.get(o, '$map'))
            if isinstance(o, Iter):
                from . import loops
                if isc(o.n): return t.tup([o.get(K(i)) for i in range(cv(o.n))])
                return loops.seqmap(self, o)
            its = self.iterate(x)
            if isinstance(its, list): return t.tup(its)
            from . import loops
            return loops.seqmap(self, its)
        if x.sort == 'seq': return x
        if x.sort == 'bytes':
            if isc(x): return t.tup([K(b) for b in cv(x)])
            n = t.length(x)
            if isc(n) and cv(n) <= 4096: return t.tup([t.byte(x, K(i)) for i in range(cv(n))])
            return mk('bseq', (x,), 'seq')
        if x.sort == 'str' and not isc(x):
            its = self.iterate(x)
            if isinstance(its, list): return t.tup(its)
            from . import loops
            return loops.seqmap(self, its)
        its = self.iterate(x)
        if isinstance(its, list): return t.tup(its)
        raise Unsup('sequence of %s' % t.show(x))

    def new_list(self, seq):
        o = ListO(); o.name = 'list'
        if not isinstance(seq, T): seq = t.tup(seq)
        self.put(o, '$seq', seq); return o.ref
    def new_set(self, seq):
        o = SetO(); o.name = 'set'; self.put(o, '$seq', seq); return o.ref
    def new_dict(self, pairs):
        o = DictO(); o.name = 'dict'
        m = EMPTY_MAP
        for k, v in pairs: m = self.map_set(m, k, v)
        self.put(o, '$map', m); return o.ref

    # ------------------------------------------------------------ maps: ('map', base or None, ((k, v), ...))
    def map_set(self, m, k, v):
        if m.op == 'ite' or k.op == 'ite':
            return t.lift(lambda m, k: self.map_set(m, k, v), (m, k))
        base, items = m.a if m.op == 'map' else (m, ())
        out = []
        hit = False
        for (k2, v2) in items:
            e = self.simp(t.eq(k, k2))
            if e is TRUE: out.append((k2, v)); hit = True
            elif e is FALSE: out.append((k2, v2))
            else:
                if hit: out.append((k2, v2)); continue
                # unknown aliasing: keep as an ordered store
                return mk('map', (m, ((k, v),)), 'map')
        if not hit: out.append((k, v))
        return mk('map', (base, tuple(out)), 'map')
    def map_has(self, m, k):
        if m.op == 'ite' or k.op == 'ite': return t.lift(lambda m, k: self.map_has(m, k), (m, k))
        if key_source(k) is m: return TRUE
        if m.op == 'map':
            base, items = m.a
            r = self.map_has(base, k) if base is not None else FALSE
            for k2, v2 in reversed(items): r = or_(self.simp(t.eq(k, k2)), r)
            return r
        if m.op == 'mapdel': return and_(not_(t.eq(k, m.a[1])), self.map_has(m.a[0], k))
        return t.B(mk('maphas', (m, k), 'bool'))
    def map_get(self, m, k, srt=None):
        """value of a key known to be present"""
        if m.op == 'ite' or k.op == 'ite': return t.lift(lambda m, k: self.map_get(m, k), (m, k))
        if m.op == 'map':
            base, items = m.a
            r = self.map_get(base, k) if base is not None else None
            for k2, v2 in items:
                e = self.simp(t.eq(k, k2))
                if e is TRUE: r = v2
                elif e is not FALSE: r = v2 if r is None else ite(e, v2, r)
            if r is None: return UNDEF
            return r
        if m.op == 'mapdel': return self.map_get(m.a[0], k)
        sch = self.mapschema.get(m)
        if sch is not None: return sch(m, k)
        sh = t.map_shape(m)
        if sh is not None and sh[1] is not None:
            srt, lo, hi, ext = t.shape_elem(sh[1])
            if isinstance(ext, t.Shape): return t.expand(mk('mapget', (m, k), srt, lo, hi, ext.cls), ext)
            r = mk('mapget', (m, k), srt, lo, hi, ext)
            return t.B(r) if srt == 'bool' else r
        return mk('mapget', (m, k), 'any')
    mapschema = {}
    _rf = None
    def map_del(self, m, k):
        if m.op == 'ite' or k.op == 'ite': return t.lift(lambda m, k: self.map_del(m, k), (m, k))
        if m.op == 'map':
            base, items = m.a
            out = []; rest = base
            for k2, v2 in items:
                e = self.simp(t.eq(k, k2))
                if e is TRUE: continue
                if e is FALSE: out.append((k2, v2))
                else: return mk('mapdel', (m, k), 'map')
            if base is not None:
                if self.simp(self.map_has(base, k)) is not FALSE: base = self.map_del(base, k)
            return mk('map', (base, tuple(out)), 'map') if out or base is None else base
        return mk('mapdel', (m, k), 'map')
    def map_keys(self, m):
        if m.op == 'ite': return t.lift(self.map_keys, (m,))
        if m.op == 'map' and m.a[0] is None: return t.tup([k for k, v in m.a[1]])
        r = mk('mapkeys', (m,), 'seq')
        es = self.mapkeysort.get(m)
        if es: t.set_elem_sort(r, *es)
        else:
            sh = t.map_shape(m)
            if sh is not None and sh[0] is not None: t.set_elem_sort(r, *t.shape_elem(sh[0]))
        return r
    mapkeysort = {}
    def map_len(self, m):
        if m.op == 'ite': return t.lift(self.map_len, (m,))
        if m.op == 'map':
            n = ZERO
            b = m.a[0]
            if b is None: return K(len(m.a[1]))
            r = self.map_len(b)
            for k, v in m.a[1]: r = ite(self.map_has(b, k), r, t.add(r, ONE))
            return r
        if m.op == 'mapdel': return ite(self.map_has(m.a[0], m.a[1]), t.sub(self.map_len(m.a[0]), ONE), self.map_len(m.a[0]))
        return mk('maplen', (m,), 'int', 0)

    # ------------------------------------------------------------ names and assignment
    def assign_name(self, name, v):
        if self.ctx.classbody: name = self.mangle(name)
        self.put(self.name_frame(name), name, v)
    def name_frame(self, name):
        c = self.ctx
        if c.locals is not None and name not in c.locals:
            if c.comp: return c.frame
            for sc in reversed(c.scopes):
                if name in sc.locals: return sc.frame
            return c.mod
        return c.frame
    def assign(self, x, v):
        if v.op in ('dictv', 'listv', 'ite'): v = self.thaw(v)
        if isinstance(x, ast.Name): self.assign_name(x.id, v)
        elif isinstance(x, (ast.Tuple, ast.List)):
            st = [i for i, e in enumerate(x.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]; m = len(x.elts) - 1 - i
                def cut(w):
                    q = self.seq_of(w); n = t.length(q)
                    self.raise_if(t.lt(n, K(i + m)), 'ValueError')
                    hi = t.sub(n, K(m))
                    return t.tup([t.seqget(q, K(j)) for j in range(i)] + [self.new_list(t.slice_(q, K(i), self.simpv(hi)))] + [t.seqget(q, self.simpv(t.add(hi, K(j)))) for j in range(m)])
                r = self.bycase(v, cut)
                if r.op != 'tup': raise Unsup('starred assignment of alternatives')
                for e, w in zip(x.elts, r.a): self.assign(e.value if isinstance(e, ast.Starred) else e, w)
                return
            vs = self.unpack(v, len(x.elts))
            for e, w in zip(x.elts, vs): self.assign(e, w)
        elif isinstance(x, ast.Attribute): self.setattr_(self.ev(x.value), self.mangle(x.attr), v)
        elif isinstance(x, ast.Subscript): 
            o = self.ev(x.value); self.setitem(o, self.ev_index(x.slice), v)
        else: raise Unsup('assignment target')
    def unpack(self, v, n):
        def f(v):
            if v.sort in ('int', 'none', 'bool', 'float'): self.throw('TypeError')
            if v.sort == 'any': 
                return t.tup([mk('elem', (v, K(i)), 'any') for i in range(n)])
            s = self.seq_of(v)
            def g(s):
                self.raise_if(not_(t.eq(t.length(s), K(n))), 'ValueError')
                return t.tup([t.seqget(s, K(i)) for i in range(n)])
            return self.bycase(s, g)
        r = self.bycase(v, f)
        if r.op == 'tup': return list(r.a)
        return [t.lift(lambda y: t.seqget(y, K(i)), (r,)) for i in range(n)]
    def mangle(self, a):
        if a.startswith('__') and not a.endswith('__') and self.ctx.cls is not None:
            return '_' + self.ctx.cls.name.lstrip('_') + a
        return a

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > self.maxsteps: raise Blowup('too many steps')
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None: raise Unsup('expression %s' % type(e).__name__)
        r = m(e)
        if r.op == 'dictv' or r.op == 'listv' or r.op == 'ite': return self.thaw(r)
        return r
    def ev_Constant(self, e):
        if e.value is Ellipsis: raise Unsup('...')
        return K(e.value)
    def ev_Name(self, e):
        name = e.id
        c = self.ctx
        if name in ('True', 'False', 'None'): return K({'True': True, 'False': False, 'None': None}[name])
        v = None
        if c.locals is None:
            v = self.get(c.frame, self.mangle(name) if c.classbody else name)
            if v is None and c.classbody:
                for sc in reversed(c.scopes):
                    if name in sc.locals: v = self.get(sc.frame, name); break
                if v is None: v = self.get(c.mod, name)
        elif name in c.locals or c.comp and self.get(c.frame, name) is not None:
            v = self.get(c.frame, name)
            if v is None: self.throw('UnboundLocalError')
        else:
            for sc in reversed(c.scopes):
                if name in sc.locals:
                    v = self.get(sc.frame, name)
                    if v is None: self.throw('NameError')
                    break
            if v is None: v = self.get(c.mod, name)
        if v is None:
            v = self.builtins.get(name)
            if v is None: self.throw('NameError')
        if v is UNDEF: self.throw('UnboundLocalError')
        if v.op == 'ite' and any(l is UNDEF for l in t.leaves(v)):
            v = self.simpv(v)
            self.raise_if(t.lift(lambda y: TRUE if y is UNDEF else FALSE, (v,)), 'UnboundLocalError')
            v = self.defined(self.simpv(v))
        return v
    def defined(self, v):
        """v where leaving it undefined was excluded"""
        ls = t.leaves(v)
        if not any(l is UNDEF for l in ls): return v
        d = [l for l in ls if l is not UNDEF]
        if not d: raise Dead()
        return t.lift(lambda y: d[0] if y is UNDEF else y, (v,))
    def ev_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s = self.seq_of(self.ev(x.value))
                if s.op != 'tup': raise Unsup('star')
                out += s.a
            else: out.append(self.ev(x))
        return t.tup(out)
    def ev_List(self, e): return self.new_list(self.ev_Tuple(e))
    def ev_Set(self, e): return self.new_set(self.ev_Tuple(e))
    def ev_Dict(self, e):
        ps = []
        for k, v in zip(e.keys, e.values):
            if k is None: raise Unsup('**dict')
            kk = self.ev(k); ps.append((kk, self.ev(v)))
        return self.new_dict(ps)
    def ev_Attribute(self, e): return self.getattr_(self.ev(e.value), self.mangle(e.attr))
    def ev_index(self, e):
        if isinstance(e, ast.Slice):
            lo = self.ev(e.lower) if e.lower is not None else NONE
            hi = self.ev(e.upper) if e.upper is not None else NONE
            st = self.ev(e.step) if e.step is not None else NONE
            return mk('sliceobj', (lo, hi, st), 'sliceobj')
        return self.ev(e)
    def ev_Subscript(self, e):
        o = self.ev(e.value)
        return self.getitem(o, self.ev_index(e.slice))
    def ev_UnaryOp(self, e):
        v = self.ev(e.operand)
        n = type(e.op).__name__
        if n == 'Not': return not_(self.truth(v))
        if n == 'USub': return self.binop('Sub', ZERO, v)
        if n == 'UAdd': return v
        if n == 'Invert': return t.sub(K(-1), v)
    def ev_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        def rec(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1: return v
            c = self.truth(v)
            v = self.simpv(v)
            if isand: return self.branch(c, lambda: rec(i + 1), lambda: self.simpv(v))
            return self.branch(c, lambda: self.simpv(v), lambda: rec(i + 1))
        return rec(0)
    def ev_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))
    def ev_Compare(self, e):
        def rec(left, i):
            right = self.ev(e.comparators[i])
            r = self.compare(type(e.ops[i]).__name__, left, right)
            if i == len(e.ops) - 1: return r
            c = self.truth(r)
            return self.branch(c, lambda: rec(right, i + 1), lambda: FALSE)
        return rec(self.ev(e.left), 0)
    def ev_BinOp(self, e):
        a = self.ev(e.left); b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b)
    def ev_NamedExpr(self, e):
        v = self.ev(e.value); self.assign(e.target, v); return v
    def ev_JoinedStr(self, e):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant): out.append(K(p.value))
            else:
                v = self.ev(p.value)
                spec = ''
                if p.format_spec is not None:
                    s = self.ev(p.format_spec)
                    if not isc(s): raise Unsup('f-string')
                    spec = cv(s)
                out.append(self.models.format_value(self, v, spec, p.conversion))
        return t.cat(out, 'str') if out else K('')
    def ev_Lambda(self, e): return self.mkfunc(e, '<lambda>')
    def mkfunc(self, node, name):
        a = node.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {}
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: kwd[p.arg] = self.ev(d)
        sc = list(self.ctx.scopes)
        if self.ctx.locals is not None: sc = sc + [self.ctx]
        qual = self.ctx.qual + '.' + name
        cls = self.ctx.cls
        f = Func(node, self.ctx.mod, sc, name, qual, defaults, kwd, cls)
        return f.ref
    def comp(self, e, elt):
        """list comprehension -> sequence term"""
        c = self.ctx
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name): names.add(n.id)
        saved = dict((n, self.st.h.get((c.frame, n))) for n in names)
        # the element list lives in a hidden list
        acc = ListO(); acc.name = 'comp'
        self.put(acc, '$seq', t.tup([]))
        node = ast.Expr(ast.Constant(0))
        inner = _Append(acc, elt)
        body = [inner]
        for g in reversed(e.generators):
            for cond in reversed(g.ifs): body = [_mkif(cond, body)]
            body = [_mkfor(g.target, g.iter, body)]
        c.comp += 1
        try: self.block(body)
        finally: c.comp -= 1
        for n, v in saved.items():
            if v is None: self.st.h.pop((c.frame, n), None)
            else: self.st.h[(c.frame, n)] = v
        return self.get(acc, '$seq')
    def s__Append(self, s):
        if isinstance(s.elt, tuple): v = t.tup([self.ev(s.elt[0]), self.ev(s.elt[1])])
        else: v = self.ev(s.elt)
        self.put(s.acc, '$seq', t.seqcat([self.get(s.acc, '$seq'), t.tup([v])]))
    def ev_ListComp(self, e): return self.new_list(self.comp(e, e.elt))
    def ev_GeneratorExp(self, e): return self.comp(e, e.elt)
    def ev_SetComp(self, e): return self.new_set(self.models.to_set(self, self.comp(e, e.elt)))
    def ev_DictComp(self, e):
        s = self.comp(e, (e.key, e.value))
        return self.models.dict_from_seq(self, s)

    # ------------------------------------------------------------ calls
    def ev_Call(self, e):
        loc = (self.ctx.mod.name, e.lineno)
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.seq_of(self.ev(a.value))
                s = self.simpv(s)
                if s.op != 'tup':
                    n = self.simpv(t.length(s))
                    if not isc(n):
                        lo, hi = facts_of(self.st.pc).rng(n)
                        if lo is not None and lo == hi: n = K(lo)
                    if not isc(n): raise Unsup('*args of unknown length')
                    args += [t.seqget(s, K(i)) for i in range(cv(n))]
                else: args += s.a
            else: args.append(self.ev(a))
        parts = [(k.arg, self.ev(k.value)) for k in e.keywords]
        def go(i, kw):
            while i < len(parts) and parts[i][0] is not None: kw = dict(kw, **{parts[i][0]: parts[i][1]}); i += 1
            if i == len(parts):
                self.loc = loc
                return self.call(f, args, kw)
            def one(m):
                if m.op == 'ite': return self.bycase(m, one)
                mm = self.get(m.a[0], '$map') if m.op == 'ref' else m
                if mm.op == 'ite': return self.bycase(mm, one)
                if mm.op != 'map' or mm.a[0] is not None: raise Unsup('**kwargs')
                return go(i + 1, dict(kw, **dict((cv(kk), vv) for kk, vv in mm.a[1])))
            return one(parts[i][1])
        return go(0, {})

    def call(self, f, args, kw=None):
        if kw is None: kw = {}
        if f.op == 'ite': return self.bycase(f, lambda g: self.call(g, args, kw))
        if f.op != 'ref':
            if f.sort in ('int', 'bytes', 'str', 'none', 'seq', 'bool'): self.throw('TypeError')
            h = self.models.call_opaque(self, f, args, kw)
            if h is not None: return h
            raise Unsup('call of %s' % t.show(f))
        o = f.a[0]
        if isinstance(o, BoundM): return self.call(o.func, [o.self_] + list(args), kw)
        if isinstance(o, Builtin):
            ov = self.overrides.get(o.name) if self.overrides and '.' in o.name and o.name[:7] != 'random.' else None
            return o.fn(self, list(args), kw) if ov is None else ov(self, o, list(args), kw)
        if isinstance(o, Func): return self.call_func(o, list(args), kw)
        if isinstance(o, Cls): return self.instantiate(o, list(args), kw)
        if isinstance(o, Inst):
            m = self.cls_attr(o.cls, '__call__')
            if m is not None: return self.call(self.bind(m, f, o.cls), args, kw)
            self.throw('TypeError')
        if isinstance(o, StaticM): return self.call(o.func, args, kw)
        if isinstance(o, Ext): return self.models.ext_call(self, o, list(args), kw)
        self.throw('TypeError')

    def instantiate(self, c, args, kw):
        self.cur_new = c
        h = self.models.instantiate(self, c, args, kw)
        if h is not None: return h
        i = Inst(c)
        if c.builtin and self.exc_cls['BaseException'] in c.mro or self.exc_cls['BaseException'] in c.mro:
            self.put(i, 'args', t.tup(args))
        else: self.put(i, '$inst', TRUE)
        f = self.cls_attr(c, '__init__')
        if f is not None: self.call(self.bind(f, i.ref, c), args, kw)
        elif args or kw:
            if not (self.exc_cls['BaseException'] in c.mro): self.throw('TypeError')
        return i.ref

    def call_func(self, f, args, kw):
        ov = self.overrides.get(f.qual)
        if ov is not None:
            r = ov(self, f, args, kw)
            if r is not None: return r
        if self.depth > 120: raise Unsup('recursion')
        self.stats['calls'] += 1
        self.stats['functions'].add(f.qual)
        node = f.node
        a = node.args
        fr = Frame(f.qual)
        # bind
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(pos):
            if a.vararg is None: self.throw('TypeError')
            vals[a.vararg.arg] = t.tup(args[len(pos):])
        elif a.vararg is not None: vals[a.vararg.arg] = t.tup([])
        for p, v in zip(pos, args): vals[p] = v
        extra = []
        for k, v in kw.items():
            if k in pos[len(a.posonlyargs):] or k in [p.arg for p in a.kwonlyargs]:
                if k in vals: self.throw('TypeError')
                vals[k] = v
            elif a.kwarg is not None: extra.append((K(k), v))
            else: self.throw('TypeError')
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (len(pos) - nd)
                if j < 0: self.throw('TypeError')
                vals[p] = f.defaults[j]
        for p in a.kwonlyargs:
            if p.arg not in vals:
                if p.arg not in f.kwdefaults: self.throw('TypeError')
                vals[p.arg] = f.kwdefaults[p.arg]
        if a.kwarg is not None: vals[a.kwarg.arg] = self.new_dict(extra)
        if not isinstance(node, ast.Lambda) and is_gen(node) and not getattr(fr, 'gen', None):
            if endless(node):
                g = Gen(f, vals); self.put(g, '$pos', ZERO); return g.ref
            return self.eager(f, vals)
        return self.enter(f, fr, vals)
    def eager(self, f, vals):
        """the values of a generator that ends, all at once; it must not touch anything"""
        fr = Frame(f.qual); before = dict(self.st.h)
        out = self.new_list(t.tup([])); fr.gen = (out.a[0], None)
        self.enter(f, fr, vals)
        self.untouched(before, (fr, out.a[0]))
        return out
    def untouched(self, before, own):
        objs = set(k[0] for k in before)
        for k, v in self.st.h.items():
            if before.get(k) is not v and k[0] not in own and not isinstance(k[0], Frame) and (k[0] in objs or k in self.base):
                raise Unsup('generator with effects')
    def taken(self, g):
        """the next value of an endless generator"""
        p = self.simpv(self.get(g, '$pos'))
        if not isc(p): raise Unsup('generator used an unknown number of times')
        i = cv(p)
        if i >= len(g.known):
            st, ex, ctx, d = self.st, self.exits, self.ctx, self.depth
            fr = Frame(g.f.qual); out = []; need = max(64, 2 * (i + 1))
            fr.gen = (out, need)
            before = dict(st.h)
            self.st = st.fork(st.pc); self.exits = []; fr.pc = st.pc
            try:
                try: self.enter(g.f, fr, g.vals)
                except Dead: raise Unsup('generator that ends')
                except Enough: pass
                else: raise Unsup('generator that ends')
                if self.exits: raise Unsup('generator that may raise')
                self.untouched(before, (fr,))
            finally: self.st, self.exits, self.ctx, self.depth = st, ex, ctx, d
            for v in out:
                if v.op == 'ref' and isinstance(v.a[0], (Inst, ListO, DictO, SetO)) : raise Unsup('generator of objects')
            g.known = out
        self.put(g, '$pos', K(i + 1))
        return g.known[i]
    def ev_Yield(self, e):
        g = getattr(self.ctx.frame, 'gen', None)
        if g is None: raise Unsup('yield')
        v = self.ev(e.value) if e.value is not None else NONE
        o, need = g
        if need is None: self.put(o, '$seq', t.seqcat([self.get(o, '$seq'), t.tup([v])])); return NONE
        if self.st.pc is not self.ctx.frame.pc: raise Unsup('generator that branches')
        o.append(v)
        if len(o) >= need: raise Enough()
        return NONE
    def ev_YieldFrom(self, e):
        g = getattr(self.ctx.frame, 'gen', None)
        if g is None or g[1] is not None: raise Unsup('yield from')
        self.put(g[0], '$seq', t.seqcat([self.get(g[0], '$seq'), self.seq_of(self.ev(e.value))]))
        return NONE
    def enter(self, f, fr, vals):
        node = f.node
        for k, v in vals.items(): self.st.h[(fr, k)] = v
        ctx = Ctx(); ctx.frame = fr; ctx.scopes = f.scopes; ctx.mod = f.mod; ctx.locals = local_names(node)
        ctx.cls = f.cls; ctx.curexc = None; ctx.classbody = False; ctx.comp = 0; ctx.qual = f.qual
        old, self.ctx = self.ctx, ctx
        outer, self.exits = self.exits, []
        self.depth += 1
        rets = []
        try:
            if isinstance(node, ast.Lambda):
                try: rets.append((None, self.ev(node.body))); rets[-1] = (self.st, rets[-1][1])
                except Dead: rets = []
            else:
                try:
                    self.block(node.body)
                    rets.append((self.st, NONE))
                except Dead: pass
        finally:
            ex = self.exits
            self.ctx = old; self.exits = outer; self.depth -= 1
        for e in ex:
            if e[0] == 'return': rets.append((e[1], e[2]))
            elif e[0] == 'raise': self.exits.append(e)
            else: raise Unsup('break outside loop')
        if not rets: raise Dead()
        keep = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in walk_own(node))
        if not keep:
            for st, v in rets:
                for k in [k for k in st.h if k[0] is fr]: del st.h[k]
        self.st, v = self.merge(rets)
        return v

    # ------------------------------------------------------------ attributes
    def cls_attr(self, c, name):
        for k in c.mro:
            v = self.get(k, name)
            if v is not None and v is not UNDEF: return v
        return None
    def bind(self, v, self_, cls):
        """descriptor protocol for a value found in the class"""
        def f(v):
            if v.op == 'ref':
                o = v.a[0]
                if isinstance(o, (Func, Builtin)):
                    if getattr(o, 'nobind', False): return v
                    return BoundM(v, self_).ref
                if isinstance(o, StaticM): return o.func
                if isinstance(o, ClassM): return BoundM(o.func, cls.ref).ref
                if isinstance(o, Prop): return self.call(o.fget, [self_], {})
            return v
        return self.bycase(v, f)
    def class_of(self, o):
        """class of a value, None if unknown"""
        if o.op == 'ref' and isinstance(o.a[0], Inst): return o.a[0].cls
        if o.sort == 'obj' and isinstance(o.ext, Cls): return o.ext
        if o.op == 'objval': return o.a[0]
        return None
    def field(self, o, name):
        """instance attribute or None"""
        l = o.a[0] if o.op == 'ref' else o
        v = self.get(l, name)
        if v is not None: return v
        if o.op == 'objval':
            for n, w in o.a[1]:
                if n == name: return self.thaw(w)
            return None
        c = self.class_of(o)
        if o.op == 'ref' and not getattr(o.a[0], 'symbolic', False): return None
        if c is not None:
            for k in c.mro:
                sc = self.schema.get((k.name, name))
                if sc is not None:
                    if callable(sc): v = sc(self, o)
                    else: v = mk('field', (o, name), *sc)
                    self.st.h[(l, name)] = v
                    return v
        return None

    def getattr_(self, o, name, default=None):
        if o.op == 'ite': return self.bycase(o, lambda x: self.getattr_(x, name, default))
        c = self.class_of(o)
        if c is not None:
            ca = self.cls_attr(c, name)
            if ca is not None and ca.op == 'ref' and isinstance(ca.a[0], Prop): return self.bind(ca, o, c)
            v = self.field(o, name)
            if v is not None:
                if v.op == 'ite': v = self.simpv(v)
                if v is UNDEF: v = None
                elif v.op == 'ite' and any(l is UNDEF for l in t.leaves(v)):
                    v = self.simpv(v)
                    isu = t.lift(lambda y: TRUE if y is UNDEF else FALSE, (v,))
                    if ca is not None:
                        w = self.bind(ca, o, c)
                        return ite(isu, w, self.defined(v))
                    if default is None:
                        self.raise_if(isu, 'AttributeError'); return self.defined(self.simpv(v))
                    return ite(isu, default, v)
                else: return v
            if ca is not None: return self.bind(ca, o, c)
            h = self.models.inst_attr(self, o, c, name)
            if h is not None: return h
            if default is not None: return default
            ga = self.cls_attr(c, '__getattr__')
            if ga is not None: return self.call(self.bind(ga, o, c), [K(name)], {})
            self.throw('AttributeError')
        if o.op == 'ref':
            x = o.a[0]
            if isinstance(x, Cls):
                v = self.cls_attr(x, name)
                if v is not None:
                    def f(v):
                        if v.op == 'ref':
                            y = v.a[0]
                            if isinstance(y, StaticM): return y.func
                            if isinstance(y, ClassM): return BoundM(y.func, o).ref
                        return v
                    return self.bycase(v, f)
                if name == '__name__': return K(x.name)
                if name == '__mro__': return t.tup([k.ref for k in x.mro])
                h = self.models.cls_builtin_attr(self, x, name)
                if h is not None: return h
                if default is not None: return default
                self.throw('AttributeError')
            if isinstance(x, Mod):
                v = self.get(x, name)
                if v is not None: return v
                if x.path is None or x.name == 'threading':
                    v = self.models.ext_attr(self, x, name)
                    if v is not None: return v
                elif self.find_module(x.name + '.' + name) and (x.name + '.' + name) in self.mods:
                    return self.mods[x.name + '.' + name].ref
                if default is not None: return default
                self.throw('AttributeError')
            if isinstance(x, SuperO):
                oc = x.obj
                c0 = oc.a[0] if oc.sort == 'cls' else self.class_of(oc)
                if x.cls not in c0.mro and oc.sort == 'cls': c0 = c0.meta or self.type_cls; meta = True
                else: meta = False
                mro = c0.mro[c0.mro.index(x.cls) + 1:]
                for k in mro:
                    v = self.get(k, name)
                    if v is not None:
                        if oc.sort == 'cls' and not meta:
                            y = v.a[0] if v.op == 'ref' else None
                            if isinstance(y, ClassM): return BoundM(y.func, oc).ref
                            if isinstance(y, StaticM): return y.func
                            if k.builtin or isinstance(y, Func) and c0.meta is None and False: return self.bind(v, oc, c0)
                            return v
                        return self.bind(v, oc, c0)
                if oc.sort == 'cls' and x.cls is self.type_cls: pass
                if name == '__init__': return Builtin('object.__init__', lambda I, a, k: NONE).ref
                self.throw('AttributeError')
            if isinstance(x, (Func, BoundM, Builtin)):
                h = self.models.func_attr(self, o, name)
                if h is not None: return h
                if name in ('__name__', '__qualname__'): return K(x.name)
                if name == '__doc__': return NONE
                if default is not None: return default
                v = self.get(x, name)
                if v is not None: return v
                self.throw('AttributeError')
            if isinstance(x, Ext):
                return Ext(x.name + '.' + name).ref
            if isinstance(x, Prop):
                if name == 'setter': return Builtin('setter', lambda I, a, k: Prop(x.fget, a[0]).ref).ref
        v = self.models.method(self, o, name)
        if v is not None: return v
        if default is not None: return default
        if o.sort in ('int', 'bytes', 'str', 'none', 'bool', 'float', 'seq', 'list', 'dict', 'set'): self.throw('AttributeError')
        raise Unsup('attribute %s of %s' % (name, t.show(o)))

    def setattr_(self, o, name, v):
        if o.op == 'ite': return self.bycase(o, lambda x: self.setattr_(x, name, v))
        c = self.class_of(o)
        if c is not None:
            if o.op == 'objval': raise Unsup('store to a frozen object')
            ca = self.cls_attr(c, name)
            if ca is not None and ca.op == 'ref' and isinstance(ca.a[0], Prop):
                if ca.a[0].fset is None: self.throw('AttributeError')
                self.call(ca.a[0].fset, [o, v], {}); return
            self.put(o.a[0] if o.op == 'ref' else o, name, v); return
        if o.op == 'ref' and isinstance(o.a[0], (Cls, Mod, Func, Inst)):
            self.put(o.a[0], name, v); return
        if o.sort in ('int', 'bytes', 'str', 'none', 'bool', 'float', 'seq', 'list', 'dict', 'set'): self.throw('AttributeError')
        raise Unsup('store to attribute %s of %s' % (name, t.show(o)))

    # ------------------------------------------------------------ operators (models.py has the type tables)
    def truth(self, x):
        if x is TRUE or x is FALSE: return x
        return self.models.truth(self, x)
    def binop(self, op, a, b, inplace=False): return self.models.binop(self, op, a, b, inplace)
    def compare(self, op, a, b): return self.models.compare(self, op, a, b)
    def getitem(self, o, i): return self.models.getitem(self, o, i)
    def setitem(self, o, i, v): return self.models.setitem(self, o, i, v)
    def delitem(self, o, i): return self.models.delitem(self, o, i)

    # ------------------------------------------------------------ running an entry point
    def run(self, fn):
        """fn() is evaluated in the current state; -> list of exits [(kind, state, value)]"""
        self.exits = []
        self.ctx = self.ctx or self._topctx()
        out = []
        try:
            v = fn()
            out.append(('return', self.st, v, None))
        except Dead: pass
        out += self.exits
        self.exits = []
        return out
    def _topctx(self):
        c = Ctx(); c.frame = Frame('top'); c.scopes = []; c.mod = None; c.locals = None; c.cls = None
        c.curexc = None; c.classbody = False; c.comp = 0; c.qual = 'top'
        return c

    # ------------------------------------------------------------ structural form of a value
    def reify(self, x, st=None, seen=None, depth=0):
        """replace references to heap objects by their contents"""
        if st is not None:
            old, self.st = self.st, st
            try: return self.reify(x)
            finally: self.st = old
        if seen is None: seen = {}
        if x.op == 'ite': 
            return t.lift(lambda y: self.reify(y, None, seen, depth), (x,))
        if x.op == 'ref':
            o = x.a[0]
            if self._rf is not None and not self._rf(o): return x
            if o in seen: return mk('back', (seen[o],), 'obj')
            if isinstance(o, ListO):
                s2 = dict(seen); s2[o] = depth
                return mk('listv', (self.reify(self.get(o, '$seq'), None, s2, depth + 1),), 'listv')
            if isinstance(o, SetO):
                s = self.get(o, '$seq')
                return mk('setv', (self.reify(s, None, seen, depth + 1),), 'setv')
            if isinstance(o, DictO):
                s2 = dict(seen); s2[o] = depth
                return mk('dictv', (self.reify_map(self.get(o, '$map'), s2, depth + 1),), 'dictv')
            if isinstance(o, Inst):
                s2 = dict(seen); s2[o] = depth
                fs = {}
                for h in (self.base, self.st.h):
                    for (l, n), v in h.items():
                        if l is o and isinstance(n, str) and not n.startswith('$'): fs[n] = v
                flds = tuple((n, self.reify(fs[n], None, s2, depth + 1)) for n in sorted(fs))
                return mk('objval', (o.cls, flds), 'obj', None, None, o.cls)
            if isinstance(o, BoundM): return mk('boundv', (o.func, self.reify(o.self_, None, seen, depth + 1)), 'fn')
            if isinstance(o, Iter): return self.reify(self.seq_of(x), None, seen, depth)
            return x
        if x.op == 'tup': return t.tup([self.reify(y, None, seen, depth) for y in x.a])
        if x.op == 'seqcat': return t.seqcat([self.reify(y, None, seen, depth) for y in x.a])
        if x.op == 'map': return self.reify_map(x, seen, depth)
        return x
    def reify_map(self, m, seen, depth):
        if m.op == 'ite': return t.lift(lambda y: self.reify_map(y, seen, depth), (m,))
        if m.op == 'map':
            base = m.a[0] if m.a[0] is None else self.reify_map(m.a[0], seen, depth)
            items = [(k, self.reify(v, None, seen, depth)) for k, v in m.a[1]]
            if all(isc(k) for k, v in items): items.sort(key=lambda kv: repr(cv(kv[0])))
            # decision nodes inside are lifted out
            if any(v.op == 'ite' for k, v in items) and False: pass
            return mk('map', (base, tuple(items)), 'map')
        return m

EMPTY_MAP = mk('map', (None, ()), 'map')

class _Append(ast.stmt):
    _fields = ()
    def __init__(self, acc, elt): self.acc = acc; self.elt = elt; self.lineno = 0
def _mkif(c, body):
    n = ast.If(test=c, body=body, orelse=[]); n.lineno = getattr(c, 'lineno', 0); return n
def _mkfor(tg, it, body):
    n = ast.For(target=tg, iter=it, body=body, orelse=[]); n.lineno = getattr(it, 'lineno', 0); return n
