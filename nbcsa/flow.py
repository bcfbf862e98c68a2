"""Whole-program flow of classes, functions and modules (a subset-based points-to analysis over the syntax trees of /repo/nbc,
insensitive to flow and context) and the call graph it gives.

A value is a set of tokens:
 ('mod', name)            a module of the package            ('ext', path)         something outside of it, by its dotted path
 ('cls', C) ('inst', C)   a class and its instances          ('extinst', path)     what a call of ('ext', path) returns
 ('fn', F) ('bm', F, rcv) a function, a bound method         ('b', type)           a value of a builtin type
 ('cont', type, site)     a container made at a site         ('bmeth', type, name, rcv)  a method of a builtin value
 ('prop', getters, setters) ('static', toks) ('classm', F)   ('super', C, rcv)     ?  anything
"""
import ast, os, builtins, importlib
from .env import REPO
Q = '?'
PKG = 'nbc'
SKIP = ('test_pyecdsa',)
TYPES = {'str': str, 'bytes': bytes, 'bytearray': bytearray, 'int': int, 'float': float, 'bool': bool, 'list': list, 'dict': dict, 'tuple': tuple, 'set': set,
         'frozenset': frozenset, 'dict_keys': type({}.keys()), 'dict_values': type({}.values()), 'dict_items': type({}.items()), 'map': map, 'filter': filter,
         'zip': zip, 'range': range, 'generator': type(x for x in ()), 'enumerate': enumerate, 'reversed': reversed, 'function': type(lambda: 0), 'slice': slice, 'complex': complex, 'NoneType': type(None)}
CONT = ('list', 'dict', 'tuple', 'set', 'generator')
# modules of other Python versions, whose absence from this interpreter means nothing
GONE = ('asyncore', 'asynchat', 'six', 'imp', 'miniupnpc', 'urllib2', 'Queue', 'StringIO', 'cStringIO')
DISPATCHER = set('''debug connected accepting connecting closing addr ignore_log_types socket add_channel del_channel create_socket set_socket set_reuse_addr readable writable listen bind connect
accept send recv close log log_info handle_read_event handle_connect_event handle_write_event handle_expt_event handle_error handle_expt handle_read handle_write handle_connect handle_accept handle_accepted
handle_close _fileno _map family_and_type'''.split())
PY2_ONLY = {'basestring', 'unicode', 'xrange', 'long', 'raw_input', 'unichr', 'reduce', 'file', 'execfile', 'cmp', 'reload', 'buffer', 'apply', 'coerce', 'intern'}
BUILTINS = set(dir(builtins)) - {'copyright', 'credits', 'license', 'exit', 'quit'} | {'__file__', '__name__', '__doc__', '__package__', '__path__', '__spec__', '__builtins__', 'exit', 'quit', 'WindowsError'}


class Fn(object):
    def __init__(self, node, mod, scope, cls, name):
        self.node = node; self.mod = mod; self.scope = scope; self.cls = cls; self.name = name
        self.vars = {}; self.ret = set(); self.calls = []; self.narrow = {}
        a = node.args
        self.params = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.ndef = len(a.defaults)
        self.globals = set(); self.nonlocals = set()
        self.locals = set(self.params) | set(self.kwonly) | {x for x in (self.vararg, self.kwarg) if x}
        self.isgen = False
        self.kind = None            # static, class
        body = node.body if isinstance(node.body, list) else [node.body]
        for st in body: self.scan(st)
        self.locals -= self.globals | self.nonlocals
        self.consts = {n.value for st in body for n in ast.walk(st) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    def scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list: self.scan(d)
            return
        if isinstance(n, ast.Lambda): return
        if isinstance(n, ast.Global): self.globals |= set(n.names)
        if isinstance(n, ast.Nonlocal): self.nonlocals |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): self.locals.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: self.locals.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names: self.locals.add((x.asname or x.name).split('.')[0])
        if isinstance(n, (ast.Yield, ast.YieldFrom)): self.isgen = True
        for c in ast.iter_child_nodes(n): self.scan(c)
    @property
    def qual(self): return '%s.%s' % (self.mod.name, self.name)
    def __repr__(self): return '<fn %s>' % self.qual


class Cls(object):
    def __init__(self, node, mod, name):
        self.node = node; self.mod = mod; self.name = name
        self.bases = []; self.attrs = {}; self.iattrs = {}; self.subs = []; self.extbases = set(); self.open = False; self.metaof = []
    @property
    def qual(self): return '%s.%s' % (self.mod.name, self.name)
    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out: out.append(c)
        return out
    def family(self):
        out = []; todo = [self]
        while todo:
            c = todo.pop()
            if c in out: continue
            out.append(c); todo.extend(c.subs)
        for c in list(out):
            for d in c.mro():
                if d not in out: out.append(d)
        return out
    def __repr__(self): return '<class %s>' % self.qual


class Mod(object):
    def __init__(self, name, path, tree, ispkg):
        self.name = name; self.path = path; self.tree = tree; self.ispkg = ispkg; self.vars = {}; self.calls = []; self.mod = self
        self.all = None; self.scope = None; self.cls = None; self.globals = set(); self.nonlocals = set(); self.consts = set(); self.star = []
        self.assigned = set(); self.narrow = {}
    @property
    def qual(self): return self.name


class Program(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}; self.fns = {}; self.classes = {}; self.elems = {}; self.vals = {}; self.changed = True
        self.injected = set(); self.strings = set(); self.files = set(); self.by_name = {}
        for d, ds, fs in os.walk(os.path.join(self.root, PKG)):
            ds[:] = sorted(x for x in ds if not x.startswith(('.', '__pycache__')))
            rel = os.path.relpath(d, self.root).replace(os.sep, '.')
            for f in sorted(fs):
                self.files.add(rel + '.' + f.split('.')[0])
                if not f.endswith('.py') or f[:-3] in SKIP: continue
                p = os.path.join(d, f)
                ispkg = f == '__init__.py'
                name = rel if ispkg else rel + '.' + f[:-3]
                self.mods[name] = Mod(name, p, ast.parse(open(p, encoding='utf-8').read(), p), ispkg)
        self.reports = {}; self.unknown = []; self.partials = []; self.threads = {}
        self.final = False
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n): c.parent = n
                if isinstance(n, ast.Constant) and isinstance(n.value, str): self.strings.add(n.value)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)): pass
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global): m.assigned |= set(n.names)
        self.rounds = 0
        while self.changed and self.rounds < 60:
            self.changed = False; self.rounds += 1
            self.sweep()
        self.final = True
        for f in self.everything(): f.calls = []
        self.count = {k: {} for k in ('name', 'attribute', 'call', 'import')}
        self.stats = {'names': 0, 'attributes': 0, 'attributes_unknown': 0, 'calls': 0, 'calls_unknown': 0, 'imports': 0}
        self.sweep()
    def everything(self): return list(self.mods.values()) + list(self.fns.values())
    def sweep(self):
        for m in self.mods.values(): self.body(m.tree.body, m)
        done = set()
        while True:
            todo = [k for k in self.fns if k not in done]
            if not todo: break
            for k in todo:
                done.add(k)
                f = self.fns[k]
                self.enter(f)
    def selfs(self, f):
        c = f.cls
        if c is None or not f.params or isinstance(f.node, ast.Lambda) and f.params[0] not in ('s', 'self'): return
        kinds = {x[0] for x in c.attrs.get(f.name.split('.')[-1], ()) if x[0] != 'fn' and any(g == ('fn', f) for y in x[1:] if isinstance(y, frozenset) for g in y)}
        if 'static' in kinds: return
        f.selfparam = f.params[0]
        if 'classm' in kinds or f.name.endswith('.__new__'): self.addvar(f, f.params[0], {('cls', c)})
        elif 'type' in c.extbases:
            for d in c.metaof: self.addvar(f, f.params[0], {('cls', e) for e in [d] + d.subs_all()})
        else: self.addvar(f, f.params[0], {('inst', c)})
    def enter(self, f):
        n = f.node
        self.selfs(f)
        if f.vararg: self.addvar(f, f.vararg, self.cont('tuple', n, ()))
        if f.kwarg: self.addvar(f, f.kwarg, self.cont('dict', n.args, ()))
        if isinstance(n, ast.Lambda): self.add(f.ret, self.ev(n.body, f), 'ret')
        else: self.body(n.body, f)
        if f.isgen: self.add(f.ret, {('cont', 'generator', id(n))})

    # ------------------------------------------------------------ sets
    def add(self, s, toks, what=None):
        n = len(s)
        s |= set(toks)
        if len(s) > 60: s.clear(); s.add(Q)
        if len(s) != n:
            if Q in s and len(s) == 1 and n == 1: return
            self.changed = True
    def addvar(self, sc, name, toks):
        if name == getattr(sc, 'selfparam', None): toks = set(toks) - {Q}; sc.vars.setdefault(name, set()).discard(Q)
        self.add(sc.vars.setdefault(name, set()), toks)
    def tick(self, k, sc): self.count[k][sc.mod.name] = self.count[k].get(sc.mod.name, 0) + 1
    def probing(self, kind, node):
        """is the failure of this lookup foreseen by a handler around it?"""
        want = {'name': ('NameError', 'UnboundLocalError'), 'import': ('ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException', None), 'attribute': ('AttributeError',), 'call': ('TypeError',)}[kind]
        n = node
        while getattr(n, 'parent', None) is not None:
            p = n.parent
            if isinstance(p, (ast.FunctionDef, ast.Lambda)): return False
            if isinstance(p, ast.Try) and n in p.body:
                for h in p.handlers:
                    ts = [None] if h.type is None else [x.id if isinstance(x, ast.Name) else getattr(x, 'attr', None) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if any(x in want for x in ts): return True
                    if kind == 'name' and len(p.body) == 1 and any(x in (None, 'Exception') for x in ts):
                        b = p.body[0]
                        if isinstance(b, (ast.Expr, ast.Assign)) and isinstance(b.value, ast.Name): return True
            n = p
        return False
    def report(self, kind, node, sc, text):
        if self.final and kind == 'attribute' and isinstance(node, ast.Attribute) and node.attr in getattr(sc, 'consts', ()) and 'hasattr' in ast.dump(getattr(sc, 'node', ast.Pass())): return
        if self.final and not self.probing(kind, node):
            self.reports.setdefault((kind, sc.mod.path, node.lineno, node.col_offset), (kind, sc, node, text))

    # ------------------------------------------------------------ statements
    def dead(self, st):
        return isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break))
    def body(self, sts, sc):
        for st in sts:
            self.stmt(st, sc)
            if self.dead(st): break
    def guard(self, e, sc):
        """truth of a test that only depends on the version of Python (None: unknown)"""
        s = ast.dump(e)
        if isinstance(e, ast.Name) and e.id == 'PY3' or isinstance(e, ast.Attribute) and e.attr == 'PY3': return True
        if isinstance(e, ast.Name) and e.id == 'PY2' or isinstance(e, ast.Attribute) and e.attr == 'PY2': return False
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            g = self.guard(e.operand, sc); return None if g is None else not g
        if isinstance(e, ast.Constant): return bool(e.value)
        if 'version_info' in s and isinstance(e, ast.Compare) and len(e.ops) == 1:
            class V(object): version_info = (3, 8, 0)
            try: return bool(eval(compile(ast.Expression(body=e), 'guard', 'eval'), {'sys': V, 'version_info': (3, 8, 0), '__builtins__': {}}))
            except Exception: return None
        return None
    def stmt(self, st, sc):
        T = type(st)
        if T in (ast.FunctionDef, ast.AsyncFunctionDef):
            v = self.fn(st, sc, st.name)
            for d in reversed(st.decorator_list): v = self.decorate(d, v, sc)
            self.bind(ast.Name(id=st.name, ctx=ast.Store()), v, sc)
        elif T is ast.ClassDef: self.clsdef(st, sc)
        elif T is ast.Return:
            if st.value is not None: self.add(sc.ret, self.ev(st.value, sc))
            else: self.add(sc.ret, {('b', 'NoneType')})
        elif T is ast.Assign:
            v = self.ev(st.value, sc)
            for x in st.targets: self.bind(x, v, sc)
        elif T is ast.AnnAssign:
            if st.value is not None: self.bind(st.target, self.ev(st.value, sc), sc)
        elif T is ast.AugAssign:
            load = ast.copy_location(type(st.target)(**{f: getattr(st.target, f) for f in st.target._fields}), st.target); load.ctx = ast.Load()
            load.parent = getattr(st.target, 'parent', None)
            a = self.ev(load, sc); b = self.ev(st.value, sc)
            self.bind(st.target, self.binop(st.op, a, b, st), sc)
        elif T is ast.For:
            self.bind(st.target, self.items(self.ev(st.iter, sc)), sc)
            self.body(st.body, sc); self.body(st.orelse, sc)
        elif T is ast.While:
            self.ev(st.test, sc); self.body(st.body, sc); self.body(st.orelse, sc)
        elif T is ast.If:
            g = self.guard(st.test, sc)
            self.ev(st.test, sc)
            if g is not False:
                nar = self.narrowed(st, sc)
                old = dict(sc.narrow)
                sc.narrow.update(nar)
                self.body(st.body, sc)
                sc.narrow.clear(); sc.narrow.update(old)
            if g is not True: self.body(st.orelse, sc)
        elif T is ast.With:
            for i in st.items:
                v = self.ev(i.context_expr, sc)
                self.called_by_name(sc, i.context_expr, v, '__enter__')
                if i.optional_vars is not None:
                    out = set()
                    for k in v:
                        if k[0] == 'inst': out |= self.call_tokens(self.attr_of(k, '__enter__'), [], {}, i.context_expr, sc, quiet=True)
                        elif k == ('extinst', 'open'): out.add(k)
                        else: out.add(Q)
                    self.bind(i.optional_vars, out, sc)
            self.body(st.body, sc)
        elif T is ast.Try or T.__name__ == 'TryStar':
            self.body(st.body, sc)
            for h in st.handlers:
                v = {Q}
                if h.type is not None:
                    v = set()
                    ts = self.ev(h.type, sc)
                    for k in ts:
                        if k[0] == 'cont': ts = ts | self.elems.get(k[2], set())
                    for k in ts:
                        if k[0] == 'cls': v.add(('inst', k[1]))
                        elif k[0] == 'ext' : v.add(('extinst', k[1]))
                        elif k[0] != 'cont': v.add(Q)
                if h.name: self.bind(ast.Name(id=h.name, ctx=ast.Store()), v, sc)
                self.body(h.body, sc)
            self.body(st.orelse, sc); self.body(st.finalbody, sc)
        elif T is ast.Raise:
            if st.exc is not None: self.ev(st.exc, sc)
        elif T is ast.Expr: self.ev(st.value, sc)
        elif T is ast.Assert:
            self.ev(st.test, sc)
            if st.msg is not None: self.ev(st.msg, sc)
        elif T is ast.Delete:
            for x in st.targets:
                if isinstance(x, ast.Subscript): self.ev(x.value, sc); self.ev(x.slice, sc)
        elif T is ast.Import:
            for x in st.names:
                self.imported(st, sc, x.name, None)
                if x.asname: self.bind(ast.Name(id=x.asname, ctx=ast.Store()), {self.module(x.name)}, sc)
                else: self.bind(ast.Name(id=x.name.split('.')[0], ctx=ast.Store()), {self.module(x.name.split('.')[0])}, sc)
        elif T is ast.ImportFrom: self.importfrom(st, sc)
    def narrowed(self, st, sc):
        out = {}
        for x in st.test.values if isinstance(st.test, ast.BoolOp) and isinstance(st.test.op, ast.And) else [st.test]:
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'isinstance' and len(x.args) == 2 and isinstance(x.args[0], ast.Name):
                n = x.args[0].id
                if any(isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Store) for b in st.body for y in ast.walk(b)): continue
                ks = self.ev(x.args[1], sc)
                if ks and all(k[0] == 'cls' for k in ks): out[n] = {('inst', k[1]) for k in ks}
        return out
    def module(self, name):
        return ('mod', name) if name in self.mods else ('ext', name)
    def imported(self, st, sc, mod, name):
        """does this import of something outside the package resolve?"""
        if self.final: self.stats['imports'] += 1; self.tick('import', sc)
        if mod.split('.')[0] == PKG:
            if mod not in self.mods: self.report('import', st, sc, 'no module %s' % mod)
            return
        m = ext_module(mod)
        if m is False: self.report('import', st, sc, 'no module %s' % mod)
        elif m is not None and name is not None and not hasattr(m, name) and ext_module(mod + '.' + name) in (None, False):
            self.report('import', st, sc, 'module %s has no %s' % (mod, name))
    def importfrom(self, st, sc):
        if st.level:
            parts = sc.mod.name.split('.')
            if not sc.mod.ispkg: parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            base = '.'.join(parts + ([st.module] if st.module else []))
        else: base = st.module
        if base not in self.mods:
            if base.split('.')[0] == PKG:
                self.report('import', st, sc, 'no module %s' % base)
                return
            for x in st.names:
                if x.name == '*': continue
                self.imported(st, sc, base, x.name)
                v = {('ext', base + '.' + x.name)}
                self.bind(ast.Name(id=x.asname or x.name, ctx=ast.Store()), v, sc)
            return
        m = self.mods[base]
        for x in st.names:
            if self.final: self.stats['imports'] += 1; self.tick('import', sc)
            if x.name == '*':
                names = m.all if m.all is not None else [n for n in m.vars if not n.startswith('_')]
                for n in names:
                    if n in m.vars: self.addvar(sc, n, m.vars[n])
                    elif self.final and base + '.' + n not in self.files: self.report('import', st, sc, '%s.__all__ names %s, which is not there' % (base, n))
                continue
            v = set()
            if x.name in m.vars: v |= m.vars[x.name]
            if base + '.' + x.name in self.mods: v.add(('mod', base + '.' + x.name))
            elif base + '.' + x.name in self.files and not v: v.add(('ext', x.name))
            if not v and x.name not in m.vars: self.report('import', st, sc, '%s has no %s' % (base, x.name))
            self.bind(ast.Name(id=x.asname or x.name, ctx=ast.Store()), v, sc)
    def fn(self, node, sc, name):
        f = self.fns.get(id(node))
        if f is None:
            cls = sc if isinstance(sc, ClsScope) else None
            outer = sc.scope if cls else sc
            f = Fn(node, sc.mod, outer, cls.c if cls else None, (sc.name_ + '.' if sc.name_ else '') + name)
            self.fns[id(node)] = f
            self.changed = True
            self.by_name.setdefault(name, []).append(f)
            f.defsc = sc
        for p, d in zip(reversed(f.params), reversed(node.args.defaults)): self.addvar(f, p, self.ev(d, sc))
        for p, d in zip(f.kwonly, node.args.kw_defaults):
            if d is not None: self.addvar(f, p, self.ev(d, sc))
        return {('fn', f)}
    def decorate(self, d, v, sc):
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter', 'getter'):
            old = self.ev(d.value, sc)
            out = set()
            for k in old:
                if k[0] == 'prop': out.add(('prop', k[1], frozenset(v) if d.attr == 'setter' else k[2]))
            return out or {Q}
        out = set()
        for k in self.ev(d, sc):
            if k == ('ext', 'property'): out.add(('prop', frozenset(v), frozenset()))
            elif k == ('ext', 'staticmethod'): out.add(('static', frozenset(v)))
            elif k == ('ext', 'classmethod'): out.add(('classm', frozenset(v)))
            elif k[0] == 'ext' and k[1].startswith('functools.wraps'): out |= v
            elif k[0] == 'fn': out |= self.call_tokens({k}, [v], {}, d, sc)
            else: out.add(Q)
        return out or {Q}
    def clsdef(self, node, sc):
        c = self.classes.get(id(node))
        if c is None:
            c = self.classes[id(node)] = Cls(node, sc.mod, (sc.name_ + '.' if sc.name_ else '') + node.name); self.changed = True
        for b in node.bases:
            for k in self.ev(b, sc):
                if k[0] == 'cls':
                    if k[1] is not c and k[1] not in c.bases and c not in k[1].mro(): c.bases.append(k[1]); k[1].subs.append(c); self.changed = True
                elif k[0] == 'ext':
                    if k[1] not in c.extbases: c.extbases.add(k[1]); self.changed = True
                else: c.open = True
        meta = False; ms = set()
        for k in node.keywords: ms |= self.ev(k.value, sc)
        for d in node.decorator_list:
            self.ev(d, sc); meta = True
            if isinstance(d, ast.Call):
                for a in d.args: ms |= self.ev(a, sc)
        for k in ms:
            if k[0] == 'cls' and c not in k[1].metaof and 'type' in k[1].extbases: k[1].metaof.append(c); self.changed = True
        if node.keywords or meta: c.open = True
        self.body(node.body, ClsScope(c, sc, self))
        self.bind(ast.Name(id=node.name, ctx=ast.Store()), {('cls', c)}, sc)

    # ------------------------------------------------------------ binding
    def bind(self, x, v, sc):
        T = type(x)
        if T is ast.Name:
            if isinstance(sc, ClsScope):
                self.add(sc.c.attrs.setdefault(x.id, set()), v)
            else:
                s = sc
                if x.id in sc.globals: s = sc.mod
                elif x.id in sc.nonlocals:
                    s = sc.scope
                    while isinstance(s, Fn) and x.id not in s.locals: s = s.scope
                self.addvar(s, x.id, v)
                if s is sc.mod and x.id == '__all__': self.note_all(sc.mod)
        elif T in (ast.Tuple, ast.List):
            it = None
            for i, y in enumerate(x.elts):
                if isinstance(y, ast.Starred): self.bind(y.value, {('cont', 'list', id(y))}, sc); self.add(self.elems.setdefault(id(y), set()), self.items(v)); continue
                w = set()
                for k in v:
                    if k[0] == 'cont' and ('i', k[2], i) in self.elems: w |= self.elems[('i', k[2], i)]
                    else: w |= self.items({k})
                self.bind(y, w, sc)
        elif T is ast.Starred: self.bind(x.value, v, sc)
        elif T is ast.Attribute:
            for k in self.ev(x.value, sc):
                if k[0] in ('inst', 'cls'):
                    p = self.lookup(k[1], x.attr)
                    ps = [t for t in p if t[0] == 'prop'] if k[0] == 'inst' else []
                    if ps:
                        for t in ps:
                            self.call_tokens(t[2], [{k}, v], {}, x, sc)
                            if self.final and not t[2]: self.report('attribute', x, sc, 'property %s of %s has no setter' % (x.attr, k[1].name))
                    else:
                        self.add((k[1].iattrs if k[0] == 'inst' else k[1].attrs).setdefault(x.attr, set()), v)
                        if k[0] == 'cls':
                            for y in v:
                                if y[0] == 'fn' and y[1].cls is None and y[1].params: self.addvar(y[1], y[1].params[0], {('inst', k[1])})
                elif k[0] == 'mod': self.addvar(self.mods[k[1]], x.attr, v)
                elif k == Q:
                    if x.attr not in self.injected: self.injected.add(x.attr); self.changed = True
        elif T is ast.Subscript:
            i = self.ev(x.slice, sc)
            for k in self.ev(x.value, sc):
                if k[0] == 'cont':
                    if k[1] == 'dict': self.add(self.elems.setdefault(('k', k[2]), set()), i)
                    self.add(self.elems.setdefault(k[2], set()), v if not isinstance(x.slice, ast.Slice) else self.items(v))
                elif k[0] == 'inst':
                    self.call_tokens(self.attr_of(k, '__setitem__'), [i, v], {}, x, sc, quiet=True)
    def note_all(self, m):
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in st.targets):
                try: m.all = list(ast.literal_eval(st.value))
                except ValueError: pass

    # ------------------------------------------------------------ containers
    def cont(self, kind, node, elems, keys=None, idx=None):
        s = id(node)
        self.add(self.elems.setdefault(s, set()), elems)
        if keys is not None: self.add(self.elems.setdefault(('k', s), set()), keys)
        if idx is not None:
            for i, e in enumerate(idx): self.add(self.elems.setdefault(('i', s, i), set()), e)
        return {('cont', kind, s)}
    def items(self, v):
        """what iterating over it gives"""
        out = set()
        for k in v:
            if k[0] == 'cont': out |= self.elems.get(('k', k[2]) if k[1] == 'dict' else k[2], set()) or ({Q} if k[1] not in ('list', 'dict', 'tuple', 'set') else set())
            elif k == ('b', 'str'): out.add(k)
            elif k[0] == 'b' and k[1] in ('bytes', 'bytearray', 'range'): out.add(('b', 'int'))
            elif k[0] == 'inst':
                m = self.attr_of(k, '__iter__')
                out.add(Q)
            elif k[0] == 'b' and k[1] in ('int', 'float', 'NoneType', 'bool'): pass
            else: out.add(Q)
        return out

    # ------------------------------------------------------------ lookup
    def lookup(self, c, name):
        """class-level attribute, searched upwards and in the classes derived from it"""
        for d in c.mro():
            if name in d.attrs: return d.attrs[name]
        return set()
    def attr_of(self, k, name, deep=True):
        """tokens of the attribute of one token; None when it can not exist"""
        t = k[0]
        if k == Q: return {Q}
        if t == 'mod':
            m = self.mods[k[1]]
            if name in m.vars: return m.vars[name]
            if k[1] + '.' + name in self.mods: return {('mod', k[1] + '.' + name)}
            if name in ('__name__', '__doc__', '__file__', '__path__', '__all__', '__dict__', '__version__'): return {Q}
            if name in m.assigned: return {Q}
            return None
        if t == 'ext':
            p = k[1] + '.' + name
            has = ext_has(k[1], name)
            if has is False: return None
            return {('ext', p)}
        if t == 'inst':
            c = k[1]; out = set(); found = False
            names = []
            for d in c.mro():
                if name in d.attrs: names.append(d.attrs[name]); break
            for d in c.subs_all():
                if name in d.attrs: names.append(d.attrs[name])
            for s in names:
                found = True
                for x in s: out |= self.bound(x, k, c)
            for d in c.family():
                if name in d.iattrs: found = True; out |= d.iattrs[name]
            if found: return out
            if name == '__class__': return {('cls', c)}
            if hasattr(object, name) or name in ('__dict__', '__module__'): return {Q}
            if any(d.open for d in c.family()) and name in self.strings: return {Q}
            if any(self.lookup_plain(d, '__getattr__') or self.lookup_plain(d, '__getattribute__') for d in c.family()): return {Q}
            for d in c.family():
                for e in d.extbases:
                    h = ext_inst_has(e, name)
                    if h is None: return {Q}
                    if h: return {('ext', e + '().' + name)}
            if name in self.injected: return {Q}
            return None
        if t == 'cls':
            c = k[1]
            for d in c.mro():
                if name in d.attrs:
                    out = set()
                    for x in d.attrs[name]:
                        if x[0] == 'static': out |= set(x[1])
                        elif x[0] == 'classm': out |= {('bm', f[1], k) for f in x[1] if f[0] == 'fn'}
                        else: out.add(x)
                    for d2 in c.subs_all():
                        if name in d2.attrs and any(x[0] not in ('fn', 'static', 'classm', 'prop') for x in d2.attrs[name]): out |= {x for x in d2.attrs[name]}
                    return out
            if hasattr(type, name) or name in ('__dict__', '__module__'): return {Q}
            if any(d.open for d in c.mro()) and name in self.strings: return {Q}
            for d in c.mro():
                for e in d.extbases:
                    h = ext_inst_has(e, name)
                    if h is None: return {Q}
                    if h: return {('ext', e + '.' + name)}
            if any(name in d.attrs or name in d.iattrs for d in c.subs_all()): return {Q}
            if name in self.injected: return {Q}
            return None
        if t == 'super':
            c = k[1]
            for d in c.mro()[1:]:
                if name in d.attrs:
                    out = set()
                    for x in d.attrs[name]: out |= self.bound(x, k[2], d) if k[2][0] == 'inst' else ({('bm', f[1], k[2]) for f in x[1] if f[0] == 'fn'} if x[0] == 'classm' else {x})
                    return out
            return {Q}
        if t == 'b' or t == 'cont':
            T = TYPES.get(k[1])
            if T is None: return {Q}
            if not hasattr(T, name): return None
            return {('bmeth', k[1], name, k)}
        if t == 'extinst':
            h = ext_inst_has(k[1], name)
            if h is False: return None
            return {('ext', k[1] + '().' + name)}
        if t in ('fn', 'bm', 'bmeth'):
            if hasattr(TYPES['function'], name) or name in ('__self__', '__func__', 'im_func', 'im_self'): return {Q}
            if name in self.injected or t == 'fn': return {Q}
            return None
        return {Q}
    def lookup_plain(self, c, name): return c.attrs.get(name)
    def bound(self, x, k, c):
        if x[0] == 'fn': return {('bm', x[1], k)}
        if x[0] == 'static': return set(x[1])
        if x[0] == 'classm': return {('bm', f[1], ('cls', c)) for f in x[1] if f[0] == 'fn'}
        if x[0] == 'prop':
            out = set()
            for g in x[1]:
                if g[0] == 'fn': out |= self.invoke(g[1], [{k}], {}, None)
                else: out.add(Q)
            return out
        return {x}

    # ------------------------------------------------------------ expressions
    def ev(self, e, sc):
        if isinstance(sc, ClsScope): sc.note(e)
        v = self.ev1(e, sc)
        return v
    def name(self, e, sc):
        n = e.id
        if n in sc.narrow: return sc.narrow[n]
        if self.final: self.stats['names'] += 1; self.tick('name', sc)
        if isinstance(sc, ClsScope):
            if n in sc.c.attrs: return sc.c.attrs[n]
            sc = sc.outer_fn()
        s = sc
        while isinstance(s, Fn):
            if n in s.locals and n not in s.globals:
                return s.vars.get(n, set())
            if n in s.globals: s = s.mod; break
            s = s.scope
            while isinstance(s, ClsScope): s = s.outer_fn()
        m = sc.mod
        if n in m.vars: return m.vars[n]
        if n in BUILTINS: return {('ext', n)} if n not in ('True', 'False', 'None') else set()
        if n not in m.assigned: self.report('name', e, sc, 'the name %s is not defined%s' % (n, ' in Python 3' if n in PY2_ONLY else ''))
        return {Q}
    def ev1(self, e, sc):
        T = type(e)
        if T is ast.Constant:
            v = e.value
            if v is None: return {('b', 'NoneType')}
            return {('b', type(v).__name__)}
        if T is ast.JoinedStr:
            for x in e.values:
                if isinstance(x, ast.FormattedValue): self.ev(x.value, sc); self.textof(x.value, sc)
            return {('b', 'str')}
        if T is ast.Name: return self.name(e, sc)
        if T is ast.Attribute: return self.attribute(e, sc)
        if T is ast.Call: return self.call(e, sc)
        if T is ast.BinOp: return self.binop(e.op, self.ev(e.left, sc), self.ev(e.right, sc), e, sc)
        if T is ast.UnaryOp:
            v = self.ev(e.operand, sc)
            if isinstance(e.op, ast.Not): return {('b', 'bool')}
            return v if all(k[0] == 'b' for k in v) else {Q}
        if T is ast.BoolOp:
            out = set()
            for x in e.values: out |= self.ev(x, sc)
            return out
        if T is ast.Compare:
            self.ev(e.left, sc)
            for x in e.comparators: self.ev(x, sc)
            for op, l, r in zip(e.ops, [e.left] + e.comparators, e.comparators):
                n = {ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.Lt: '__lt__', ast.In: '__contains__', ast.NotIn: '__contains__'}.get(type(op))
                if n: self.called_by_name(sc, e, self.ev(r if 'contains' in n else l, sc), n)
            return {('b', 'bool')}
        if T is ast.IfExp:
            self.ev(e.test, sc)
            g = self.guard(e.test, sc)
            if g is True: return self.ev(e.body, sc)
            if g is False: return self.ev(e.orelse, sc)
            return self.ev(e.body, sc) | self.ev(e.orelse, sc)
        if T in (ast.List, ast.Tuple, ast.Set):
            vs = [self.items(self.ev(x.value, sc)) if isinstance(x, ast.Starred) else self.ev(x, sc) for x in e.elts]
            el = set().union(*vs) if vs else set()
            return self.cont({ast.List: 'list', ast.Tuple: 'tuple', ast.Set: 'set'}[T], e, el, idx=vs if T is not ast.Set and not any(isinstance(x, ast.Starred) for x in e.elts) and len(vs) < 20 else None)
        if T is ast.Dict:
            ks = set(); vs = set()
            for k, v in zip(e.keys, e.values):
                if k is not None: ks |= self.ev(k, sc)
                vs |= self.ev(v, sc)
            return self.cont('dict', e, vs, ks)
        if T in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            inner = self.comp_scope(e, sc)
            for g in e.generators:
                self.bind(g.target, self.items(self.ev(g.iter, inner)), inner)
                for c in g.ifs: self.ev(c, inner)
            if T is ast.DictComp: return self.cont('dict', e, self.ev(e.value, inner), self.ev(e.key, inner))
            return self.cont({ast.ListComp: 'list', ast.SetComp: 'set', ast.GeneratorExp: 'generator'}[T], e, self.ev(e.elt, inner))
        if T is ast.Subscript:
            v = self.ev(e.value, sc); i = self.ev(e.slice, sc)
            out = set()
            for k in v:
                if isinstance(e.slice, ast.Slice): out |= {k} if k[0] in ('b', 'cont') else {Q}
                elif k[0] == 'cont':
                    j = e.slice.value if isinstance(e.slice, ast.Constant) else None
                    if k[1] != 'dict' and isinstance(j, int) and ('i', k[2], j) in self.elems and k[1] == 'tuple': out |= self.elems[('i', k[2], j)]
                    else: out |= self.elems.get(k[2], set())
                elif k == ('b', 'str'): out.add(k)
                elif k[0] == 'b' and k[1] in ('bytes', 'bytearray', 'range'): out.add(('b', 'int'))
                elif k[0] == 'inst': out |= self.call_tokens(self.attr_of(k, '__getitem__'), [i], {}, e, sc, quiet=True)
                elif k == ('b', 'NoneType'): pass
                else: out.add(Q)
            return out
        if T is ast.Slice:
            for x in (e.lower, e.upper, e.step):
                if x is not None: self.ev(x, sc)
            return {('b', 'slice')}
        if T is ast.Lambda: return self.fn(e, sc, '<lambda>')
        if T is ast.Starred: return self.ev(e.value, sc)
        if T in (ast.Yield,):
            v = self.ev(e.value, sc) if e.value is not None else {('b', 'NoneType')}
            f = sc
            while not isinstance(f, Fn): f = f.scope
            self.add(self.elems.setdefault(id(f.node), set()), v)
            return {Q}
        if T.__name__ == 'NamedExpr':
            v = self.ev(e.value, sc); self.bind(e.target, v, sc); return v
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr): self.ev(c, sc)
        return {Q}
    def comp_scope(self, e, sc):
        if isinstance(sc, ClsScope): return sc.inner
        f = self.fns_comp.get(id(e)) if hasattr(self, 'fns_comp') else None
        if f is None:
            if not hasattr(self, 'fns_comp'): self.fns_comp = {}
            f = CompScope(e, sc, self); self.fns_comp[id(e)] = f
        return f
    def binop(self, op, a, b, node, sc=None):
        if isinstance(op, ast.Mod) and any(k[0] == 'b' and k[1] in ('str', 'bytes') for k in a):
            if sc is not None and isinstance(node, ast.BinOp): self.textof(node.right, sc)
            return {k for k in a if k[0] == 'b' and k[1] in ('str', 'bytes')}
        out = set()
        n = DUN.get(type(op))
        for k in a:
            if k[0] == 'inst' and n:
                r = self.attr_of(k, n)
                out |= self.call_tokens(r or {Q}, [b], {}, node, sc or self.any_scope(), quiet=True) if r else {Q}
            elif k[0] == 'b' and k[1] in ('str', 'bytes') and isinstance(op, (ast.Add, ast.Mult)): out.add(k)
            elif k[0] == 'b' and k[1] in ('int', 'bool', 'float'):
                for l in b or {Q}:
                    if l[0] == 'b' and l[1] in ('int', 'bool', 'float'): out.add(('b', 'float' if 'float' in (k[1], l[1]) or isinstance(op, ast.Div) else 'int'))
                    elif l[0] == 'b': out.add(l)
                    elif l[0] == 'cont' and isinstance(op, ast.Mult): out.add(l)
                    elif l[0] == 'inst':
                        rn = n and n.replace('__', '__r', 1)
                        r = self.attr_of(l, rn) if rn else None
                        out |= self.call_tokens(r, [{k}], {}, node, sc or self.any_scope(), quiet=True) if r else {Q}
                    else: out.add(Q)
            elif k[0] == 'cont' and isinstance(op, (ast.Add, ast.Mult)):
                s = id(node)
                el = set(self.elems.get(k[2], set()))
                for l in b:
                    if l[0] == 'cont' and isinstance(op, ast.Add): el |= self.elems.get(l[2], set())
                    elif l == Q: el.add(Q)
                self.add(self.elems.setdefault(s, set()), el)
                out.add(('cont', k[1], s))
            elif k == ('b', 'NoneType'): pass
            else: out.add(Q)
        return out
    def any_scope(self): return next(iter(self.mods.values()))
    def attribute(self, e, sc):
        v = self.ev(e.value, sc)
        if self.final:
            self.stats['attributes'] += 1
            if v and Q not in v: self.tick('attribute', sc)
            if Q in v or not v: self.stats['attributes_unknown'] += 1; self.unknown.append((sc, e))
        out = set(); bad = []; ok = False
        for k in v:
            if k == ('b', 'NoneType'): continue
            r = self.attr_of(k, e.attr)
            if r is None: bad.append(k)
            else: ok = True; out |= r
            if k[0] == 'inst':
                for d in k[1].mro() + k[1].subs_all():
                    for x in d.attrs.get(e.attr, ()):
                        if x[0] == 'prop':
                            for g in x[1]:
                                if g[0] == 'fn': self.edge(sc, e, g)
        if bad and not ok and not (isinstance(sc, ClsScope) and False): self.report('attribute', e, sc, '%s has no attribute %s' % (' and '.join(sorted({show(k) for k in bad})), e.attr))
        elif not bad and (Q in v or not v) and self.final and e.attr not in self.universe():
            cs = self.namesake(e.value, sc)
            if cs: self.report('attribute', e, sc, '%s has no attribute %s' % (' and '.join(sorted(show(k) for k in cs)), e.attr))
        elif bad: self.partial(e, sc, bad, {k for k in v if k != ('b', 'NoneType')})
        return out
    def namesake(self, e, sc):
        """for a parameter nothing flows into: the classes that parameters of this name have in the other methods of the class"""
        if not isinstance(e, ast.Name): return set()
        f = sc
        while isinstance(f, CompScope): f = f.scope
        if not isinstance(f, Fn) or f.cls is None or e.id not in f.params: return set()
        out = set()
        for g in self.fns.values():
            if g.cls is f.cls and e.id in g.params: out |= g.vars.get(e.id, set())
        out -= {Q, ('b', 'NoneType')}
        return out if out and all(k[0] == 'inst' for k in out) else set()
    def universe(self):
        """every attribute name of any class or module of the package, of the builtin types and of the libraries the package imports"""
        if not hasattr(self, '_uni'):
            import sys, types
            u = set(self.injected) | set(self.strings) | DISPATCHER
            for c in self.classes.values(): u |= set(c.attrs) | set(c.iattrs)
            for m in self.mods.values(): u |= set(m.vars) | m.assigned
            for T in list(TYPES.values()) + [object, type, types.ModuleType, types.FunctionType, types.MethodType, types.FrameType, types.TracebackType, types.CodeType]: u |= set(dir(T))
            for o in vars(builtins).values(): u |= set(dir(o))
            for o in SAMPLES.values(): u |= set(dir(o))
            for n in ('socket', 'threading', 'hashlib', 'io', 'http.client', 'urllib.request', 'urllib.response', 'email.message', 're', 'subprocess', 'collections', 'queue', 'datetime', 'fractions', 'decimal',
                      'logging', 'select', 'json', 'traceback', 'argparse', 'configparser', 'ssl', 'selectors', 'asyncio', 'concurrent.futures', 'ipaddress', 'pathlib', 'tempfile') + tuple(k for k, v in _cache.items() if v):
                m = ext_module(n)
                if not m: continue
                u |= set(dir(m))
                for o in list(vars(m).values()):
                    if isinstance(o, type): u |= set(dir(o))
            u |= {'errno', 'strerror', 'filename', 'maxDiff'}
            self._uni = u
        return self._uni
    def partial(self, e, sc, bad, v):
        """some of the classes a value may have lack the attribute"""
        if self.final and all(k[0] == 'inst' for k in v) and not self.probing('attribute', e):
            f = sc
            while isinstance(f, CompScope): f = f.scope
            if isinstance(f, Fn) and any(isinstance(n, ast.Name) and n.id in ('isinstance', 'hasattr', 'type', 'getattr') for n in ast.walk(f.node)): return
            for k in bad: self.partials.append((sc, e, e.attr, k[1]))

    # ------------------------------------------------------------ calls
    def edge(self, sc, node, k):
        """sc calls the token k at node"""
        if self.final:
            f = sc
            while not isinstance(f, (Fn, Mod)) or isinstance(f, CompScope): f = f.mod if isinstance(f, ClsScope) else f.scope
            f.calls.append((node, k))
    def called_by_name(self, sc, node, v, name):
        for k in v:
            if k[0] == 'inst':
                r = self.attr_of(k, name) or set()
                for x in r:
                    if x[0] == 'bm': self.edge(sc, node, ('fn', x[1]))
            elif k[0] == 'extinst': self.edge(sc, node, ('ext', k[1] + '().' + name))
    def textof(self, e, sc):
        v = self.ev(e, sc)
        for x in list(v):
            if x[0] == 'cont': v = v | self.elems.get(x[2], set())
        self.called_by_name(sc, e, {k for k in v if k[0] == 'inst'}, '__str__')
    def call(self, e, sc):
        f = self.ev(e.func, sc)
        star = any(isinstance(a, ast.Starred) for a in e.args)
        args = [self.items(self.ev(a.value, sc)) if isinstance(a, ast.Starred) else self.ev(a, sc) for a in e.args]
        kw = {}; dstar = False
        for k in e.keywords:
            v = self.ev(k.value, sc)
            if k.arg is None: dstar = True
            else: kw[k.arg] = v
        if self.final:
            self.stats['calls'] += 1
            if f and Q not in f: self.tick('call', sc)
            if Q in f or not f:
                self.stats['calls_unknown'] += 1
                if isinstance(e.func, ast.Attribute): self.edge(sc, e, ('unk', e.func.attr))
        # unknown receiver: any method of that name in the package may be meant
        if Q in f and isinstance(e.func, ast.Attribute) and not any(hasattr(T, e.func.attr) for T in TYPES.values()):
            for c in self.classes.values():
                for x in c.attrs.get(e.func.attr, ()):
                    if x[0] == 'fn': self.edge(sc, e, x)
        r = self.call_tokens(f, args, kw, e, sc, star=star, dstar=dstar)
        return r
    def mismatch(self, fn, nargs, kw, star, dstar):
        """why a call with these arguments can not match the parameters of fn (None: it can)"""
        p = fn.params
        if nargs > len(p) and not fn.vararg: return 'takes %d arguments, %d given' % (len(p), nargs)
        for k in kw:
            if k in p:
                if p.index(k) < nargs and not star: return 'gets %s twice' % k
            elif k not in fn.kwonly and not fn.kwarg: return 'has no parameter %s' % k
        if not star and not dstar:
            miss = [x for i, x in enumerate(p[:len(p) - fn.ndef]) if i >= nargs and x not in kw] + [x for x in fn.kwreq if x not in kw]
            if miss: return 'lacks the argument %s' % ', '.join(miss)
        return None
    def call_tokens(self, f, args, kw, node, sc, star=False, dstar=False, quiet=False):
        out = set(); bad = []; good = False
        for k in list(f or ()):
            t = k[0]
            if k == Q or t == 'prop':
                out.add(Q); good = True
                self.escape(args, kw, sc, node)
                continue
            if k == ('b', 'NoneType'): continue
            if t == 'fn':
                self.edge(sc, node, k)
                m = self.mismatch(k[1], len(args) - (1 if star else 0), kw, star, dstar)
                if m: bad.append('%s %s' % (k[1].name, m))
                else: good = True
                out |= self.invoke(k[1], args, kw, node, star)
            elif t == 'bm':
                self.edge(sc, node, ('fn', k[1]))
                m = self.mismatch(k[1], len(args) + 1 - (1 if star else 0), kw, star, dstar)
                if m: bad.append('%s %s' % (k[1].name, m))
                else: good = True
                out |= self.invoke(k[1], [{k[2]}] + list(args), kw, node, star)
            elif t == 'cls':
                c = k[1]
                init = None
                for d in c.mro():
                    if '__init__' in d.attrs: init = d.attrs['__init__']; break
                if init is None:
                    if not any(d.extbases - {'object'} for d in c.mro()) and not any(d.open or '__new__' in d.attrs for d in c.mro()) and (args or kw) and not star:
                        bad.append('%s takes no arguments' % c.name)
                    else: good = True
                    self.escape(args, kw, sc, node)
                else:
                    for x in init:
                        if x[0] == 'fn':
                            self.edge(sc, node, x)
                            m = self.mismatch(x[1], len(args) + 1 - (1 if star else 0), kw, star, dstar)
                            if m: bad.append('%s %s' % (x[1].name, m))
                            else: good = True
                            self.invoke(x[1], [{('inst', c)}] + list(args), kw, node, star)
                        else: good = True
                out.add(('inst', c))
            elif t == 'ext': good = good or not (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and k[1].endswith('().' + node.func.attr)); out |= self.external(k, args, kw, node, sc)
            elif t == 'bmeth': good = True; out |= self.builtin_method(k, args, kw, node, sc)
            elif t == 'inst':
                r = self.attr_of(k, '__call__')
                if r is None: bad.append('%s is not callable' % show(k))
                else: good = True; out |= self.call_tokens(r, args, kw, node, sc, star, dstar, quiet)
            elif t in ('b', 'cont', 'mod'):
                bad.append('%s is not callable' % show(k))
            else: good = True; out.add(Q)
        if bad and not good and not quiet and Q not in f: self.report('call', node, sc, '; '.join(sorted(set(bad))))
        return out
    def invoke(self, fn, args, kw, node, star=False):
        p = fn.params
        if star:
            allv = set().union(*args) if args else set()
            for x in p[len(args) - 1 if len(args) else 0:]: self.addvar(fn, x, args[-1] if args else {Q})
        for i, a in enumerate(args):
            if i < len(p): self.addvar(fn, p[i], a)
            elif fn.vararg: self.add(self.elems.setdefault(id(fn.node), set()), a)
        for k, v in kw.items():
            if k in p or k in fn.kwonly: self.addvar(fn, k, v)
            elif fn.kwarg: self.add(self.elems.setdefault(id(fn.node.args), set()), v)
        return fn.ret
    def escape(self, args, kw, sc, node, call=True):
        """functions handed to code outside the package may be called from there, with anything"""
        for v in list(args) + list(kw.values()):
            for k in list(v):
                if k[0] in ('fn', 'bm') and call:
                    self.edge(sc, node, ('fn', k[1]))
                    f = k[1]
                    ps = f.params[1:] if k[0] == 'bm' else f.params
                    if k[0] == 'bm' and f.params: self.addvar(f, f.params[0], {k[2]})
                    for p in ps: self.addvar(f, p, {Q})
                elif k[0] == 'cls' and call:
                    for x in k[1].attrs.get('__init__', ()):
                        if x[0] == 'fn': self.edge(sc, node, x)
    def external(self, k, args, kw, node, sc):
        p = k[1]
        self.edge(sc, node, k)
        a0 = args[0] if args else set()
        if p in ('threading.Thread', 'threading.Timer', 'multiprocessing.Process', 'thread.start_new_thread', '_thread.start_new_thread'):
            tg = kw.get('target', args[1] if len(args) > 1 else (args[0] if 'start_new' in p and args else set()))
            targs = kw.get('args', args[3] if len(args) > 3 else set())
            for x in tg:
                if x[0] in ('fn', 'bm'):
                    f = x[1]; ps = f.params[1:] if x[0] == 'bm' else f.params
                    if x[0] == 'bm': self.addvar(f, f.params[0], {x[2]})
                    for c in targs:
                        if c[0] == 'cont':
                            for i, q in enumerate(ps): self.addvar(f, q, self.elems.get(('i', c[2], i), self.elems.get(c[2], set())))
                    if self.final: self.threads.setdefault(f, []).append((sc, node))
            return {('extinst', p)}
        if p == 'property': return {('prop', frozenset(a0), frozenset(args[1] if len(args) > 1 else ()))}
        if p == 'staticmethod': return {('static', frozenset(a0))}
        if p == 'classmethod': return {('classm', frozenset(a0))}
        if p == 'super':
            if not args:
                f = sc
                while not isinstance(f, Fn): f = f.scope
                while f.cls is None and isinstance(f.scope, Fn): f = f.scope
                if f.cls is not None and f.params: return {('super', f.cls, r) for r in f.vars.get(f.params[0], ()) if r[0] in ('inst', 'cls')} or {Q}
                return {Q}
            rs = args[1] if len(args) > 1 else set()
            return {('super', c[1], r) for c in a0 if c[0] == 'cls' for r in rs if r[0] in ('inst', 'cls')} or {Q}
        if p == 'getattr':
            n = node.args[1] if len(getattr(node, 'args', ())) > 1 else None
            out = set(args[2]) if len(args) > 2 else set()
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                ok = False
                for x in a0:
                    r = self.attr_of(x, n.value)
                    if r: out |= r; ok = True
                if not ok and a0 and Q not in a0 and len(args) < 3 and ('b', 'NoneType') not in a0: self.report('attribute', node, sc, '%s has no attribute %s' % (' and '.join(sorted(show(x) for x in a0)), n.value))
                return out or {Q}
            if isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                for x in a0:
                    if x[0] == 'inst':
                        for d in x[1].family():
                            for nm in d.attrs:
                                if nm.startswith(n.left.value):
                                    for y in d.attrs[nm]:
                                        if y[0] == 'fn': out.add(('bm', y[1], x)); self.edge(sc, node, y)
                return out | {Q}
            return {Q}
        if p == 'setattr':
            n = node.args[1] if len(getattr(node, 'args', ())) > 1 else None
            for x in a0:
                if x[0] in ('inst', 'cls'):
                    if isinstance(n, ast.Constant): self.add((x[1].iattrs if x[0] == 'inst' else x[1].attrs).setdefault(n.value, set()), args[2] if len(args) > 2 else set())
                    elif not x[1].open: x[1].open = True; self.changed = True
            if isinstance(n, ast.Constant) and Q in a0 and n.value not in self.injected: self.injected.add(n.value); self.changed = True
            return {('b', 'NoneType')}
        if p in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed'):
            self.escape(args[1:], kw, sc, node)
            for x in kw.get('key', ()):
                if x[0] in ('fn', 'bm') and x[1].params: self.addvar(x[1], x[1].params[-1], self.items(a0))
            if p == 'sorted' and len(args) > 1: self.report('call', node, sc, 'sorted takes only keywords after its first argument in Python 3')
            if p == 'sorted' and 'cmp' in kw: self.report('call', node, sc, 'sorted has no parameter cmp in Python 3')
            return self.cont({'sorted': 'list', 'reversed': 'generator', 'frozenset': 'set'}.get(p, p), node, self.items(a0))
        if p == 'dict':
            el = set(); ks = set()
            for x in a0:
                if x[0] == 'cont' and x[1] == 'dict': el |= self.elems.get(x[2], set()); ks |= self.elems.get(('k', x[2]), set())
                elif x[0] == 'cont':
                    for y in self.elems.get(x[2], ()):
                        if y[0] == 'cont' and ('i', y[2], 1) in self.elems: el |= self.elems[('i', y[2], 1)]; ks |= self.elems[('i', y[2], 0)]
                        else: el.add(Q); ks.add(Q)
                else: el.add(Q); ks.add(Q)
            for v in kw.values(): el |= v
            return self.cont('dict', node, el, ks)
        if p == 'zip':
            its = [self.items(a) for a in args]
            t = ('cont', 'tuple', ('z', id(node)))
            for i, v in enumerate(its): self.add(self.elems.setdefault(('i', t[2], i), set()), v); self.add(self.elems.setdefault(t[2], set()), v)
            self.add(self.elems.setdefault(id(node), set()), {t})
            return {('cont', 'zip', id(node))}
        if p == 'enumerate':
            t = ('cont', 'tuple', ('z', id(node)))
            self.add(self.elems.setdefault(('i', t[2], 0), set()), {('b', 'int')}); self.add(self.elems.setdefault(('i', t[2], 1), set()), self.items(a0))
            self.add(self.elems.setdefault(id(node), set()), {t})
            return {('cont', 'enumerate', id(node))}
        if p in ('map', 'filter'):
            it = self.items(args[1]) if len(args) > 1 else {Q}
            out = set()
            for x in a0:
                if x[0] in ('fn', 'bm'): out |= self.call_tokens({x}, [self.items(a) for a in args[1:]], {}, node, sc)
                else: out.add(Q)
            if p == 'filter': out = it
            self.add(self.elems.setdefault(id(node), set()), out or {Q})
            return {('cont', p, id(node))}
        if p in ('iter',): return self.cont('generator', node, self.items(a0))
        if p in ('next', 'min', 'max'):
            self.escape(args[1:], kw, sc, node)
            return (self.items(a0) if len(args) == 1 or p == 'next' else set().union(*args)) or {Q}
        if p in ('int', 'len', 'ord', 'hash', 'id', 'abs', 'sum', 'round', 'pow', 'divmod'):
            n = {'len': '__len__', 'hash': '__hash__', 'int': '__int__'}.get(p)
            if n: self.called_by_name(sc, node, a0, n)
            if p in ('int', 'len', 'ord', 'hash', 'id'): return {('b', 'int')}
            if p == 'divmod': return self.cont('tuple', node, {('b', 'int')} if all(k == ('b', 'int') for k in a0) else {Q})
            return {('b', 'int')} if a0 == {('b', 'int')} and p == 'abs' else {Q}
        if p in ('str', 'repr', 'hex', 'chr', 'oct', 'bin', 'format', 'ascii'):
            self.called_by_name(sc, node, a0, '__str__' if p == 'str' else '__repr__')
            return {('b', 'str')}
        if p == 'print' or p == 'six.print_':
            for v in args: self.called_by_name(sc, node, v, '__str__')
            return {('b', 'NoneType')}
        if p == 'float': return {('b', 'float')}
        if p in ('bool', 'isinstance', 'issubclass', 'hasattr', 'callable', 'any', 'all'): return {('b', 'bool')}
        if p in ('bytes', 'bytearray', 'range'): return {('b', p)}
        if p == 'type':
            if len(args) == 1: return {('cls', x[1]) if x[0] == 'inst' else Q for x in a0} or {Q}
            return {Q}
        if p == 'open': return {('extinst', 'open')}
        if p in ('object',): return {Q}
        if p in ('copy.copy', 'copy.deepcopy'): return set(a0)
        if p in ('six.b', 'six.int2byte'): return {('b', 'bytes')}
        if p in ('six.u',): return {('b', 'str')}
        if p in ('time.time',): return {('b', 'float')}
        if p in ('os.urandom', 'binascii.hexlify', 'binascii.unhexlify', 'struct.pack'): return {('b', 'bytes')}
        if p in ('struct.unpack',): return self.cont('tuple', node, {Q})
        self.escape(args, kw, sc, node)
        if p == 'hashlib.new' or p in HASHES: return {('extinst', 'hashlib.HASH')}
        if p in ('hmac.new', 'hmac.HMAC'): return {('extinst', 'hmac.HMAC')}
        if p.endswith('.digest') and p.split('(')[0] in SAMPLES: return {('b', 'bytes')}
        if p.endswith('.hexdigest') and p.split('(')[0] in SAMPLES: return {('b', 'str')}
        if p in EXT_CLASSES or ext_is_class(p): return {('extinst', p)}
        return {Q}
    def builtin_method(self, k, args, kw, node, sc):
        _, ty, name, rcv = k
        a0 = args[0] if args else set()
        self.edge(sc, node, ('ext', '%s.%s' % (ty, name)))
        if ty in ('str', 'bytes'):
            for v in args + list(kw.values()):
                if name == 'format': self.called_by_name(sc, node, v, '__str__')
            if name in ('encode',): return {('b', 'bytes')}
            if name in ('decode',): return {('b', 'str')}
            if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'): return self.cont('tuple' if 'part' in name else 'list', node, {('b', ty)})
            if name in ('find', 'rfind', 'index', 'rindex', 'count'): return {('b', 'int')}
            if name.startswith(('is', 'startswith', 'endswith')): return {('b', 'bool')}
            if name in ('hex',): return {('b', 'str')}
            return {('b', ty)}
        if ty == 'int':
            return {('b', 'bytes')} if name == 'to_bytes' else {('b', 'int')} if name == 'bit_length' else {Q}
        if rcv[0] == 'cont':
            s = rcv[2]
            el = self.elems.setdefault(s, set())
            if name in ('append', 'add', 'insert', 'appendleft'):
                self.add(el, args[-1] if args else set()); return {('b', 'NoneType')}
            if name in ('extend',): self.add(el, self.items(a0)); return {('b', 'NoneType')}
            if name == 'update':
                for x in a0:
                    if x[0] == 'cont': self.add(el, self.elems.get(x[2], set())); self.add(self.elems.setdefault(('k', s), set()), self.elems.get(('k', x[2]), set()))
                for v in kw.values(): self.add(el, v)
                return {('b', 'NoneType')}
            if name == 'sort':
                self.escape([], kw, sc, node)
                if args: self.report('call', node, sc, 'list.sort takes only keywords in Python 3')
                if 'cmp' in kw: self.report('call', node, sc, 'list.sort has no parameter cmp in Python 3')
                return {('b', 'NoneType')}
            if ty == 'dict':
                if name == 'setdefault':
                    self.add(self.elems.setdefault(('k', s), set()), a0)
                    if len(args) > 1: self.add(el, args[1])
                    return set(el)
                if name in ('get', 'pop'): return set(el) | (args[1] if len(args) > 1 else {('b', 'NoneType')})
                if name == 'keys': self.add(self.elems.setdefault(id(node), set()), self.elems.get(('k', s), set())); return {('cont', 'dict_keys', id(node))}
                if name == 'values': self.add(self.elems.setdefault(id(node), set()), el); return {('cont', 'dict_values', id(node))}
                if name == 'items':
                    t = ('cont', 'tuple', ('z', id(node)))
                    self.add(self.elems.setdefault(('i', t[2], 0), set()), self.elems.get(('k', s), set())); self.add(self.elems.setdefault(('i', t[2], 1), set()), el)
                    self.add(self.elems.setdefault(id(node), set()), {t})
                    return {('cont', 'dict_items', id(node))}
                if name == 'copy': return {rcv}
            if name in ('pop', 'popleft'): return set(el)
            if name == 'copy': return {rcv}
            if name in ('index', 'count'): return {('b', 'int')}
            if name in ('remove', 'clear', 'reverse', 'discard'): return {('b', 'NoneType')}
            if name in ('union', 'difference', 'intersection'): return {rcv}
        return {Q}


DUN = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Mod: '__mod__', ast.FloorDiv: '__floordiv__', ast.Div: '__truediv__', ast.Pow: '__pow__'}


def _subs_all(self):
    out = []; todo = list(self.subs)
    while todo:
        c = todo.pop()
        if c not in out: out.append(c); todo.extend(c.subs)
    return out
Cls.subs_all = _subs_all
Fn.name_ = property(lambda s: s.name)
Mod.name_ = ''


class ClsScope(object):
    """the body of a class: assigns class attributes, reads names of the enclosing scope"""
    def __init__(self, c, outer, prog):
        self.c = c; self.scope = outer; self.mod = outer.mod; self.globals = set(); self.nonlocals = set(); self.consts = set(); self.ret = set(); self.prog = prog
        self.name_ = c.name
        self.cls = None; self.narrow = {}
    def note(self, e): pass
    def outer_fn(self):
        s = self.scope
        while isinstance(s, ClsScope): s = s.scope
        return s
    @property
    def inner(self):
        return CompScope.of(self.c.node, self, self.prog)
    @property
    def qual(self): return self.c.qual
    @property
    def vars(self): return self.c.attrs


class CompScope(Fn):
    """variables of a comprehension"""
    def __init__(self, e, sc, prog):
        self.node = e; self.mod = sc.mod; self.scope = sc; self.cls = None; self.name = sc.name_ or 'module'
        self.vars = {}; self.ret = set(); self.calls = []; self.globals = set(); self.nonlocals = set(); self.params = []; self.consts = getattr(sc, 'consts', set())
        self.locals = set(); self.narrow = {}
        if hasattr(e, 'generators'):
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name): self.locals.add(n.id)
        f = sc
        while isinstance(f, CompScope): f = f.scope
        self.owner = f
        if isinstance(f, (Fn, Mod)): self.calls = f.calls
    @staticmethod
    def of(node, sc, prog):
        if not hasattr(prog, 'fns_comp'): prog.fns_comp = {}
        k = ('cls', id(node))
        if k not in prog.fns_comp:
            s = prog.fns_comp[k] = CompScope(node, sc, prog)
            for n in ast.walk(node):
                if isinstance(n, ast.comprehension):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name): s.locals.add(x.id)
        return prog.fns_comp[k]


def show(k):
    if k == Q: return 'anything'
    if k[0] == 'mod': return 'module ' + k[1]
    if k[0] in ('inst', 'cls'): return ('an object of ' if k[0] == 'inst' else 'class ') + k[1].qual
    if k[0] == 'ext': return k[1]
    if k[0] == 'extinst': return 'an object of ' + k[1]
    if k[0] in ('fn', 'bm'): return 'function ' + k[1].qual
    if k[0] in ('b', 'cont'): return 'a value of type ' + k[1]
    return k[0]


# ---------------------------------------------------------------- names outside the package
EXT_CLASSES = {'threading.Lock', 'threading.RLock', 'threading.Thread', 'threading.Event', 'threading.Condition', 'threading.Semaphore', 'queue.Queue', 'socket.socket', 'open', 'miniupnpc.UPnP'}
import hashlib as _h, hmac as _hm
HASHES = {'hashlib.' + n for n in ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'blake2b', 'blake2s', 'sha3_256', 'sha3_512')}
SAMPLES = {'hashlib.HASH': _h.sha256(), 'hmac.HMAC': _hm.new(b'', b'', 'sha256')}
_cache = {}
def ext_module(name):
    """the module of the standard library; False when Python 3 has none of that name, None when it can not be told"""
    if name in _cache: return _cache[name]
    r = None
    top = name.split('.')[0]
    if top in GONE or (top in ('urllib',) and name == 'urllib'): r = None
    import sys
    if r is None and top not in GONE and top in sys.stdlib_module_names and top not in ('antigravity', 'this', 'idlelib', 'turtle', 'tkinter'):
        try: r = importlib.import_module(name)
        except Exception: r = False if name == top or '.' not in name else None
    elif top in PY2_MODULES: r = False
    _cache[name] = r
    return r
PY2_MODULES = {'StringIO', 'cStringIO', 'urlparse', 'httplib', 'Queue', 'cPickle', 'ConfigParser', 'commands', 'thread', 'sets', 'md5', 'sha', 'HTMLParser', '__builtin__', 'urllib2'}
def _resolve(path):
    """the object of the standard library a dotted path names; (None, False) when unknown, (None, True) when it does not exist"""
    parts = path.split('.')
    if '()' in path: return None, False
    if parts[0] in BUILTINS and hasattr(builtins, parts[0]):
        o = getattr(builtins, parts[0]); i = 1
    else:
        o = ext_module(parts[0]); i = 1
        if o is None or o is False: return None, False
    for n in parts[i:]:
        if not hasattr(o, n): return None, False
        o = getattr(o, n)
    return o, False
def ext_has(path, name):
    o, _ = _resolve(path)
    if o is None: return None
    if hasattr(o, name): return True
    import types
    if isinstance(o, types.ModuleType):
        m = ext_module(path + '.' + name)
        return bool(m)
    if isinstance(o, type) or isinstance(o, (types.FunctionType, types.BuiltinFunctionType)): return False
    return None
def ext_is_class(path):
    o, _ = _resolve(path)
    return isinstance(o, type)
def ext_inst_has(path, name):
    if path == 'asyncore.dispatcher': return name in DISPATCHER
    if path == 'object': return hasattr(object, name)
    if path in SAMPLES: return hasattr(SAMPLES[path], name)
    o, _ = _resolve(path)
    if isinstance(o, type):
        if hasattr(o, name): return True
        if issubclass(o, BaseException): return name in ('errno', 'strerror', 'filename', 'code', 'reason', 'args', 'characters_written') or name.startswith('__')
        if path in ('hashlib.sha256',): return None
        return None if o.__module__ not in ('threading', 'builtins') or hasattr(o, '__slots__') else (False if not path.startswith('threading.Thread') else None)
    if path in ('threading.Lock', 'threading.RLock'):
        import threading
        return hasattr(threading.Lock(), name)
    return None
_PROG = []
def program():
    if not _PROG: _PROG.append(Program())
    return _PROG[0]
