"""Rewrites every function of the package without changing what it does, and runs the checks on the result.
   python3 tools/autoref.py WORKDIR transformation[,transformation...] [Cxx ...]"""
import ast, copy, os, shutil, subprocess, sys, time

FN = (ast.FunctionDef,)

def names(n, ctx): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}
def has(n, *kinds): return any(isinstance(x, kinds) for x in ast.walk(n))
def nested(f): return any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for x in ast.walk(f) if x is not f)
def params(f): a = f.args; return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
def simple(e): return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)
def const_name(e): return isinstance(e, (ast.Name, ast.Constant))
def terminal(body): return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
count = [0]
def fresh(p='part'): count[0] += 1; return '%s_%d' % (p, count[0])

class Blocks(ast.NodeTransformer):
    """applies self.block to every list of statements inside functions"""
    depth = 0
    def visit_FunctionDef(self, n):
        self.depth += 1; self.enter(n); self.generic_visit(n); self.depth -= 1
        return n
    def enter(self, n): pass
    def generic_visit(self, n):
        super().generic_visit(n)
        if self.depth:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(n, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, ast.ClassDef): setattr(n, f, self.block(b) or [ast.Pass()])
        return n
    def block(self, b): return b

class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if has(n, ast.Global, ast.Nonlocal) or any(isinstance(x, ast.FunctionDef) and x is not n or isinstance(x, ast.ClassDef) for x in ast.walk(n)): return n
        loc = names(n, (ast.Store, ast.Del)) - set(params(n))
        inner = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Lambda): inner |= set(params(x))
            if isinstance(x, ast.ExceptHandler) and x.name: loc.add(x.name)
        loc -= inner
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc: x.id = x.id + '_v'
            if isinstance(x, ast.ExceptHandler) and x.name in loc: x.name += '_v'
        return n

class Temps(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name,)) and not simple(s.value):
                t = fresh('value'); out.append(ast.Assign([ast.Name(t, ast.Store())], s.value)); s.value = ast.Name(t, ast.Load())
            elif isinstance(s, ast.Return) and s.value is not None and not simple(s.value):
                t = fresh('result'); out.append(ast.Assign([ast.Name(t, ast.Store())], s.value)); s.value = ast.Name(t, ast.Load())
            elif isinstance(s, ast.If) and not simple(s.test):
                t = fresh('cond'); out.append(ast.Assign([ast.Name(t, ast.Store())], s.test)); s.test = ast.Name(t, ast.Load())
            out.append(s)
        return out

class Negate(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse: n.test = ast.UnaryOp(ast.Not(), n.test); n.body, n.orelse = n.orelse, n.body
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test = ast.UnaryOp(ast.Not(), n.test); n.body, n.orelse = n.orelse, n.body
        return n

class Enumerate(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], [])
        n.target = ast.Tuple([ast.Name(fresh('i'), ast.Store()), n.target], ast.Store())
        return n

class Aug(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.AugAssign) and simple(s.target) and not isinstance(s.value, (ast.List, ast.ListComp)):
                v = copy.deepcopy(s.target); v.ctx = ast.Load()
                s = ast.Assign([s.target], ast.BinOp(v, s.op, s.value))
            out.append(s)
        return out

class Loops(Blocks):
    """a list comprehension that is assigned or returned becomes a loop"""
    def block(self, b):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and not (isinstance(s, ast.Assign) and (len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name))):
                g = v.generators[0]; acc = fresh('found')
                ren = {x: fresh(x) for x in names(g.target, ast.Store)}
                for part in [g.target, v.elt] + g.ifs:
                    for x in ast.walk(part):
                        if isinstance(x, ast.Name) and x.id in ren: x.id = ren[x.id]
                if has(v.elt, ast.Lambda): out.append(s); continue
                inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), 'append', ast.Load()), [v.elt], []))]
                for c in reversed(g.ifs): inner = [ast.If(c, inner, [])]
                out.append(ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())))
                out.append(ast.For(g.target, g.iter, inner, []))
                s.value = ast.Name(acc, ast.Load())
            out.append(s)
        return out

class Guard(Blocks):
    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and terminal(s.body) and i + 1 < len(b):
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b

class IfExp(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and simple(s.targets[0]):
                t2 = copy.deepcopy(s.targets)
                s = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(t2, s.value.orelse)])
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                s = ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
            elif isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                for t in reversed(s.test.values[1:]): s.body = [ast.If(t, s.body, [])]
                s.test = s.test.values[0]
            out.append(s)
        return out

class Flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M and (const_name(n.left) or const_name(n.comparators[0])):
            n.ops = [self.M[type(n.ops[0])]()]; n.left, n.comparators = n.comparators[0], [n.left]
        return n

class While(ast.NodeTransformer):
    def visit_While(self, n):
        self.generic_visit(n)
        if not n.orelse and not isinstance(n.test, ast.Constant):
            n.body = [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body; n.test = ast.Constant(True)
        return n

class Props(ast.NodeTransformer):
    def visit_ClassDef(self, n):
        self.generic_visit(n)
        out = []
        for s in n.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'property' and len(s.value.args) == 1 and isinstance(s.value.args[0], ast.Lambda) and isinstance(s.targets[0], ast.Name):
                l = s.value.args[0]
                s = ast.FunctionDef(s.targets[0].id, l.args, [ast.Return(l.body)], [ast.Name('property', ast.Load())])
            out.append(s)
        n.body = out
        return n

class Swap(Blocks):
    """adjacent assignments that do not touch one another change places"""
    def block(self, b):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and simple(s.targets[0]) and simple(s.value) for s in (x, y)):
                a, c = (ast.dump(s.targets[0]).replace('Store', 'Load') for s in (x, y)); v, w = (ast.dump(s.value) for s in (x, y))
                if a != c and a not in w and c not in v and a not in ast.dump(y.targets[0]) and c not in a: b[i], b[i + 1] = y, x; i += 1
            i += 1
        return b

class Consts(ast.NodeTransformer):
    """numbers and byte strings in functions get names at the top of the module"""
    def visit_Module(self, n):
        self.new = {}; self.inside = 0
        self.generic_visit(n)
        k = 0
        while k < len(n.body) and (isinstance(n.body[k], ast.Expr) and isinstance(n.body[k].value, ast.Constant) or isinstance(n.body[k], ast.ImportFrom) and n.body[k].module == '__future__'): k += 1
        n.body[k:k] = [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(c)) for (_, c), v in self.new.items()]
        return n
    def visit_FunctionDef(self, n):
        self.inside += 1; n.body = [self.visit(s) for s in n.body]; self.inside -= 1
        return n
    def visit_Constant(self, n):
        if self.inside and type(n.value) in (int, bytes) and n.value not in (0, 1, b''):
            key = (type(n.value), n.value)
            if key not in self.new: self.new[key] = '_K%d' % len(self.new)
            return ast.Name(self.new[key], ast.Load())
        return n
    def visit_JoinedStr(self, n): return n

class Wrap(ast.NodeTransformer):
    """every function hands over to another one that does its work"""
    def wrap(self, body, cls):
        out = []
        for s in body:
            if isinstance(s, ast.FunctionDef) and not (s.name.startswith('__')) and not s.decorator_list and not s.args.vararg and not s.args.kwarg and not s.args.kwonlyargs and not any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(s)) \
               and not (cls and any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') for x in ast.walk(s))):
                inner = copy.deepcopy(s); inner.name = '_' + (cls or '') + s.name.lstrip('_') + '_impl'; inner.args.defaults = []
                ps = [ast.Name(p, ast.Load()) for p in params(s)]
                f = ast.Attribute(ps[0], inner.name, ast.Load()) if cls and ps else ast.Name(inner.name, ast.Load())
                if cls and not ps: out.append(s); continue
                s.body = [ast.Return(ast.Call(f, ps[1:] if cls else ps, []))]
                out.append(inner)
            out.append(s)
        return out
    def visit_ClassDef(self, n): n.body = self.wrap(n.body, n.name + '_'); return n
    def visit_Module(self, n):
        self.generic_visit(n); n.body = self.wrap(n.body, None)
        return n

class Extract(ast.NodeTransformer):
    """a run of statements of every function moves to a function of its own"""
    def visit_Module(self, n):
        self.extra = []
        out = []
        for s in n.body:
            k = len(self.extra)
            self.fn_in(s)
            out += self.extra[k:]; out.append(s)
        n.body = out
        return n
    def fn_in(self, s):
        if isinstance(s, ast.ClassDef):
            for x in s.body: self.fn_in(x)
        elif isinstance(s, ast.FunctionDef): self.cut(s)
    def cut(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Yield, ast.Lambda)) for x in ast.walk(f) if x is not f) or any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') for x in ast.walk(f)): return
        b = f.body
        best = None
        for i in range(len(b)):
            for j in range(len(b), i + 1, -1):
                blk = b[i:j]
                if i == 0 and j == len(b): continue
                if any(has(s, ast.Return, ast.Break, ast.Continue, ast.Delete, ast.Import, ast.ImportFrom) for s in blk): continue
                if isinstance(blk[0], ast.Expr) and isinstance(blk[0].value, ast.Constant): continue
                if any(isinstance(x, ast.Name) and x.id in ('super', 'locals') for s in blk for x in ast.walk(s)): continue
                if best is None or j - i > best[1] - best[0]: best = (i, j)
        if best is None: return
        i, j = best; blk = b[i:j]
        known = set(params(f))
        for s in b[:i]:
            known |= {t.id for t in ast.walk(s) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)} if isinstance(s, (ast.Assign, ast.With)) else set()
        maybe = set().union(*[names(s, ast.Store) for s in b[:i]]) if b[:i] else set()
        maybe |= {x.name for s in b[:i] for x in ast.walk(s) if isinstance(x, ast.ExceptHandler) and x.name}
        if maybe - known: return
        stored = set().union(*[names(s, ast.Store) for s in blk])
        sure = set()
        for s in blk:
            if isinstance(s, ast.Assign): sure |= {t.id for x in s.targets for t in ast.walk(x) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
        later = set().union(*[names(s, ast.Load) for s in b[j:]]) if b[j:] else set()
        outs = sorted(stored & later)
        if any(o not in sure and o not in known for o in outs): return
        ins = sorted((set().union(*[names(s, ast.Load) for s in blk]) | set(outs)) & known)
        name = '_%s_part_%d' % (f.name.strip('_'), len(self.extra))
        body = list(blk)
        if outs: body.append(ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load())))
        self.extra.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), body, []))
        call = ast.Call(ast.Name(name, ast.Load()), [ast.Name(x, ast.Load()) for x in ins], [])
        f.body = b[:i] + [ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store())], call) if outs else ast.Expr(call)] + b[j:]

class Plain(ast.NodeTransformer): pass

class Literals(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and not n.args:
            if n.func.id == 'dict' and all(k.arg for k in n.keywords): return ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords])
            if n.func.id == 'list' and not n.keywords: return ast.List([], ast.Load())
        return n

class ForWhile(Blocks):
    """counting loops count by themselves"""
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ('range', 'xrange') and len(s.iter.args) in (1, 2) \
               and not any(isinstance(x, (ast.Continue, ast.Lambda, ast.FunctionDef)) for x in ast.walk(s)) and s.target.id not in set().union(*[names(x, (ast.Store, ast.Del)) for x in s.body]):
                a = s.iter.args; n, k = fresh('stop'), fresh('at')
                out.append(ast.Assign([ast.Name(k, ast.Store())], a[0] if len(a) == 2 else ast.Constant(0)))
                out.append(ast.Assign([ast.Name(n, ast.Store())], a[-1]))
                s = ast.While(ast.Compare(ast.Name(k, ast.Load()), [ast.Lt()], [ast.Name(n, ast.Load())]), [ast.Assign([s.target], ast.Name(k, ast.Load()))] + s.body + [ast.AugAssign(ast.Name(k, ast.Store()), ast.Add(), ast.Constant(1))], [])
            out.append(s)
        return out

class Comps(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and not n.orelse and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Call):
            c = n.body[0].value
            if isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name) and len(c.args) == 1 and c.func.value.id not in names(c.args[0], ast.Load):
                return ast.Expr(ast.Call(ast.Attribute(c.func.value, 'extend', ast.Load()), [ast.ListComp(c.args[0], [ast.comprehension(n.target, n.iter, [], 0)])], []))
        return n

class Withs(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.With) and len(s.items) == 1 and s.items[0].optional_vars is None and 'lock' in ast.unparse(s.items[0].context_expr):
                l = s.items[0].context_expr
                call = lambda m: ast.Expr(ast.Call(ast.Attribute(copy.deepcopy(l), m, ast.Load()), [], []))
                out.append(call('acquire')); s = ast.Try(s.body, [], [], [call('release')])
            out.append(s)
        return out

class Early(Blocks):
    def visit_FunctionDef(self, n):
        super().visit_FunctionDef(n)
        s = n.body[-1]
        if isinstance(s, ast.If) and s.orelse and not has(s, ast.Yield):
            rest = s.orelse; s.orelse = []
            if not terminal(s.body): s.body.append(ast.Return(None))
            n.body += rest
        return n

class Chain(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2 and simple(n.comparators[0]):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(copy.deepcopy(n.comparators[0]), [n.ops[1]], [n.comparators[1]])])
        return n

class FStrings(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple):
            import re
            parts = re.split(r'(%[sd])', n.left.value)
            if any('%' in p for p in parts[::2]) or len(parts[1::2]) != len(n.right.elts): return n
            vals = []; k = 0
            for i, p in enumerate(parts):
                if i % 2 == 0:
                    if p: vals.append(ast.Constant(p))
                else:
                    vals.append(ast.FormattedValue(n.right.elts[k], -1, ast.JoinedStr([ast.Constant('d')]) if p == '%d' else None)); k += 1
            return ast.JoinedStr(vals)
        return n

class Asserts(Blocks):
    def block(self, b):
        return [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Raise(ast.Call(ast.Name('AssertionError', ast.Load()), [s.msg] if s.msg else [], []), None)], []) if isinstance(s, ast.Assert) else s for s in b]

class Reraise(ast.NodeTransformer):
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        for s in n.body:
            if isinstance(s, ast.Raise) and isinstance(s.exc, ast.Name) and s.exc.id == n.name: s.exc = None
        return n

class ImportAs(ast.NodeTransformer):
    """library modules are used under another name"""
    def visit_Module(self, n):
        mods = set()
        out = []
        for s in n.body:
            out.append(s)
            if isinstance(s, ast.Import):
                for a in s.names:
                    if not a.asname and '.' not in a.name and a.name not in ('asyncore', 'six'):
                        mods.add(a.name); out.append(ast.Import([ast.alias(a.name, a.name + '_lib')]))
        n.body = out
        for x in ast.walk(n):
            if isinstance(x, ast.FunctionDef):
                shadow = names(x, ast.Store) | set(params(x))
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.id in mods - shadow: y.id += '_lib'
        return n

class ExtractM(Extract):
    """the same, to methods of the class"""
    def fn_in(self, s):
        if isinstance(s, ast.ClassDef):
            body = []
            for x in s.body:
                k = len(self.extra)
                if isinstance(x, ast.FunctionDef) and params(x)[:1] == ['self']:
                    self.cut(x)
                    for f in self.extra[k:]:
                        ps = [a for a in f.args.args if a.arg != 'self']
                        f.args.args = [ast.arg('self')] + ps
                        for c in ast.walk(x):
                            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == f.name:
                                c.func = ast.Attribute(ast.Name('self', ast.Load()), f.name, ast.Load()); c.args = [ast.Name(a.arg, ast.Load()) for a in ps]
                    body += self.extra[k:]; self.extra[k:] = []
                body.append(x)
            s.body = body

class Closure(Extract):
    """the same, to a function inside of the function"""
    def cut(self, f):
        k = len(self.extra)
        super().cut(f)
        if len(self.extra) == k: return
        g = self.extra.pop()
        stored = set().union(*[names(s, ast.Store) for s in g.body]) if g.body else set()
        keep = [a.arg for a in g.args.args if a.arg in stored]
        g.args.args = [ast.arg(a) for a in keep]
        for i, s in enumerate(f.body):
            for c in ast.walk(s):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == g.name:
                    c.args = [ast.Name(a, ast.Load()) for a in keep]; at = i
        f.body.insert(at, g)

T = dict(plain=Plain, rename=Rename, temps=Temps, negate=Negate, enumerate=Enumerate, aug=Aug, loops=Loops, guard=Guard, ifexp=IfExp, flip=Flip, while_=While, props=Props, swap=Swap, consts=Consts, wrap=Wrap, extract=Extract, literals=Literals, forwhile=ForWhile, comps=Comps, withs=Withs, early=Early, chain=Chain, fstrings=FStrings, asserts=Asserts, reraise=Reraise, importas=ImportAs, extractm=ExtractM, closure=Closure)

def rewrite(repo, ts, only=None):
    for d, _, fs in os.walk(os.path.join(repo, 'nbc')):
        for f in fs:
            p = os.path.join(d, f)
            if not f.endswith('.py') or f.startswith('test_') or f.startswith('_') and f != '__init__.py' or only and only not in p: continue
            tree = ast.parse(open(p).read())
            for x in ts: tree = T[x]().visit(tree)
            open(p, 'w').write(ast.unparse(ast.fix_missing_locations(tree)) + '\n')

if __name__ == '__main__':
    work, ts, pids = sys.argv[1], sys.argv[2].split(','), sys.argv[3:]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = os.path.join(work, 'repo')
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    subprocess.check_call(['cp', '-a', '/repo', repo])
    rewrite(repo, ts, os.environ.get('AUTOREF_ONLY'))
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', 'nbc/util/ecdsa/test_pyecdsa.py'], cwd=repo, capture_output=True, text=True)
    print(sys.argv[2], '| tests:', r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:], flush=True)
    if not pids: pids = sorted(f[:3] for f in os.listdir(here + '/nbcsa/checks') if f[0] == 'C' and f[1:3].isdigit())
    for p in pids:
        t0 = time.time()
        r = subprocess.run([sys.executable, '-m', 'nbcsa', p], cwd=here, capture_output=True, text=True, env=dict(os.environ, NBCSA_REPO=repo, NBCSA_EVIDENCE=work, NBCSA_VERBOSE='1'))
        open(os.path.join(work, p + '.out'), 'w').write(r.stdout + r.stderr)
        und = r.stdout.count('\nUNDECIDED') + r.stdout.startswith('UNDECIDED')
        if r.returncode or und or time.time() - t0 > 60: print('  %s rc=%d undecided=%d %.0fs' % (p, r.returncode, und, time.time() - t0), flush=True)
    print('  done', flush=True)
