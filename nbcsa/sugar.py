"""Rewrites before the analysis: what mutates a local bytearray becomes an assignment (its value is the octets), and the first of
a generator expression is the first of its list."""
import ast

def mutated(fn):
    """names that are only ever a bytearray of this function"""
    made = set(); other = set(a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs)
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            ok = isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'bytearray'
            for x in n.targets:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store): (made if ok and y is x else other).add(y.id)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for y in ast.walk(n.target):
                if isinstance(y, ast.Name): other.add(y.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)): other.update(n.names)
    return made - other

class Rewrite(ast.NodeTransformer):
    def __init__(self): self.names = [set()]
    def visit_FunctionDef(self, n):
        self.names.append(mutated(n))
        try: return self.generic_visit(n)
        finally: self.names.pop()
    def ours(self, x): return isinstance(x, ast.Name) and x.id in self.names[-1]
    def put(self, at, x, value):
        r = ast.Assign([ast.Name(x.id, ast.Store())], value)
        ast.copy_location(r, at); ast.fix_missing_locations(r); return r
    def call(self, f, *a): return ast.Call(ast.Name(f, ast.Load()), list(a), [])
    def name(self, x): return ast.Name(x.id, ast.Load())
    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and self.ours(c.func.value) and not c.keywords:
            x = c.func.value; m = c.func.attr
            if m == 'append' and len(c.args) == 1: return self.put(n, x, ast.BinOp(self.name(x), ast.Add(), self.call('bytes', ast.Tuple(list(c.args), ast.Load()))))
            if m == 'extend' and len(c.args) == 1: return self.put(n, x, ast.BinOp(self.name(x), ast.Add(), self.call('bytes', *c.args)))
            if m == 'insert' and len(c.args) == 2: return self.put(n, x, self.call('__binsert__', self.name(x), *c.args))
            if m == 'reverse' and not c.args: return self.put(n, x, self.call('bytes', self.call('reversed', self.name(x))))
            if m == 'clear' and not c.args: return self.put(n, x, ast.Constant(b''))
        return n
    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and self.ours(n.targets[0].value):
            x = n.targets[0].value; i = n.targets[0].slice
            if isinstance(i, ast.Slice): return n
            return self.put(n, x, self.call('__bset__', self.name(x), i, n.value))
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if self.ours(n.target) and isinstance(n.op, ast.Add): return self.put(n, n.target, ast.BinOp(self.name(n.target), ast.Add(), self.call('bytes', n.value)))
        if isinstance(n.target, ast.Subscript) and self.ours(n.target.value) and not isinstance(n.target.slice, ast.Slice) and isinstance(n.target.slice, (ast.Name, ast.Constant)):
            x = n.target.value; i = n.target.slice
            return self.put(n, x, self.call('__bset__', self.name(x), i, ast.BinOp(ast.Subscript(self.name(x), i, ast.Load()), n.op, n.value)))
        return n
    def visit_Delete(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and self.ours(n.targets[0].value):
            x = n.targets[0].value; i = n.targets[0].slice
            if isinstance(i, ast.Slice) and i.step is None and (i.lower is None) != (i.upper is None):
                if i.lower is None: return self.put(n, x, ast.Subscript(self.name(x), ast.Slice(i.upper, None), ast.Load()))
                return self.put(n, x, ast.Subscript(self.name(x), ast.Slice(None, i.lower), ast.Load()))
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            g = n.args[0]
            l = ast.ListComp(g.elt, g.generators)
            r = self.call('__first__', l, *n.args[1:])
            ast.copy_location(r, n); ast.fix_missing_locations(r); return r
        return n

def rewrite(tree): return Rewrite().visit(tree)
