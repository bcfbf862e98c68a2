"""every name, attribute, argument and import of the package resolves"""
from ..check import Check
from .. import flow

def build():
    c = Check('C14', 'Whole-program flow of modules, classes, functions and containers (subset-based points-to analysis): every name is bound in some scope or a builtin of Python 3, every attribute exists on '
                     'some type its receiver may have, every call between functions of the package matches the parameters of a function it may reach, every import resolves.')
    c.needs = []
    p = flow.program()
    kinds = {'name': 'names', 'attribute': 'attributes', 'call': 'arguments', 'import': 'imports'}
    for m in sorted(p.mods):
        for k, title in kinds.items():
            def go(I, m=m, k=k):
                out = []
                for (kind, path, line, col), (_, sc, node, text) in sorted(p.reports.items(), key=lambda x: x[0][1:]):
                    if kind == k and sc.mod.name == m: out.append('%s:%d in %s: %s' % (path.replace(p.root + '/', ''), line, sc.qual, text))
                I.stats['functions'] = {f.qual for f in p.fns.values() if f.mod.name == m}
                return out, p.count[k].get(m, 0)
            c.require('%s of %s' % (title, m), go)
    lacks = {}
    for sc, e, attr, cls in p.partials:
        lacks.setdefault((cls.qual, attr), set()).add('%s:%d in %s' % (sc.mod.path.replace(p.root + '/', ''), e.lineno, sc.qual))
    for (cls, attr), where in sorted(lacks.items()):
        c.require('%s has %s' % (cls, attr), lambda I, where=where, cls=cls, attr=attr: (['an object of %s comes to where %s uses %s' % (cls, w, attr) for w in sorted(where)], len(where)))
    return c
