"""What one call leaves behind for the next."""
from . import terms as t
from .terms import T, mk, K, TRUE, FALSE, NONE, and_, ite, B
from .interp import Inst, Cls, Func, Mod, Frame, ListO, DictO, SetO, State
from .models import EV

_old = {}
def old_objects(I):
    """the objects that exist before anything is called"""
    k = len(I.base)
    if _old.get('k') != k:
        s = set()
        def rec(x):
            if x.op == 'ref': s.add(x.a[0])
            else:
                for y in x.a:
                    if isinstance(y, T): rec(y)
                    elif isinstance(y, tuple): 
                        for z in y:
                            if isinstance(z, T): rec(z)
        for (o, f), v in I.base.items():
            s.add(o); rec(v)
        _old['k'] = k; _old['s'] = s
    return _old['s']

def touched(I, exits):
    """the cells that existed before, changed by a call"""
    old = old_objects(I)
    out = []
    for kind, st, v, loc in exits:
        for (o, f), x in st.h.items():
            if o in old and o is not EV and I.base.get((o, f)) is not x and (o, f) not in out: out.append((o, f))
    return out

EARLIER = {}              # symbol of the call before -> symbol of the call looked at
def earlier(y):
    if str(y.a[0]).startswith('earlier '): return y
    r = t.sym('earlier %s' % (y.a[0],), y.sort, y.lo, y.hi, y.ext)
    es = t._elem_sort.get(y)
    if es is not None: t.set_elem_sort(r, *es)
    EARLIER[r] = y
    return r

def rename(x, memo):
    """the same term about the call before"""
    def sub(a):
        return tuple(go(c) if isinstance(c, T) else sub(c) if isinstance(c, tuple) else c for c in a)
    def go(y):
        r = memo.get(y)
        if r is not None: return r
        if y.op == 'sym':
            n = y.a[0]
            r = y if isinstance(n, str) and n[:1] in '%@' else earlier(y)
        elif y.op == 'c' or y.op == 'ref': r = y
        elif y.op == 'ite': r = ite(B(go(y.a[0])), go(y.a[1]), go(y.a[2]))
        elif y.op == 'poly':
            d = {}
            for m, c in y.a[0]:
                k = tuple(sorted(((go(a), e) for a, e in m), key=lambda ae: ae[0].id))
                d[k] = d.get(k, 0) + c
            r = t.mkpoly(d, y.sort)
        else:
            b = sub(y.a)
            r = y if b == y.a else mk(y.op, b, y.sort, y.lo, y.hi, y.ext)
        memo[y] = r
        return r
    return go(x)

def refs(x, seen, out):
    st = [x]
    while st:
        y = st.pop()
        if y in seen: continue
        seen.add(y)
        if y.op == 'ref': out.append(y.a[0]); continue
        a = list(y.a)
        while a:
            z = a.pop()
            if isinstance(z, T): st.append(z)
            elif isinstance(z, tuple): a.extend(z)
            elif isinstance(z, (Func, Inst, ListO, DictO, SetO, Frame)): out.append(z)

def left(I, exits, cells):
    """the state a first call leaves, told about a call before: (heap, path condition)"""
    st, _ = I.merge([(State(dict(s.h), s.pc), NONE) for kind, s, v, loc in exits])
    old = old_objects(I)
    h = {}; memo = {}
    todo = list(cells); seen = set(); done = set()
    byobj = {}
    for k in st.h: byobj.setdefault(k[0], []).append(k)
    while todo:
        k = todo.pop()
        if k in done: continue
        done.add(k)
        x = st.h.get(k)
        if x is None: continue
        h[k] = rename(x, memo)
        out = []
        refs(x, seen, out)
        for o in out:
            more = [o]
            if isinstance(o, Func): more += [f for f in o.scopes] + [d.a[0] for d in list(o.defaults) if isinstance(d, T) and d.op == 'ref']
            if hasattr(o, 'self_'): 
                o2 = []; refs(o.self_, seen, o2); more += o2
            for p in more:
                if p in old: continue
                todo += byobj.get(p, ())
    return h, rename(st.pc, memo)

def tried(I, fn):
    """fn is evaluated for what it leaves behind; whether it returns or raises does not matter"""
    from .interp import Dead
    save, I.exits = I.exits, []
    pc0 = I.st.pc
    ends = []
    try:
        try: fn(); ends.append((I.st, NONE))
        except Dead: pass
        ends += [(st, NONE) for kind, st, v, loc in I.exits]
    finally: I.exits = save
    I.st = I.merge(ends)[0]
    I.st.pc = pc0

def symbols(x):
    """names of the symbols of a term"""
    out = set(); seen = set(); st = [x]
    while st:
        y = st.pop()
        if y in seen or not isinstance(y, T): continue
        seen.add(y)
        if y.op == 'sym': out.add(y.a[0])
        a = list(y.a)
        while a:
            z = a.pop()
            if isinstance(z, T): st.append(z)
            elif isinstance(z, tuple): a.extend(z)
    return out
