"""What Python's builtins and the libraries /repo uses mean to the abstract interpreter."""
import importlib
import ast, sys
from . import terms as t
from .terms import T, mk, K, TRUE, FALSE, NONE, ZERO, ONE, isc, cv, ite, and_, or_, not_, Unsup, Blowup, B
from .interp import (Obj, Func, Builtin, BoundM, StaticM, ClassM, Prop, Cls, Inst, ListO, DictO, SetO, Mod, Ext, SuperO, Iter,
                     Dead, UNDEF, EMPTY_MAP, Frame)

NUMS = ('int', 'float', 'bool', 'num')

# ---------------------------------------------------------------- events
class _Ev(Obj):
    name = 'events'
EV = _Ev()
def emit(I, chan, *vals):
    k = '$ev_' + chan
    old = I.get(EV, k)
    if old is None: old = I.base[(EV, k)] = t.tup([])
    I.put(EV, k, t.seqcat([old, t.tup([t.tup([K(chan)] + [I.reify(v) for v in vals])])]))
def events(I, chan, st=None):
    v = (st.h.get((EV, '$ev_' + chan)) if st is not None else I.get(EV, '$ev_' + chan))
    return v if v is not None else t.tup([])
def counter(I, chan):
    """how many events of the channel happened so far, then one more"""
    k = '$n_' + chan
    n = I.get(EV, k)
    if n is None: n = I.base[(EV, k)] = ZERO
    I.put(EV, k, t.add(n, ONE))
    return n if not I.nbase else t.add(n, K(I.nbase))

# ---------------------------------------------------------------- setup
def setup(I):
    I.type_cls = None
    ob = Cls('object', [], None, None, True) if False else _mkobject()
    I.object_cls = ob
    I.bcls = {'object': ob}
    def C(name, bases=None):
        c = Cls(name, bases or [ob], None, None, True); I.bcls[name] = c; return c
    I.type_cls = C('type')
    for n in 'int float complex bytes bytearray str tuple list dict set frozenset memoryview'.split(): C(n)
    C('bool', [I.bcls['int']]); C('NoneType'); C('function'); C('range'); C('zip'); C('map'); C('module')
    for n in 'property staticmethod classmethod super'.split(): C(n)
    # exceptions: the hierarchy of the interpreter itself
    import builtins
    def exc(k):
        if k.__name__ in I.exc_cls: return I.exc_cls[k.__name__]
        bs = [exc(b) if issubclass(b, BaseException) else ob for b in k.__bases__]
        c = Cls(k.__name__, bs, None, None, True); I.exc_cls[k.__name__] = c
        return c
    for n, k in vars(builtins).items():
        if isinstance(k, type) and issubclass(k, BaseException): exc(k)
    I.builtins = {}
    for n, c in I.bcls.items(): I.builtins[n] = c.ref
    import builtins as _b
    for n, k in vars(_b).items():
        if isinstance(k, type) and issubclass(k, BaseException): I.builtins[n] = I.exc_cls[k.__name__].ref
    for n in dir(_b):
        if n not in I.builtins and n not in ('True', 'False', 'None'): I.builtins[n] = Ext('builtins.' + n).ref
    for n, f in BUILTINS.items(): I.builtins[n] = Builtin(n, f).ref
    I.builtins['NotImplemented'] = Ext('NotImplemented').ref
    I.builtins['__debug__'] = TRUE
    I.builtins['__name__'] = K('__main__')
    # object / type members
    def bi(name, f, nobind=False):
        b = Builtin(name, f); b.nobind = nobind; return b.ref
    I.put(ob, '__init__', bi('object.__init__', _object_init))
    I.put(ob, '__new__', bi('object.__new__', _object_new, True))
    I.put(ob, '__setattr__', bi('object.__setattr__', lambda I, a, k: (I.setattr_(a[0], cv(a[1]), a[2]), NONE)[1]))
    I.put(I.type_cls, '__init__', bi('type.__init__', lambda I, a, k: NONE))
    I.put(I.exc_cls['BaseException'], '__init__', bi('BaseException.__init__', _exc_init))
    I.freeze()

def _mkobject():
    c = Cls.__new__(Cls)
    c.name = 'object'; c.bases = []; c.mod = None; c.meta = None; c.builtin = True; c.mro = [c]
    return c

def _object_init(I, a, k):
    return NONE
def _object_new(I, a, k):
    c = a[0].a[0]
    i = Inst(c)
    if I.exc_cls['BaseException'] in c.mro: I.put(i, 'args', t.tup(a[1:]))
    else: I.put(i, '$inst', TRUE)
    return i.ref
def _exc_init(I, a, k):
    if a and a[0].op == 'ref': I.put(a[0].a[0], 'args', t.tup(a[1:]))
    return NONE

# ---------------------------------------------------------------- types
def type_of(I, x):
    """class of a leaf value, None if unknown"""
    s = x.sort
    c = I.class_of(x)
    if c is not None: return c
    m = {'int': 'int', 'bool': 'bool', 'bytes': 'bytes', 'str': 'str', 'float': 'float', 'none': 'NoneType', 'seq': 'tuple',
         'list': 'list', 'dict': 'dict', 'set': 'set', 'mod': 'module', 'map': 'dict', 'listv': 'list'}.get(s)
    if m: return I.bcls[m]
    if s == 'cls':
        return x.a[0].meta or I.type_cls
    if s == 'fn': return I.bcls['function']
    return None
def isinstance_(I, x, c):
    """c: class value or tuple"""
    cs = list(I.seq_of(c).a) if c.sort in ('seq', 'list') else [c]
    def f(x):
        k = type_of(I, x)
        r = FALSE
        for cc in cs:
            if cc.op != 'ref' or not isinstance(cc.a[0], Cls): raise Unsup('isinstance of %s' % t.show(cc))
            if k is not None:
                if cc.a[0] in k.mro: return TRUE
            else: r = or_(r, B(mk('isinst', (x, cc.a[0]), 'bool')))
        return r
    return t.lift(f, (x,))

def truth(I, x):
    if x.op == 'ite':
        # pure for everything but instances
        ls = t.leaves(x)
        if all(not (l.op == 'ref' or l.sort == 'obj') for l in ls): return t.lift(lambda y: truth(I, y), (x,))
        return I.bycase(x, lambda y: truth(I, y))
    if isc(x): return TRUE if cv(x) else FALSE
    s = x.sort
    if s == 'bool': return x if x.op == 'ite' else B(x)
    if s in ('int', 'num'): return not_(t.eq(x, ZERO))
    if s == 'float': return not_(t.eq(x, ZERO))
    if s in ('bytes', 'str', 'seq'): return not_(t.eq(t.length(x), ZERO))
    if s == 'none': return FALSE
    if s == 'map': return not_(t.eq(I.map_len(x), ZERO))
    if x.op == 'ref':
        o = x.a[0]
        if isinstance(o, (ListO, SetO)): return not_(t.eq(t.length(I.get(o, '$seq')), ZERO))
        if isinstance(o, DictO): return not_(t.eq(I.map_len(I.get(o, '$map')), ZERO))
    c = I.class_of(x)
    if c is not None:
        f = I.cls_attr(c, '__bool__')
        if f is not None: return truth(I, I.call(I.bind(f, x, c), [], {}))
        f = I.cls_attr(c, '__len__')
        if f is not None: return not_(t.eq(I.call(I.bind(f, x, c), [], {}), ZERO))
        return TRUE
    if s in ('fn', 'cls', 'mod', 'obj', 'listv'): return TRUE
    if s == 'undef': raise Unsup('truth of undefined')
    return B(mk('truth', (x,), 'bool'))

# ---------------------------------------------------------------- operators
_DUN = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'FloorDiv': '__floordiv__', 'Mod': '__mod__',
        'Pow': '__pow__', 'LShift': '__lshift__', 'RShift': '__rshift__', 'BitAnd': '__and__', 'BitOr': '__or__', 'BitXor': '__xor__'}
_TERM = {'Add': t.add, 'Sub': t.sub, 'Mult': t.mul, 'Div': t.tdiv, 'FloorDiv': t.fdiv, 'Mod': t.mod, 'Pow': t.pow_,
         'LShift': t.shl, 'RShift': t.shr, 'BitAnd': t.band, 'BitOr': t.bor, 'BitXor': t.bxor}

def _numeric(x):
    if x.op != 'ite': return x.sort in NUMS
    return all(l.sort in NUMS for l in t.leaves(x))

def binop(I, op, a, b, inplace=False):
    if _numeric(a) and _numeric(b):
        if op in ('Div', 'FloorDiv', 'Mod'): I.raise_if(t.eq(b, ZERO), 'ZeroDivisionError')
        return _TERM[op](a, b)
    def f(a):
        def g(b): return binop1(I, op, a, b, inplace)
        return I.bycase(b, g)
    return I.bycase(a, f)

def binop1(I, op, a, b, inplace):
    if op == 'Mod' and a.sort in ('str', 'bytes'): return percent(I, a, b)
    ca, cb = I.class_of(a), I.class_of(b)
    if ca is not None or cb is not None:
        if ca is not None:
            m = I.cls_attr(ca, _DUN[op])
            if m is not None: return I.call(I.bind(m, a, ca), [b], {})
        if cb is not None:
            m = I.cls_attr(cb, _DUN[op].replace('__', '__r', 1))
            if m is not None: return I.call(I.bind(m, b, cb), [a], {})
        I.throw('TypeError')
    la = a.op == 'ref' and isinstance(a.a[0], ListO)
    lb = b.op == 'ref' and isinstance(b.a[0], ListO)
    if la or lb:
        if op == 'Add' and la and (lb or inplace and b.sort in ('seq', 'bytes', 'iter')):
            s = t.seqcat([I.get(a.a[0], '$seq'), I.seq_of(b)])
            if inplace: I.put(a.a[0], '$seq', s); return a
            return I.new_list(s)
        if op == 'Mult':
            l, n = (a, b) if la else (b, a)
            if n.sort not in ('int', 'bool', 'any', 'num'): I.throw('TypeError')
            return I.new_list(t.mul(I.get(l.a[0], '$seq'), n))
        I.throw('TypeError')
    if a.op == 'ref' and isinstance(a.a[0], SetO) or b.op == 'ref' and isinstance(b.a[0], SetO): raise Unsup('set operator')
    known = ('int', 'float', 'bool', 'num', 'bytes', 'str', 'seq', 'none', 'fn', 'cls', 'obj', 'dict')
    sa, sb = a.sort, b.sort
    if sa in NUMS and sb in NUMS: return binop(I, op, a, b)
    if op == 'Add' and sa == sb and sa in ('bytes', 'str', 'seq'): return t.add(a, b)
    if op == 'Mult' and (sa in ('bytes', 'str', 'seq') and sb in ('int', 'bool', 'num') or sb in ('bytes', 'str', 'seq') and sa in ('int', 'bool', 'num')):
        return t.mul(a, b)
    if sa in known and sb in known: I.throw('TypeError')
    if op in ('Div', 'FloorDiv', 'Mod'):
        if sa == 'any': raise Unsup('% of unknown')
        I.raise_if(t.eq(b, ZERO), 'ZeroDivisionError')
    return _TERM[op](a, b)

def _is_lit(x): return isc(x) and cv(x) in (None, True, False)
def identical(I, a, b):
    if a is b: return TRUE
    if isc(a) and isc(b):
        return TRUE if type(cv(a)) == type(cv(b)) and cv(a) == cv(b) else FALSE
    if isc(b) and b.sort == 'none' or isc(a) and a.sort == 'none': return t.eq(a, b)
    if isc(b) and b.sort == 'bool' or isc(a) and a.sort == 'bool':
        if a.sort != 'bool' or b.sort != 'bool': return FALSE if 'any' not in (a.sort, b.sort) else B(mk('is', (a, b), 'bool'))
        return t.eq(a, b)
    if a.op == 'ref' and b.op == 'ref': return FALSE
    if a.op == 'ref' and b.sort in ('int', 'bytes', 'str', 'seq', 'none') or b.op == 'ref' and a.sort in ('int', 'bytes', 'str', 'seq', 'none'): return FALSE
    if a.sort != b.sort and 'any' not in (a.sort, b.sort): return FALSE
    if a.sort in ('int', 'str', 'bytes', 'bool'): return t.eq(a, b)
    return B(mk('is', tuple(sorted((a, b), key=lambda x: x.id)), 'bool'))

def equal(I, a, b):
    """a == b for leaves"""
    if a is b and a.sort != 'float': return TRUE
    ca, cb = I.class_of(a), I.class_of(b)
    if ca is not None or cb is not None:
        for x, y, c in ((a, b, ca), (b, a, cb)):
            if c is None: continue
            m = I.cls_attr(c, '__eq__')
            if m is not None:
                r = I.call(I.bind(m, x, c), [y], {})
                def g(r):
                    if r.op == 'ref' and isinstance(r.a[0], Ext) and r.a[0].name == 'NotImplemented': return identical(I, a, b)
                    return r
                return I.bycase(r, g)
        return identical(I, a, b)
    la = a.op == 'ref' and isinstance(a.a[0], (ListO, SetO, DictO)); lb = b.op == 'ref' and isinstance(b.a[0], (ListO, SetO, DictO))
    if la or lb:
        if la and lb:
            oa, ob = a.a[0], b.a[0]
            if type(oa) is not type(ob): return FALSE
            if isinstance(oa, ListO): return seq_eq(I, I.get(oa, '$seq'), I.get(ob, '$seq'))
            raise Unsup('== on dict or set')
        o = b if la else a
        if o.sort == 'any': return B(mk('eq', tuple(sorted((I.reify(a), I.reify(b)), key=lambda x: x.id)), 'bool'))
        return FALSE
    if a.op == 'ref' or b.op == 'ref': return identical(I, a, b)
    if a.sort == 'seq' and b.sort == 'seq': return seq_eq(I, a, b)
    return t.eq(a, b)
def seq_eq(I, a, b):
    if a.op == 'ite' or b.op == 'ite': return t.lift(lambda x, y: seq_eq(I, x, y), (a, b))
    la, lb = t.length(a), t.length(b)
    if isc(la) and isc(lb):
        if cv(la) != cv(lb): return FALSE
        if cv(la) <= 64:
            r = TRUE
            for i in range(cv(la)):
                x, y = t.seqget(a, K(i)), t.seqget(b, K(i))
                r = and_(r, compare(I, 'Eq', x, y))
            return r
    if isc(la) and cv(la) == 0: return t.eq(lb, ZERO)
    if isc(lb) and cv(lb) == 0: return t.eq(la, ZERO)
    return B(mk('eq', tuple(sorted((a, b), key=lambda x: x.id)), 'bool'))

def compare(I, op, a, b):
    if op in ('Eq', 'NotEq'):
        if _numeric(a) and _numeric(b): r = t.eq(a, b)
        else: r = I.bycase(a, lambda x: I.bycase(b, lambda y: equal(I, x, y)))
        if op == 'NotEq':
            ca = I.class_of(a) if a.op != 'ite' else None
            return not_(truth(I, r))
        return r
    if op in ('Is', 'IsNot'):
        r = t.lift(lambda x, y: identical(I, x, y), (a, b))
        return r if op == 'Is' else not_(r)
    if op in ('In', 'NotIn'):
        r = I.bycase(b, lambda y: contains(I, y, a))
        r = truth(I, r)
        return r if op == 'In' else not_(r)
    if _numeric(a) and _numeric(b):
        if op == 'Lt': return t.lt(a, b)
        if op == 'LtE': return t.le(a, b)
        if op == 'Gt': return t.lt(b, a)
        return t.le(b, a)
    def f(x, y):
        if op in ('Gt', 'GtE'): x, y = y, x; o = 'Lt' if op == 'Gt' else 'LtE'
        else: o = op
        c = I.class_of(x)
        if c is not None or I.class_of(y) is not None:
            dn = {'Lt': '__lt__', 'LtE': '__le__'}[o]
            if c is not None:
                m = I.cls_attr(c, dn)
                if m is not None: return truth(I, I.call(I.bind(m, x, c), [y], {}))
            I.throw('TypeError')
        if x.sort != y.sort and not (x.sort in NUMS and y.sort in NUMS) and 'any' not in (x.sort, y.sort): I.throw('TypeError')
        if x.sort in ('none', 'fn', 'cls'): I.throw('TypeError')
        if x.op == 'ref' or y.op == 'ref':
            if x.op == 'ref' and y.op == 'ref' and isinstance(x.a[0], ListO): x, y = I.get(x.a[0], '$seq'), I.get(y.a[0], '$seq')
            else: raise Unsup('ordering')
        if x.op == 'tup' and y.op == 'tup' and len(x.a) == len(y.a) and len(x.a) <= 6:
            r = TRUE if o == 'LtE' else FALSE
            for p, q in reversed(list(zip(x.a, y.a))):
                r = or_(truth(I, compare(I, 'Lt', p, q)), and_(truth(I, compare(I, 'Eq', p, q)), r))
            return r
        return t.lt(x, y) if o == 'Lt' else t.le(x, y)
    return I.bycase(a, lambda x: I.bycase(b, lambda y: f(x, y)))

def contains(I, c, x):
    if c.op == 'ref':
        o = c.a[0]
        if isinstance(o, DictO): return I.map_has(I.get(o, '$map'), key_norm(I, x))
        if isinstance(o, (ListO, SetO)): return contains(I, I.get(o, '$seq'), x)
        if isinstance(o, Iter): return contains(I, I.seq_of(c), x)
        if isinstance(o, Inst) or I.class_of(c):
            m = I.cls_attr(I.class_of(c), '__contains__')
            if m is not None: return truth(I, I.call(I.bind(m, c, I.class_of(c)), [x], {}))
            m = I.cls_attr(I.class_of(c), '__iter__')
            if m is not None: return contains(I, I.call(I.bind(m, c, I.class_of(c)), [], {}), x)
    if c.op == 'ite': return I.bycase(c, lambda y: contains(I, y, x))
    if c.sort == 'map': return I.map_has(c, key_norm(I, x))
    if c.sort == 'seq':
        if c.op == 'tup':
            r = FALSE
            for e in c.a: r = or_(r, truth(I, compare(I, 'Eq', e, x)))
            return r
        if c.op == 'mapkeys': return I.map_has(c.a[0], x)
        return t.lift(lambda c, x: B(mk('inseq', (c, I.reify(x)), 'bool')), (c, x))
    if c.sort in ('str', 'bytes'):
        def f(c, x):
            if isc(c) and isc(x): return K(cv(x) in cv(c))
            if isc(c) and c.sort == 'str' and x.sort == 'str' and len(cv(c)) <= 16 and t.length(x) is ONE:
                r = FALSE
                for ch in cv(c): r = or_(r, t.eq(x, K(ch)))
                return r
            return B(mk('substr', (c, x), 'bool'))
        return t.lift(f, (c, x))
    if c.sort in ('int', 'none', 'bool', 'float'): I.throw('TypeError')
    raise Unsup('in %s' % t.show(c))

def key_norm(I, k):
    """dictionary keys are compared by value"""
    def f(k):
        if k.op == 'tup': return t.tup([key_norm(I, x) for x in k.a])
        return k
    return t.lift(f, (k,))

def norm_index(I, n, i):
    i = t._num(i) if i.op != 'ite' else i
    if all(l.lo is not None and l.lo >= 0 for l in t.leaves(i)): return i
    f = i.lo
    if i.op == 'c': return t.add(n, i) if cv(i) < 0 else i
    return ite(t.lt(i, ZERO), t.add(n, i), i)

def getitem(I, o, i):
    if o.op == 'ite': return I.bycase(o, lambda x: getitem(I, x, i))
    if o.op == 'ref':
        x = o.a[0]
        if isinstance(x, DictO): return mapitem(I, I.get(x, '$map'), i)
        if isinstance(x, ListO):
            r = getitem(I, I.get(x, '$seq'), i)
            if i.sort == 'sliceobj': return I.new_list(r)
            return r
        if isinstance(x, Iter): return getitem(I, I.seq_of(o), i)
    c = I.class_of(o)
    if c is not None:
        m = I.cls_attr(c, '__getitem__')
        if m is not None: return I.call(I.bind(m, o, c), [i], {})
        I.throw('TypeError')
    if o.sort == 'map': return mapitem(I, o, i)
    if o.sort not in ('seq', 'bytes', 'str', 'any'):
        if o.sort in ('int', 'none', 'bool', 'float', 'fn', 'cls', 'set'): I.throw('TypeError')
        raise Unsup('subscript of %s' % t.show(o))
    if i.sort == 'sliceobj':
        lo, hi, st = i.a
        if isc(st) and cv(st) in (None, 1): return t.slice_(o, None if lo is NONE else lo, None if hi is NONE else hi)
        if isc(st) and cv(st) == -1 and lo is NONE and hi is NONE: return t.rev(o)
        def f(o, lo, hi, st):
            if isc(lo) and isc(hi) and isc(st):
                if isc(o): return K(cv(o)[cv(lo):cv(hi):cv(st)])
                if o.op == 'tup': return t.tup(o.a[cv(lo):cv(hi):cv(st)])
                L = t.length(o)
                if isc(L) and cv(L) <= 4096:
                    idx = range(cv(L))[cv(lo):cv(hi):cv(st)]
                    if o.sort == 'bytes': return t.cat([t.slice_(o, K(j), K(j + 1)) for j in idx], 'bytes') if len(idx) else K(b'')
                    if o.sort == 'seq': return t.tup([t.seqget(o, K(j)) for j in idx])
            return mk('stepslice', (o, lo, hi, st), o.sort)
        return t.lift(f, (o, lo, hi, st))
    if o.sort == 'any':
        return t.lift(lambda i: mk('elem', (o, i), 'any'), (i,))
    def g(i):
        if i.sort not in ('int', 'bool', 'any', 'num'): I.throw('TypeError')
        n = t.length(o)
        j = norm_index(I, n, i)
        I.raise_if(not_(and_(t.le(ZERO, j), t.lt(j, n))), 'IndexError')
        j = I.simpv(j)
        if o.sort == 'bytes': return t.byte(o, j)
        if o.sort == 'str':
            return t.slice_(o, j, t.add(j, ONE))
        return t.lift(lambda j: seqget(I, o, j), (j,))
    return I.bycase(i, g) if not _numeric(i) else g(i)
def seqget(I, o, j):
    if o.op == 'tup' and not isc(j):
        r = t._seqget(o, j)
        if r.op == 'elem' and len(o.a) <= 300:
            r = o.a[-1]
            for k in range(len(o.a) - 2, -1, -1): r = ite(t.eq(j, K(k)), o.a[k], r)
        return r
    return t.seqget(o, j)

def mapitem(I, m, k):
    k = key_norm(I, k)
    if m.sort == 'any':
        return mk('mapget', (m, k), 'any')
    I.raise_if(not_(I.map_has(m, k)), 'KeyError')
    return I.simpv(I.map_get(m, k))

def setitem(I, o, i, v):
    if o.op == 'ite': return I.bycase(o, lambda x: setitem(I, x, i, v))
    if o.op == 'ref':
        x = o.a[0]
        if isinstance(x, DictO):
            I.put(x, '$map', I.map_set(I.get(x, '$map'), key_norm(I, i), v)); return
        if isinstance(x, ListO):
            s = I.get(x, '$seq')
            if i.sort == 'sliceobj':
                lo, hi, st = i.a
                if st is not NONE: raise Unsup('slice assignment')
                a = t.slice_(s, ZERO, lo) if lo is not NONE else t.tup([])
                b = t.slice_(s, hi, None) if hi is not NONE else t.tup([])
                I.put(x, '$seq', t.seqcat([a, I.seq_of(v), b])); return
            n = t.length(s)
            def g(i):
                j = norm_index(I, n, i)
                I.raise_if(not_(and_(t.le(ZERO, j), t.lt(j, n))), 'IndexError')
                j2 = I.simpv(j)
                def up(s, j):
                    if s.op == 'tup' and isc(j):
                        xs = list(s.a); xs[cv(j)] = v; return t.tup(xs)
                    if s.op == 'tup' and len(s.a) <= 64:
                        return t.tup([ite(t.eq(j, K(k)), v, e) for k, e in enumerate(s.a)])
                    return mk('seqset', (s, j, v), 'seq')
                I.put(x, '$seq', t.lift(up, (s, j2)))
                return NONE
            I.bycase(i, g); return
    c = I.class_of(o)
    if c is not None:
        m = I.cls_attr(c, '__setitem__')
        if m is not None: I.call(I.bind(m, o, c), [i, v], {}); return
        I.throw('TypeError')
    if o.sort == 'bytes': raise Unsup('store to an octet')
    if o.sort in ('str', 'seq', 'int', 'none'): I.throw('TypeError')
    raise Unsup('item store')
def delitem(I, o, i):
    if o.op == 'ite': return I.bycase(o, lambda x: delitem(I, x, i))
    if o.op == 'ref' and isinstance(o.a[0], DictO):
        x = o.a[0]; m = I.get(x, '$map'); k = key_norm(I, i)
        I.raise_if(not_(I.map_has(m, k)), 'KeyError')
        I.put(x, '$map', I.map_del(m, k)); return
    if o.op == 'ref' and isinstance(o.a[0], ListO):
        s = I.get(o.a[0], '$seq'); n = t.length(s)
        if i.sort == 'sliceobj':
            lo, hi, st = i.a
            if st is not NONE: raise Unsup('del slice')
            if lo is not NONE and hi is not NONE and not (isc(lo) and isc(hi) and (cv(lo) < 0) == (cv(hi) < 0) and cv(lo) <= cv(hi)): raise Unsup('del slice')
            a = t.slice_(s, ZERO, lo) if lo is not NONE else t.tup([])
            b = t.slice_(s, hi, None) if hi is not NONE else t.tup([])
            I.put(o.a[0], '$seq', t.seqcat([a, b])); return
        j = norm_index(I, n, i)
        I.raise_if(not_(and_(t.le(ZERO, j), t.lt(j, n))), 'IndexError')
        j = I.simpv(j)
        I.put(o.a[0], '$seq', t.seqcat([t.slice_(s, ZERO, j), t.slice_(s, t.add(j, ONE), None)])); return
    c = I.class_of(o)
    if c is not None:
        m = I.cls_attr(c, '__delitem__')
        if m is not None: I.call(I.bind(m, o, c), [i], {}); return
    raise Unsup('del item')

# ---------------------------------------------------------------- text formatting
import re
def tostr(I, x):
    """str(x) of a leaf"""
    if x.sort == 'cls' and x.op == 'ref': return K("<class '%s'>" % x.a[0].qual)
    if isc(x): return K(str(cv(x)))
    if x.sort == 'str': return x
    if x.sort == 'int': return mk('dec10', (x,), 'str')
    c = I.class_of(x)
    if c is not None:
        f = I.cls_attr(c, '__str__') or I.cls_attr(c, '__repr__')
        if f is not None: return I.call(I.bind(f, x, c), [], {})
        if I.exc_cls['BaseException'] in c.mro and c.name != 'KeyError' and 'OSError' not in [b.name for b in c.mro] and x.op == 'ref':
            a = I.get(x.a[0], 'args')
            if a is not None and a.op == 'tup' and len(a.a) <= 1: return I.bycase(a.a[0], lambda y: tostr(I, y)) if a.a else K('')
    return mk('fmtv', ('s', I.reify(x)), 'str')
def torepr(I, x):
    if isc(x): return K(repr(cv(x)))
    if x.sort == 'int': return mk('dec10', (x,), 'str')
    c = I.class_of(x)
    if c is not None:
        f = I.cls_attr(c, '__repr__')
        if f is not None and f.op == 'ref' and isinstance(f.a[0], Func): return I.call(I.bind(f, x, c), [], {})
    return mk('fmtv', ('r', I.reify(x)), 'str')
def fmt1(I, spec, conv, x):
    """%<spec><conv> of one leaf value -> str term"""
    if isc(x):
        try: return K(('%' + spec + conv) % (cv(x),))
        except (TypeError, ValueError): 
            I.throw('TypeError')
    if conv in 'dxXuioc' and x.sort in ('bytes', 'str', 'seq', 'none', 'list', 'dict', 'obj'): 
        if conv == 'c' and x.sort == 'str': return x
        I.throw('TypeError')
    if conv in 'di' and spec == '' and x.sort == 'int': return mk('dec10', (x,), 'str')
    if conv == 'x' and x.sort in ('int', 'any', 'num'):
        m = re.match(r'^0(\d+)$', spec)
        return mk('hexnum', (x, int(m.group(1)) if m else (0 if spec == '' else spec)), 'str')
    if conv == 's' and spec == '': return tostr(I, x)
    if conv == 'r' and spec == '': return torepr(I, x)
    return mk('fmtv', (spec + conv, I.reify(x)), 'str')
def percent(I, f, args):
    isb = f.sort == 'bytes'
    if not isc(f):
        # "%0" + str(2*l) + "x"
        if not all(isc(x) or x.op == 'dec10' for x in (f.a if f.op == 'cat' else (f,))):
            I.raise_if(B(mk('badfmt', (f, I.reify(args)), 'bool')), 'TypeError')
        return mk('fmt', (f, I.reify(args)), f.sort)
    s = cv(f).decode('latin-1') if isb else cv(f)
    vals = list(args.a) if args.op == 'tup' else [args]
    out = []; i = 0; n = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])', s):
        if m.start() > i: out.append(K(s[i:m.start()]))
        i = m.end()
        if m.group(5) == '%': out.append(K('%')); continue
        if m.group(1): raise Unsup('%(name)s')
        w = m.group(3) or ''
        if w == '*':
            if n >= len(vals): I.throw('TypeError')
            if not isc(vals[n]): raise Unsup('%*')
            w = str(cv(vals[n])); n += 1
        if n >= len(vals): I.throw('TypeError')
        spec = (m.group(2) or '') + w + ('.' + m.group(4) if m.group(4) else '')
        v = vals[n]; n += 1
        conv = m.group(5)
        if isb and conv in 'sb':
            def fb(x):
                if x.sort == 'bytes' and spec == '': return t.decode(x, 'latin-1')
                I.throw('TypeError')
            out.append(I.bycase(v, fb)); continue
        out.append(I.bycase(v, lambda x: fmt1(I, spec, conv, x)))
    if i < len(s): out.append(K(s[i:]))
    if n < len(vals): I.throw('TypeError')
    r = t.cat(out, 'str') if out else K('')
    if isb: return t.encode(r, 'latin-1')
    return r
def format_value(I, v, spec, conversion):
    if conversion == 114: return I.bycase(v, lambda x: torepr(I, x))
    def f(x):
        if spec == '': return tostr(I, x)
        if isc(x): return K(format(cv(x), spec))
        m = re.match(r'^0(\d+)x$', spec)
        if m: return fmt1(I, '0' + m.group(1), 'x', x)
        if spec == 'x': return fmt1(I, '', 'x', x)
        if spec == 'd': return fmt1(I, '', 'd', x)
        return mk('fmtv', (':' + spec, I.reify(x)), 'str')
    return I.bycase(v, f)

# ---------------------------------------------------------------- methods of builtin values
def method(I, o, name):
    if o.op == 'ref':
        x = o.a[0]
        k = {ListO: 'list', DictO: 'dict', SetO: 'set', Iter: 'iter'}.get(type(x))
        if k is None: return None
    else: k = {'seq': 'tuple', 'map': 'dict', 'bool': 'int', 'num': 'int'}.get(o.sort, o.sort)
    f = METHODS.get(k + '.' + name)
    if f is None:
        if name == '__class__': 
            c = type_of(I, o)
            return c.ref if c is not None else None
        if k == 'bytes' and name in dir(bytearray): return Ext('bytearray.' + name).ref
        if name in dir({'list': list, 'dict': dict, 'set': set, 'tuple': tuple, 'str': str, 'bytes': bytes, 'int': int, 'float': float}.get(k, object())):
            return Ext('%s.%s' % (k, name)).ref
        return None
    b = Builtin('%s.%s' % (k, name), f)
    return BoundM(b.ref, o).ref

METHODS = {}
def meth(*names):
    def d(f):
        for n in names: METHODS[n] = f
        return f
    return d
def LS(I, o): return I.get(o.a[0], '$seq')

@meth('list.append')
def _(I, a, k):
    I.put(a[0].a[0], '$seq', t.seqcat([LS(I, a[0]), t.tup([a[1]])])); return NONE
@meth('list.extend')
def _(I, a, k):
    s = I.seq_of(a[1])
    I.put(a[0].a[0], '$seq', t.seqcat([LS(I, a[0]), s])); return NONE
@meth('list.insert')
def _(I, a, k):
    s = LS(I, a[0])
    if isc(a[1]) and cv(a[1]) == 0: r = t.seqcat([t.tup([a[2]]), s])
    else: r = t.seqcat([t.slice_(s, ZERO, a[1]), t.tup([a[2]]), t.slice_(s, a[1], None)])
    I.put(a[0].a[0], '$seq', r); return NONE
@meth('list.pop')
def _(I, a, k):
    s = LS(I, a[0]); n = t.length(s)
    i = a[1] if len(a) > 1 else K(-1)
    j = norm_index(I, n, i)
    I.raise_if(not_(and_(t.le(ZERO, j), t.lt(j, n))), 'IndexError')
    j = I.simpv(j); s = LS(I, a[0])
    v = t.seqget(s, j)
    I.put(a[0].a[0], '$seq', I.simpv(t.seqcat([t.slice_(s, ZERO, j), t.slice_(s, t.add(j, ONE), None)])))
    return v
@meth('list.remove')
def _(I, a, k):
    s = LS(I, a[0])
    I.raise_if(not_(contains(I, s, a[1])), 'ValueError')
    if s.op == 'tup':
        for i, e in enumerate(s.a):
            r = I.simp(truth(I, compare(I, 'Eq', e, a[1])))
            if r is TRUE:
                I.put(a[0].a[0], '$seq', t.tup(s.a[:i] + s.a[i + 1:])); return NONE
            if r is not FALSE: break
    I.put(a[0].a[0], '$seq', t.lift(lambda s, x: mk('seqremove', (s, x), 'seq'), (s, I.reify(a[1])))); return NONE
@meth('list.reverse')
def _(I, a, k):
    I.put(a[0].a[0], '$seq', t.rev(LS(I, a[0]))); return NONE
@meth('list.sort')
def _(I, a, k):
    I.put(a[0].a[0], '$seq', sort_seq(I, LS(I, a[0]), k)); return NONE
@meth('list.count', 'tuple.count')
def _(I, a, k):
    s = I.seq_of(a[0])
    if s.op == 'tup':
        r = ZERO
        for e in s.a: r = t.add(r, ite(truth(I, compare(I, 'Eq', e, a[1])), ONE, ZERO))
        return r
    return t.app('seqcount', (s, a[1]), 'int', 0)
@meth('list.index', 'tuple.index')
def _(I, a, k):
    s = I.seq_of(a[0])
    I.raise_if(not_(contains(I, s, a[1])), 'ValueError')
    return t.app('seqindex', (s, a[1]), 'int', 0)
@meth('list.copy')
def _(I, a, k): return I.new_list(LS(I, a[0]))

def MP(I, o): return I.get(o.a[0], '$map') if o.op == 'ref' else o
@meth('dict.get')
def _(I, a, k):
    d = a[2] if len(a) > 2 else NONE
    m = MP(I, a[0]); key = key_norm(I, a[1])
    h = I.simp(I.map_has(m, key))
    if h is FALSE: return d
    return ite(h, I.map_get(m, key), d)
@meth('dict.items')
def _(I, a, k):
    m = MP(I, a[0])
    def f(m):
        if m.op == 'map' and m.a[0] is None: return t.tup([t.tup([x, y]) for x, y in m.a[1]])
        ks = I.map_keys(m)
        n = I.map_len(m)
        return Iter(n, lambda i: t.tup([t.seqget(ks, i), I.map_get(m, t.seqget(ks, i))])).ref
    return t.lift(f, (m,))
@meth('dict.keys')
def _(I, a, k): return I.map_keys(MP(I, a[0]))
@meth('dict.values')
def _(I, a, k):
    m = MP(I, a[0])
    def f(m):
        if m.op == 'map' and m.a[0] is None: return t.tup([y for x, y in m.a[1]])
        h = I.mapvalues.get(m) if hasattr(I, 'mapvalues') else None
        if h is not None: return h
        ks = I.map_keys(m)
        return Iter(I.map_len(m), lambda i: I.map_get(m, t.seqget(ks, i))).ref
    return t.lift(f, (m,))
@meth('dict.copy')
def _(I, a, k):
    o = DictO(); o.name = 'dict'; I.put(o, '$map', MP(I, a[0])); return o.ref
@meth('dict.update')
def _(I, a, k):
    x = a[0].a[0]; m = I.get(x, '$map')
    for y in a[1:]:
        m2 = MP(I, y) if y.sort in ('dict', 'map') else None
        if m2 is None or m2.op != 'map' or m2.a[0] is not None: raise Unsup('update')
        for kk, v in m2.a[1]: m = I.map_set(m, kk, v)
    for kk, v in k.items(): m = I.map_set(m, K(kk), v)
    I.put(x, '$map', m); return NONE
@meth('dict.setdefault')
def _(I, a, k):
    x = a[0].a[0]; m = I.get(x, '$map'); key = key_norm(I, a[1]); d = a[2] if len(a) > 2 else NONE
    h = I.map_has(m, key)
    def no(): I.put(x, '$map', I.map_set(m, key, d)); return d
    return I.branch(h, lambda: I.map_get(m, key), no)
@meth('dict.pop')
def _(I, a, k):
    x = a[0].a[0]; m = I.get(x, '$map'); key = key_norm(I, a[1])
    h = I.map_has(m, key)
    if len(a) < 3: I.raise_if(not_(h), 'KeyError')
    def yes():
        v = I.map_get(m, key); I.put(x, '$map', I.map_del(m, key)); return v
    return I.branch(h, yes, lambda: a[2])
@meth('dict.clear')
def _(I, a, k): I.put(a[0].a[0], '$map', EMPTY_MAP); return NONE
@meth('list.clear')
def _(I, a, k): I.put(a[0].a[0], '$seq', t.tup([])); return NONE

def to_set(I, s):
    """canonical set content: insertion order, duplicates resolved"""
    if s.op == 'ite': return t.lift(lambda x: to_set(I, x), (s,))
    if s.op == 'tup':
        outs = t.tup([]); some = 0
        for e in s.a:
            def grow(o):
                dup = FALSE
                for x in o.a: dup = or_(dup, truth(I, compare(I, 'Eq', x, e)))
                return I.simp(dup)
            def add1(o):
                d = grow(o)
                return t.ite(d, o, t.tup(o.a + (e,)))
            outs = I.simpv(t.lift(add1, (outs,)))
            if outs.op == 'ite':
                some += 1
                if some > 4: return mk('uniq', (I.reify(s),), 'seq')
        return outs
    if s.op == 'uniq': return s
    return t.lift(lambda s: mk('uniq', (s,), 'seq'), (I.reify(s),))
@meth('set.add')
def _(I, a, k):
    s = LS(I, a[0])
    I.put(a[0].a[0], '$seq', to_set(I, t.seqcat([s, t.tup([a[1]])]))); return NONE
@meth('set.discard')
def _(I, a, k): raise Unsup('set.discard')

# ---- str / bytes
def _s(a): return a[0].sort
@meth('str.encode')
def _(I, a, k):
    codec = cv(a[1]) if len(a) > 1 else 'utf-8'
    codec = codec.replace('_', '-').lower()
    codec = {'utf8': 'utf-8', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1'}.get(codec, codec)
    def f(s):
        if isc(s):
            try: return K(cv(s).encode(codec))
            except UnicodeError: I.throw('UnicodeEncodeError')
        if not ascii_only(s):
            if codec == 'latin-1':
                if s.op != 'decode' or s.a[1] != 'latin-1': I.raise_if(B(mk('notlatin', (s,), 'bool')), 'UnicodeEncodeError')
            elif codec == 'ascii': I.raise_if(B(mk('notascii', (s,), 'bool')), 'UnicodeEncodeError')
        return t.encode(s, 'latin-1' if ascii_only(s) else codec)
    return I.bycase(a[0], f)
def ascii_only(s):
    if isc(s): return all((ord(c) if isinstance(c, str) else c) < 128 for c in cv(s))
    if s.op in ('hexnum', 'dec10', 'json'): return True
    if s.op == 'decode': return s.a[0].op == 'hex' or s.a[0].op in ('b58', 'b58enc')
    if s.op == 'cat': return all(ascii_only(p) for p in s.a)
    return False
@meth('bytes.decode')
def _(I, a, k):
    codec = cv(a[1]) if len(a) > 1 else 'utf-8'
    codec = codec.replace('_', '-').lower()
    codec = {'utf8': 'utf-8', 'latin1': 'latin-1'}.get(codec, codec)
    if len(a) > 2 or k:
        e = a[2] if len(a) > 2 else k.get('errors')
        if set(k) - {'errors'} or not isc(e): raise Unsup('decode')
        if codec != 'latin-1' and cv(e) != 'strict': return I.bycase(a[0], lambda s: K(cv(s).decode(codec, cv(e))) if isc(s) else t.app('decode_' + cv(e), [s, K(codec)], 'str'))
    def f(s):
        if isc(s):
            try: return K(cv(s).decode(codec))
            except UnicodeError: I.throw('UnicodeDecodeError')
        if codec != 'latin-1' and s.op not in ('hex', 'b58enc'):
            I.raise_if(B(mk('undecodable', (s, codec), 'bool')), 'UnicodeDecodeError')
            return t.decode(s, codec)
        return t.decode(s, 'latin-1')
    return I.bycase(a[0], f)
@meth('str.join', 'bytes.join')
def _(I, a, k):
    s = I.seq_of(a[1])
    sep = a[0]
    def f(s):
        if s.op == 'tup':
            out = []
            for i, e in enumerate(s.a):
                if i: out.append(sep)
                out.append(e)
            for e in s.a:
                for l in t.leaves(e):
                    if l.sort != sep.sort and l.sort != 'any': I.throw('TypeError')
            return t.cat(out, sep.sort) if out else (K(b'') if sep.sort == 'bytes' else K(''))
        es = t.elem_sort(s)
        if es and es[0] in ('bytes', 'str', 'int', 'bool', 'none', 'float', 'seq', 'obj', 'listv', 'dictv') and es[0] != sep.sort:
            I.raise_if(not_(t.eq(t.length(s), ZERO)), 'TypeError')
            return K(b'') if sep.sort == 'bytes' else K('')
        return mk('join', (sep, s), sep.sort)
    return I.bycase(s, f)
@meth('str.startswith', 'bytes.startswith')
def _(I, a, k):
    def f(s, p):
        if isc(p) and p.sort == s.sort: return t.eq(t.slice_(s, ZERO, K(len(cv(p)))), p)
        if p.sort == 'seq' and p.op == 'tup':
            r = FALSE
            for q in p.a: r = or_(r, f(s, q))
            return r
        if p.sort != s.sort and p.sort != 'any': I.throw('TypeError')
        return t.eq(t.slice_(s, ZERO, t.length(p)), p)
    return I.bycase(a[0], lambda s: I.bycase(a[1], lambda p: f(s, p)))
@meth('str.endswith', 'bytes.endswith')
def _(I, a, k):
    def f(s, p):
        if isc(p): 
            n = len(cv(p))
            return t.eq(t.slice_(s, K(-n), None), p) if n else TRUE
        raise Unsup('endswith')
    return I.bycase(a[0], lambda s: I.bycase(a[1], lambda p: f(s, p)))
def split_parts(s, sep):
    """a text made of numbers, base64 and constants is cut at a separator these do not contain"""
    if isinstance(sep, bytes):
        if ord(sep) in t.B64: return None
        parts = s.a if s.op == 'cat' else (s,)
        out = [[]]
        for p in parts:
            if isc(p):
                xs = cv(p).split(sep)
                out[-1].append(K(xs[0]))
                for x in xs[1:]: out.append([K(x)])
            elif t.isb64(p): out[-1].append(p)
            else: return None
        return t.tup([t.cat(x, 'bytes') if x else K(b'') for x in out])
    if sep in '0123456789abcdef-+': return None
    parts = s.a if s.op == 'cat' else (s,)
    out = [[]]
    for p in parts:
        if isc(p):
            xs = cv(p).split(sep)
            out[-1].append(K(xs[0]))
            for x in xs[1:]: out.append([K(x)])
        elif p.op == 'dec10' or p.op == 'hexnum' and isinstance(p.a[1], int): out[-1].append(p)
        else: return None
    return t.tup([t.cat(x, 'str') if x else K('') for x in out])
def _strmeth(name, srt=None, raises=None):
    def f(I, a, k):
        def g(*xs):
            if name in ('strip', 'lstrip', 'rstrip') and len(xs) == 1 and t.isb64(xs[0]): return xs[0]
            if name == 'split' and len(xs) == 2 and isc(xs[1]) and isinstance(cv(xs[1]), (str, bytes)) and len(cv(xs[1])) == 1 and xs[0].sort == xs[1].sort:
                r = split_parts(xs[0], cv(xs[1]))
                if r is not None: return r
            if all(isc(x) for x in xs):
                try: r = getattr(cv(xs[0]), name)(*[cv(x) for x in xs[1:]])
                except (TypeError, ValueError) as e: I.throw(type(e).__name__)
                if isinstance(r, (list, tuple)): return t.tup([K(x) for x in r])
                return K(r)
            s = srt or xs[0].sort
            r = mk('m_' + name, tuple(xs), s, 0 if s == 'int' and name == 'count' else None)
            if s == 'seq': t.set_elem_sort(r, xs[0].sort)
            return r
        r = t.lift(g, a)
        if srt == 'seq': return I.bycase(r, lambda y: I.new_list(y))
        return r
    for ty in ('str.', 'bytes.'): METHODS[ty + name] = f
for n in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'capitalize', 'zfill', 'rjust', 'swapcase', 'title'): _strmeth(n)
for n in ('split', 'rsplit', 'splitlines'): _strmeth(n, 'seq')
for n in ('find', 'rfind', 'count'): _strmeth(n, 'int')
for n in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower'):
    def _mk(n):
        def f(I, a, k):
            def g(x):
                if isc(x): return K(getattr(cv(x), n)())
                return B(mk('m_' + n, (x,), 'bool'))
            return t.lift(g, (a[0],))
        METHODS['str.' + n] = METHODS['bytes.' + n] = f
    _mk(n)
@meth('bytes.ljust', 'str.ljust')
def _(I, a, k):
    def f(s, n, c=None):
        ch = c if c is not None else K(b' ' if s.sort == 'bytes' else ' ')
        if isc(s) and isc(n) and isc(ch): return K(cv(s).ljust(cv(n), cv(ch)))
        if isc(ch) and isc(n):
            L = t.length(s)
            if isc(L): return t.cat([s, K(cv(ch) * max(0, cv(n) - cv(L)))], s.sort)
        return mk('m_ljust', (s, n, ch), s.sort)
    return t.lift(f, a)
@meth('str.index', 'bytes.index')
def _(I, a, k):
    def f(s, x):
        if isc(s) and isc(x):
            try: return K(cv(s).index(cv(x)))
            except ValueError: I.throw('ValueError')
        I.raise_if(not_(B(mk('substr', (s, x), 'bool'))), 'ValueError')
        return mk('m_index', (s, x), 'int', 0, len(cv(s)) - 1 if isc(s) else None)
    return I.bycase(a[0], lambda s: I.bycase(a[1], lambda x: f(s, x)))
@meth('str.format')
def _(I, a, k):
    if isc(a[0]):
        import string
        try: parts = list(string.Formatter().parse(cv(a[0])))
        except ValueError: I.throw('ValueError')
        out = []; auto = 0; ok = True
        for lit, name, spec, conv in parts:
            if lit: out.append(K(lit))
            if name is None: continue
            if name == '': name = str(auto); auto += 1
            if name.isdigit():
                if int(name) + 1 >= len(a): I.throw('IndexError')
                x = a[1 + int(name)]
            elif name in k: x = k[name]
            elif name.isidentifier(): I.throw('KeyError')
            else: ok = False; break
            if '{' in (spec or ''): ok = False; break
            out.append(format_value(I, tostr(I, x) if conv == 's' else x, spec or '', 114 if conv == 'r' else -1))
        if ok: return t.cat(out, 'str') if len(out) > 1 else out[0] if out else K('')
    if k: raise Unsup('str.format')
    m = isc(a[0]) and re.match(r'^\{(?:0)?(?::([^{}]*))?\}$', cv(a[0]))
    if m and len(a) == 2: return format_value(I, a[1], m.group(1) or '', -1)
    if not isc(a[0]) and not k:
        I.raise_if(B(mk('badformat', (a[0], I.reify(t.tup(a[1:]))), 'bool')), 'ValueError')
    return mk('fformat', (a[0], I.reify(t.tup(a[1:]))), 'str')
@meth('bytes.hex')
def _(I, a, k): return t.decode(t.hexl(a[0]), 'latin-1')
@meth('int.to_bytes')
def _(I, a, k):
    n = a[1] if len(a) > 1 else k.get('length', ONE); e = a[2] if len(a) > 2 else k.get('byteorder', K('big'))
    sg = cv(k.get('signed', FALSE))
    if not isc(n): return int_to_bytes_sym(I, a[0], n, cv(e))
    return pack_int(I, a[0], cv(n), '<' if cv(e) == 'little' else '>', sg, 'OverflowError')
@meth('int.bit_length')
def _(I, a, k):
    return t.lift(lambda x: K(cv(x).bit_length()) if isc(x) else mk('bitlen', (x,), 'int', 0), (a[0],))
@meth('float.is_integer')
def _(I, a, k): return t.lift(lambda x: B(mk('isint', (x,), 'bool')), (a[0],))
def int_to_bytes_sym(I, x, n, e):
    r = mk('encn', (x, n, '<' if e == 'little' else '>'), 'bytes')
    return r

def pack_int(I, x, n, e, signed, exc):
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    def f(x):
        if x.sort not in ('int', 'bool', 'any', 'num'): I.throw('error' if exc == 'error' else 'TypeError')
        if x.sort in ('any', 'num'): I.raise_if(not_(isinstance_(I, x, I.bcls['int'].ref)), exc)
        I.raise_if(not_(and_(t.le(K(lo), x), t.le(x, K(hi)))), exc)
        return t.enc(x, n, e, 1 if signed else 0)
    return I.bycase(x, f)

def sort_seq(I, s, k):
    rev = truth(I, k['reverse']) if 'reverse' in k else FALSE
    if not isc(rev): raise Unsup('sort order')
    key = k.get('key')
    if key is not None and key is NONE: key = None
    s = I.simpv(s)
    def f(s):
        if s.op == 'tup' and len(s.a) <= 1: return s
        if s.op == 'tup' and key is None and all(isc(x) for x in s.a):
            return t.tup(sorted(s.a, key=cv, reverse=cv(rev)))
        if key is None: keys = I.reify(s)
        else:
            its = I.iterate(s)
            if isinstance(its, list): keys = I.reify(t.tup([I.call(key, [x], {}) for x in its]))
            else:
                from . import loops
                keys = loops.seqmap(I, Iter(its.n, lambda i: I.call(key, [its.get(i)], {})))
        return t.lift(lambda s2, keys: mk('sortby', (s2, keys, cv(rev)), 'seq'), (s if key is not None else keys, keys))
    r = I.bycase(s, f)
    for l in t.leaves(r):
        if l.op == 'sortby': t.set_elem_sort(l, *t.elem_sort(l.a[0]))
    return r

# ---------------------------------------------------------------- builtin functions
BUILTINS = {}
def builtin(*names):
    def d(f):
        for n in names: BUILTINS[n] = f
        return f
    return d
def want(I, a, n, m=None):
    if not (n <= len(a) <= (m or n)): I.throw('TypeError')

@builtin('len')
def _(I, a, k):
    def f(x):
        if x.op == 'ref':
            o = x.a[0]
            if isinstance(o, (ListO, SetO)): return t.length(I.get(o, '$seq'))
            if isinstance(o, DictO): return I.map_len(I.get(o, '$map'))
            if isinstance(o, Iter): return o.n
        c = I.class_of(x)
        if c is not None:
            m = I.cls_attr(c, '__len__')
            if m is not None: return I.call(I.bind(m, x, c), [], {})
            I.throw('TypeError')
        if x.sort == 'map': return I.map_len(x)
        if x.sort in ('bytes', 'str', 'seq'): return t.length(x)
        if x.sort in ('int', 'none', 'bool', 'float', 'fn', 'cls'): I.throw('TypeError')
        return mk('len', (x,), 'int', 0)
    return I.bycase(a[0], f)
@builtin('isinstance')
def _(I, a, k): return isinstance_(I, a[0], a[1])
@builtin('issubclass')
def _(I, a, k):
    return K(any(c.a[0] in a[0].a[0].mro for c in (I.seq_of(a[1]).a if a[1].sort in ('seq', 'list') else [a[1]])))
@builtin('print')
def _(I, a, k):
    put_text(I, a); return NONE
def put_text(I, a):
    def f(x):
        c = I.class_of(x)
        return tostr(I, x) if c is not None and not isc(x) and (I.cls_attr(c, '__str__') or I.cls_attr(c, '__repr__')) else x
    emit(I, 'text', *[I.bycase(v, f) for v in a])
LOGS = ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log')
def ext_call(I, o, args, kw):
    p = o.name.split('.')
    if o.name in I.overrides: return I.overrides[o.name](I, o, list(args), kw)
    if p[0] == 'sys' and p[1] in ('stdout', 'stderr', '__stdout__', '__stderr__') and len(p) > 2:
        if p[-1] in ('write', 'writelines'): put_text(I, args); return NONE
        if p[-1] == 'flush': return NONE
    if p[0] == 'logging' and p[-1] == 'getLogger': return Ext('logging.logger').ref
    if p[0] == 'logging' and p[-1] in LOGS or o.name == 'warnings.warn': put_text(I, args); return NONE
    raise Unsup('call of %s' % o.name)
@builtin('repr', 'ascii')
def _(I, a, k):
    def f(x): return torepr(I, x)
    return I.bycase(a[0], f)
@builtin('hash')
def _(I, a, k):
    def f(x):
        c = I.class_of(x)
        if c is not None:
            m = I.cls_attr(c, '__hash__')
            if m is not None: return I.call(I.bind(m, x, c), [], {})
        return mk('hash', (I.reify(x),), 'int')
    return I.bycase(a[0], f)
@builtin('id')
def _(I, a, k): return t.app('id', (a[0],), 'int', 0)
@builtin('callable')
def _(I, a, k): return I.bycase(a[0], lambda x: K(x.sort in ('fn', 'cls')))
@builtin('ord')
def _(I, a, k):
    def f(x):
        if isc(x) and x.sort in ('bytes', 'str') and len(cv(x)) == 1: return K(ord(cv(x)))
        if x.sort not in ('bytes', 'str', 'any'): I.throw('TypeError')
        I.raise_if(not_(t.eq(t.length(x), ONE)), 'TypeError')
        if x.sort == 'bytes': return t.byte(x, ZERO)
        if x.op == 'slice' and x.a[0].op == 'decode' and x.a[0].a[1] == 'latin-1': return t.byte(x.a[0].a[0], x.a[1])
        return mk('ord', (x,), 'int', 0, 0x10ffff)
    return I.bycase(a[0], f)
@builtin('chr')
def _(I, a, k):
    return t.lift(lambda x: K(chr(cv(x))) if isc(x) else mk('chr', (x,), 'str'), (a[0],))
@builtin('abs')
def _(I, a, k): return ite(t.lt(a[0], ZERO), t.neg(a[0]), a[0])
@builtin('divmod')
def _(I, a, k):
    return t.tup([binop(I, 'FloorDiv', a[0], a[1]), binop(I, 'Mod', a[0], a[1])])
@builtin('pow')
def _(I, a, k):
    if len(a) == 3:
        def f(x, e, m):
            if isc(x) and isc(e) and isc(m) and cv(m) > 0:
                try: return K(pow(cv(x), cv(e), cv(m)))
                except ValueError: I.throw('ValueError')
            if isc(e) and cv(e) == -1: return t.inv(x, m)
            if isc(e) and cv(e) == 2: return t.mod(t.mul(x, x), m)
            if isc(e) and cv(e) == 3: return t.mod(t.mul(x, t.mul(x, x)), m)
            return mk('powmod', (t.mod(x, m), e, m), 'int', 0)
        return t.lift(f, a)
    return t.pow_(a[0], a[1])
@builtin('range', 'xrange_')
def _(I, a, k):
    lo, hi, st = ZERO, None, 1
    if len(a) == 1: hi = a[0]
    else: lo, hi = a[0], a[1]
    if len(a) == 3:
        if not isc(a[2]): raise Unsup('range step')
        st = cv(a[2])
    for x in (lo, hi):
        for l in t.leaves(x):
            if l.sort not in ('int', 'bool', 'any', 'num'): I.throw('TypeError')
    if isc(lo) and isc(hi):
        r = range(cv(lo), cv(hi), st)
        if len(r) > 100000: raise Blowup('long range')
        return t.tup([K(i) for i in r])
    d = t.sub(hi, lo) if st > 0 else t.sub(lo, hi)
    n = t.fdiv(t.add(d, K(abs(st) - 1)), K(abs(st))) if abs(st) != 1 else d
    n = ite(t.lt(n, ZERO), ZERO, n)
    return Iter(I.simpv(n), lambda i: t.add(lo, t.mul(i, K(st)))).ref
@builtin('__bset__')
def _(I, a, k):
    def f(b, i, v):
        if b.sort != 'bytes' or i.sort != 'int' or v.sort not in ('int', 'bool'): raise Unsup('store to an octet')
        n = t.length(b); j = norm_index(I, n, i)
        I.raise_if(not_(and_(t.le(ZERO, j), t.lt(j, n))), 'IndexError')
        I.raise_if(not_(and_(t.le(ZERO, v), t.lt(v, K(256)))), 'ValueError')
        j = I.simpv(j)
        return t.cat([t.slice_(b, ZERO, j), to_bytes(I, [t.tup([v])], {}), t.slice_(b, I.simpv(t.add(j, ONE)), n)], 'bytes')
    return I.bycase(a[0], lambda b: I.bycase(a[1], lambda i: I.bycase(a[2], lambda v: f(b, i, v))))
@builtin('__binsert__')
def _(I, a, k):
    if not (isc(a[1]) and cv(a[1]) == 0): raise Unsup('insert')
    return I.bycase(a[0], lambda b: t.cat([to_bytes(I, [t.tup([a[2]])], {}), b], 'bytes'))
@builtin('__first__')
def _(I, a, k):
    def f(s):
        n = t.length(s)
        if len(a) > 1:
            if isc(n): return t.seqget(s, ZERO) if cv(n) else a[1]
            return ite(t.lt(ZERO, n), t.seqget(s, ZERO), a[1])
        I.raise_if(t.eq(n, ZERO), 'StopIteration')
        return t.seqget(s, ZERO)
    return I.bycase(I.seq_of(a[0]), f)
@builtin('reversed')
def _(I, a, k): return I.bycase(I.seq_of(a[0]), lambda s: t.rev(s))
@builtin('sorted')
def _(I, a, k):
    return I.bycase(sort_seq(I, I.seq_of(a[0]), k), lambda s: I.new_list(s))
@builtin('enumerate')
def _(I, a, k):
    start = a[1] if len(a) > 1 else k.get('start', ZERO)
    def f(x):
        its = I.iterate(x)
        if isinstance(its, list): return t.tup([t.tup([t.add(start, K(i)), e]) for i, e in enumerate(its)])
        return Iter(its.n, lambda i: t.tup([t.add(start, i), its.get(i)])).ref
    return I.bycase(a[0], f)
@builtin('iter')
def _(I, a, k): return a[0]
@builtin('getattr')
def _(I, a, k):
    def f(n):
        if not isc(n): raise Unsup('getattr with unknown name %s' % t.show(n))
        return I.getattr_(a[0], cv(n), a[2] if len(a) > 2 else None)
    return I.bycase(a[1], f)
@builtin('hasattr')
def _(I, a, k):
    n = cv(a[1])
    def f(o):
        c = I.class_of(o)
        if c is not None:
            v = I.cls_attr(c, n)
            if v is not None: return TRUE
            v = I.field(o, n)
            if v is None: return FALSE
            return t.lift(lambda y: FALSE if y is UNDEF else TRUE, (v,))
        d = Ext('$default').ref
        r = I.getattr_(o, n, d)
        return FALSE if r is d else TRUE
    return I.bycase(a[0], f)
@builtin('setattr')
def _(I, a, k):
    if not isc(a[1]): raise Unsup('setattr')
    I.setattr_(a[0], cv(a[1]), a[2]); return NONE
@builtin('delattr')
def _(I, a, k): raise Unsup('delattr')
@builtin('open')
def _(I, a, k):
    m = I.load('__stub_io')
    if m is None: raise Unsup('open')
    return I.call(I.get(m, 'open'), a, k)
@builtin('input')
def _(I, a, k): return t.app('input', (counter(I, 'input'),), 'str')
def _base(conv, prefix):
    def g(I, a, k):
        want(I, a, 1)
        def f(x):
            if isc(x) and isinstance(cv(x), int): return K((bin, oct, hex)['box'.index(conv)](cv(x)))
            if x.sort in ('bytes', 'str', 'float', 'none', 'seq', 'list', 'dict', 'set'): I.throw('TypeError')
            if x.sort not in ('int', 'bool'): raise Unsup(prefix)
            d = (mk('hexnum', (x, 0), 'str') if conv == 'x' else t.app('digits_' + conv, [x], 'str')) if x.lo is not None and x.lo >= 0 else None
            if d is not None: return t.cat([K(prefix), d])
            return t.app('based_' + conv, [x], 'str')
        return I.bycase(a[0], f)
    return g
BUILTINS['bin'] = _base('b', '0b'); BUILTINS['oct'] = _base('o', '0o'); BUILTINS['hex'] = _base('x', '0x')
@builtin('format')
def _(I, a, k): return format_value(I, a[0], cv(a[1]) if len(a) > 1 else '', -1)
@builtin('vars', 'dir', 'globals', 'locals', 'eval', 'exec', 'compile', '__import__')
def _(I, a, k): raise Unsup('dynamic builtin')
@builtin('next')
def _next(I, a, k):
    def f(g):
        if g.op == 'ref' and type(g.a[0]).__name__ == 'Gen': return I.taken(g.a[0])
        raise Unsup('next')
    return I.bycase(a[0], f)
# primitives of the stub modules
@builtin('__emit__')
def _(I, a, k): emit(I, cv(a[0]), *a[1:]); return NONE
@builtin('__sym__')
def _(I, a, k):
    """__sym__(name, sort[, lo, hi]): one fixed unknown"""
    return t.sym(cv(a[0]), cv(a[1]), cv(a[2]) if len(a) > 2 else None, cv(a[3]) if len(a) > 3 else None)
APPS = {}   # uninterpreted functions with laws
def sort_ext(s):
    """'bytes32' is a byte string of 32 bytes"""
    if s.startswith('bytes') and s[5:].isdigit(): return 'bytes', int(s[5:])
    return s, None
@builtin('__fresh__')
def _(I, a, k):
    """__fresh__(name, sort, args...): a new unknown at each call, numbered in call order"""
    n = counter(I, cv(a[0]))
    s, e = sort_ext(cv(a[1]))
    r = t.app('fresh_' + cv(a[0]), (n,) + tuple(I.reify(x) for x in a[2:]), s, None, None, e)
    if s == 'bool': return t.lift(lambda y: B(y), (r,))
    return r
@builtin('__count__')
def _(I, a, k):
    """__count__(name): 0, 1, 2, ..."""
    return counter(I, cv(a[0]))
@builtin('__app__')
def _(I, a, k):
    """__app__(name, sort, args...): uninterpreted function"""
    s, e = sort_ext(cv(a[1]))
    if cv(a[0]) in APPS: return t.lift(APPS[cv(a[0])], tuple(I.reify(x) for x in a[2:]))
    r = t.app(cv(a[0]), tuple(I.reify(x) for x in a[2:]), s, None, None, e)
    if s == 'bool': return t.lift(lambda y: B(y), (r,))
    return r
@builtin('__near__')
def _(I, a, k):
    """whether a path certainly is in the directory of another"""
    def f(x, y):
        if x is y: return t.TRUE
        parts = list(x.a) if x.op == 'cat' else [x]
        if parts and parts[0] is y and all(isc(p) and '/' not in cv(p) for p in parts[1:]): return t.TRUE
        if isc(x): return t.FALSE
        def flat(p): return p.op == 'basename' or (isc(p) and '/' not in cv(p))
        if x.op == 'pathjoin' and x.a[0].op == 'dirname' and x.a[0].a[0] is y and all(flat(p) for p in (x.a[1].a if x.a[1].op == 'cat' else (x.a[1],))): return t.TRUE
        first = x.a[0] if x.op in ('cat', 'pathjoin') else x
        if isc(first) and cv(first)[:1] == '/' and not isc(y): return t.FALSE
        raise Unsup('whether two paths share a directory')
    return t.lift(f, (I.simpv(a[0]), I.simpv(a[1])))
@builtin('__lock__')
def _(I, a, k):
    """__lock__(what, lock or thread): tells the analysis of threads"""
    if I.onlock is not None: I.onlock(cv(a[0]), a[1])
    return NONE
@builtin('__unsup__')
def _(I, a, k): raise Unsup(cv(a[0]) if a else 'stub')

def dict_from_seq(I, s):
    def f(s):
        if s.op == 'tup':
            ps = []
            for e in s.a:
                x = I.unpack(e, 2); ps.append((key_norm(I, x[0]), x[1]))
            return I.new_dict(ps)
        o = DictO(); o.name = 'dict'
        I.put(o, '$map', mk('mapof', (I.reify(s),), 'map'))
        return o.ref
    return I.bycase(s, f)

def instantiate(I, c, a, k):
    """calls of builtin classes"""
    if not c.builtin: return None
    n = c.name
    if c in I.exc_cls.values(): return None
    if n == 'object': return None
    if n == 'type':
        if len(a) == 1:
            def f(x):
                ty = type_of(I, x)
                if ty is None: return mk('typeof', (x,), 'cls')
                return ty.ref
            return I.bycase(a[0], f)
        raise Unsup('type()')
    if n == 'super':
        if len(a) == 2: return I.bycase(a[1], lambda x: SuperO(a[0].a[0], x).ref)
        ctx = I.ctx
        node_first = None
        fr = ctx.frame
        # zero-argument form: first parameter
        for (o, nm), v in I.st.h.items():
            if o is fr and nm in ('self', 'cls', 'klass'): return SuperO(ctx.cls, v).ref
        raise Unsup('super()')
    if n == 'property': return Prop(a[0] if a else k.get('fget', NONE), (a[1] if len(a) > 1 else k.get('fset'))).ref
    if n == 'staticmethod': return StaticM(a[0]).ref
    if n == 'classmethod': return ClassM(a[0]).ref
    if n == 'int': return to_int(I, a, k)
    if n == 'float':
        def f(x):
            if isc(x):
                try: return K(float(cv(x)))
                except (ValueError, TypeError) as e: I.throw(type(e).__name__)
            if x.sort == 'float': return x
            return mk('tofloat', (x,), 'float')
        return t.lift(f, a) if a else K(0.0)
    if n == 'bool': return truth(I, a[0]) if a else FALSE
    if n == 'str':
        if not a: return K('')
        if len(a) > 1 or k: return METHODS['bytes.decode'](I, a + list(k.values()), {})
        return I.bycase(a[0], lambda x: tostr(I, x))
    if n in ('bytes', 'bytearray'): return to_bytes(I, a, k)
    if n == 'tuple': return I.bycase(I.seq_of(a[0]), lambda s: s) if a else t.tup([])
    if n == 'list': return I.bycase(I.seq_of(a[0]), lambda s: I.new_list(s)) if a else I.new_list([])
    if n in ('set', 'frozenset'): return I.bycase(I.seq_of(a[0]), lambda s: I.new_set(to_set(I, s))) if a else I.new_set(t.tup([]))
    if n == 'dict':
        if a:
            def f(x):
                if x.sort == 'map': 
                    o = DictO(); o.name = 'dict'; I.put(o, '$map', x); return o.ref
                if x.op == 'ref' and isinstance(x.a[0], DictO): return METHODS['dict.copy'](I, [x], {})
                return dict_from_seq(I, I.seq_of(x))
            d = I.bycase(a[0], f)
        else: d = I.new_dict([])
        if k: METHODS['dict.update'](I, [d], k)
        return d
    if n == 'range': return BUILTINS['range'](I, a, k)
    if n == 'zip':
        its = [I.iterate(x) for x in a]
        if all(isinstance(x, list) for x in its): return t.tup([t.tup(list(p)) for p in zip(*its)])
        ns = [K(len(x)) if isinstance(x, list) else x.n for x in its]
        nn = ns[0]
        for m in ns[1:]: nn = ite(t.lt(m, nn), m, nn)
        def g(x):
            if isinstance(x, list):
                s = t.tup(x); return lambda i: seqget(I, s, i)
            return x.get
        gs = [g(x) for x in its]
        return Iter(I.simpv(nn), lambda i: t.tup([q(i) for q in gs])).ref
    if n == 'map':
        its = I.iterate(a[1]) if len(a) == 2 else I.iterate(instantiate(I, I.bcls['zip'], a[1:], {}))
        if isinstance(its, list):
            return t.tup([I.call(a[0], [x] if len(a) == 2 else list(x.a), {}) for x in its])
        from . import loops
        return loops.seqmap(I, Iter(its.n, lambda i: I.call(a[0], [its.get(i)], {})))
    raise Unsup('%s()' % n)

def not_number(x, b):
    if x.op != 'cat' or not isc(b): return False
    ok = '0123456789abcdefghijklmnopqrstuvwxyz'[:cv(b)] + '+-_ \t\n\r\x0b\x0c'
    if cv(b) in (0, 16): ok += 'xX'
    return any(isc(p) and isinstance(cv(p), str) and any(ord(c) < 128 and c.lower() not in ok for c in cv(p)) for p in x.a)
def to_int(I, a, k):
    if not a: return ZERO
    if len(a) > 1 or 'base' in k:
        b = a[1] if len(a) > 1 else k['base']
        def g(x):
            if isc(x) and isc(b):
                try: return K(int(cv(x), cv(b)))
                except (ValueError, TypeError) as e: I.throw(type(e).__name__)
            if x.sort in ('int', 'none'): I.throw('TypeError')
            if isc(b) and cv(b) == 16:
                y = x.a[0] if x.op in ('encode', 'decode') else x
                if y.op == 'hex':
                    I.raise_if(t.eq(t.length(y.a[0]), ZERO), 'ValueError')
                    return bytes_to_int(y.a[0], '>')
                if y.op == 'hexnum': return y.a[0]
            if not_number(x, b): I.throw('ValueError')
            # text that is not a number
            I.raise_if(B(mk('notnum', (x, b), 'bool')), 'ValueError')
            return mk('parseint', (x, b), 'int')
        return I.bycase(a[0], g)
    def f(x):
        if isc(x):
            try: return K(int(cv(x)))
            except (ValueError, TypeError) as e: I.throw(type(e).__name__)
        if x.sort == 'int': return x
        if x.sort == 'bool': return ite(x if x.op == 'ite' else B(x), ONE, ZERO)
        if x.sort in ('float', 'num'): return t._trunc(x)
        if x.sort in ('str', 'bytes'):
            if x.op == 'dec10': return x.a[0]
            if not_number(x, K(10)): I.throw('ValueError')
            I.raise_if(B(mk('notnum', (x, K(10)), 'bool')), 'ValueError')
            return mk('parseint', (x, K(10)), 'int')
        if x.sort in ('none', 'seq', 'list', 'dict', 'obj', 'fn', 'cls'): I.throw('TypeError')
        return mk('toint', (x,), 'int')
    return I.bycase(a[0], f)
def bytes_to_int(b, e):
    def f(b):
        n = t.length(b)
        if isc(n): return t.dec(b, cv(n), e, 0)
        return mk('dec', (b, e, 0), 'int', 0, None)
    return t.lift(f, (b,))
_int_cls_attrs = {'from_bytes': lambda I, a, k: _from_bytes(I, a, k)}
def _from_bytes(I, a, k):
    e = a[1] if len(a) > 1 else k.get('byteorder', K('big'))
    s = cv(k.get('signed', FALSE))
    b = a[0]
    if b.sort in ('seq', 'list'): b = to_bytes(I, [b], {})
    def f(b):
        n = t.length(b)
        if isc(n):
            if cv(n) == 0: return ZERO
            return t.dec(b, cv(n), '<' if cv(e) == 'little' else '>', 1 if s else 0)
        return mk('dec', (b, '<' if cv(e) == 'little' else '>', 1 if s else 0), 'int', 0 if not s else None)
    return I.bycase(b, f)
def _fromhex(I, a, k):
    def f(x):
        if isc(x):
            try: return K(bytes.fromhex(cv(x)))
            except (ValueError, TypeError) as e: I.throw(type(e).__name__)
        if x.sort != 'str': I.throw('TypeError')
        y = x.a[0] if x.op == 'decode' else x
        if y.op in ('hex', 'hexnum', 'cat'): return unhexlify(I, [t.encode(x, 'latin-1')], {})
        I.raise_if(B(mk('notfromhex', (x,), 'bool')), 'ValueError')
        return t.app('fromhex', [x], 'bytes')
    return I.bycase(a[0], f)
def cls_builtin_attr(I, c, name):
    if c.name == 'int' and name == 'from_bytes': return Builtin('int.from_bytes', _from_bytes).ref
    if c.name == 'bytes' and name == 'fromhex':
        return Builtin('bytes.fromhex', _fromhex).ref
    if c.builtin and c.name in ('str', 'bytes', 'list', 'dict', 'int'):
        f = METHODS.get(c.name + '.' + name)
        if f: return Builtin(name, f).ref
    if c.builtin:
        import builtins
        k = getattr(builtins, c.name, None)
        if isinstance(k, type) and hasattr(k, name): return Ext('%s.%s' % (c.name, name)).ref
    return None

def to_bytes(I, a, k):
    if not a: return K(b'')
    if len(a) > 1: return METHODS['str.encode'](I, a, {})
    def f(x):
        if x.sort == 'bytes': return x
        if x.sort == 'str': I.throw('TypeError')
        if x.sort in ('int', 'bool'):
            if isc(x): return K(bytes(cv(x)))
            I.raise_if(t.lt(x, ZERO), 'ValueError')
            return t.mul(K(b'\0'), x)
        if x.sort in ('none', 'float', 'fn', 'cls', 'obj'): I.throw('TypeError')
        s = I.seq_of(x)
        return I.bycase(s, lambda s: bytes_of_seq(I, s))
    return I.bycase(a[0], f)
def bytes_of_seq(I, s):
    """bytes([..]) with range check"""
    if s.op == 'bseq': return s.a[0]
    if s.op == 'tup':
        out = []
        for e in s.a:
            for l in t.leaves(e):
                if l.sort not in ('int', 'bool', 'any', 'num'): I.throw('TypeError')
            I.raise_if(not_(and_(t.le(ZERO, e), t.le(e, K(255)))), 'ValueError')
        bs = [t.lift(lambda x: t._enc(t._num(x), 1, '>', 0), (I.simpv(e),)) for e in s.a]
        return catbytes(bs)
    if s.op == 'rev': return t.rev(bytes_of_seq(I, s.a[0]))
    if s.op == 'seqcat': return t.cat([bytes_of_seq(I, p) for p in s.a], 'bytes')
    if s.op == 'slice': 
        return t.slice_(bytes_of_seq(I, s.a[0]), s.a[1], s.a[2])
    es = t.elem_sort(s)
    if not (es[0] == 'int' and es[1] is not None and es[1] >= 0 and es[2] is not None and es[2] <= 255):
        I.raise_if(B(mk('badbytes', (s,), 'bool')), 'ValueError')
    return mk('tobytes', (s,), 'bytes')
def catbytes(bs):
    """joins single bytes back to slices"""
    out = []
    for b in bs:
        if b.op == 'enc' and b.a[1] == 1 and b.a[0].op == 'byte':
            src, i = b.a[0].a
            b = mk('slice', (src, i, t.add(i, ONE)), 'bytes')
        out.append(b)
    r = t.cat(out, 'bytes') if out else K(b'')
    if r.op == 'slice' and r.a[1] is ZERO and r.a[2] is t.length(r.a[0]): return r.a[0]
    return r

def call_opaque(I, f, a, k): return None
def inst_attr(I, o, c, name):
    if name == '__class__': return c.ref
    if name == '__dict__': raise Unsup('__dict__')
    return None
def func_attr(I, o, name): return None

# ---------------------------------------------------------------- libraries
PY3_STD = set(getattr(sys, 'stdlib_module_names', ())) | {'asyncore', 'asynchat', 'imp', 'distutils', 'smtpd'}
PKGS = {'six'}
EXTM = {}
def ext_module(I, name):
    if name in ('darwin2', 'miniupnpc'): return None
    top = name.split('.')[0]
    if top not in PY3_STD and top not in PKGS: return None
    return Mod(name)
def ext_attr(I, m, name):
    h = EXTM.get(m.name + '.' + name)
    if h is not None:
        v = h(I) if callable(h) else h
        if v.op == 'ref' and not isinstance(v.a[0], (Builtin, Cls, Mod)): I.put(m, name, v)
        else: I.base[(m, name)] = v
        return v
    if m.name + '.' + name in PYMODS or (m.name in ('os', 'urllib', 'six.moves') and name in ('path', 'request', 'parse', 'error', 'urllib')):
        return I.load(m.name + '.' + name).ref
    if m.name == 'threading': return Ext(m.name + '.' + name).ref
    if m.name.split('.')[0] in I.roots: return None
    if m.name in ('errno', 'socket') and name.isupper():
        v = getattr(__import__(m.name), name, None)
        if isinstance(v, int): return K(int(v))
        if v is None: return None
    if m.name in EXCMODS:
        v = getattr(importlib.import_module(m.name), name, None)
        if isinstance(v, type) and issubclass(v, BaseException): return _std_exc(I, v)
    return Ext(m.name + '.' + name).ref
EXCMODS = {'socket', 'select', 'ssl', 'struct', 'binascii', 'json', 'http.client', 'urllib.error', 'queue', 'subprocess', 'zlib', 'pickle', 'getpass', 'traceback', 'errno'}
def _std_exc(I, k):
    """an exception class of the standard library"""
    c = I.exc_cls.get(k.__name__) if k.__module__ == 'builtins' else I.exc_cls.get(k.__module__ + '.' + k.__qualname__)
    if c is None:
        bs = [_std_exc(I, b).a[0] for b in k.__bases__ if issubclass(b, BaseException)]
        c = Cls(k.__name__, bs, None, None, True); I.exc_cls[k.__module__ + '.' + k.__qualname__] = c
    return c.ref
PYMODS = {'os.path', 'urllib.request'}

def lib(name):
    def d(f):
        b = Builtin(name, f)
        EXTM[name] = lambda I: b.ref
        return f
    return d

# six
@lib('six.next')
def _(I, a, k): return _next(I, a, k)
@lib('six.advance_iterator')
def _(I, a, k): return _next(I, a, k)
EXTM['six.integer_types'] = lambda I: t.tup([I.bcls['int'].ref])
EXTM['six.string_types'] = lambda I: t.tup([I.bcls['str'].ref])
EXTM['six.text_type'] = lambda I: I.bcls['str'].ref
EXTM['six.binary_type'] = lambda I: I.bcls['bytes'].ref
EXTM['six.PY3'] = lambda I: TRUE
EXTM['six.PY2'] = lambda I: FALSE
def _fn(n): return lambda I: I.get(I.load('__stub_fn'), n)
for _n in 'add sub mul mod floordiv xor and_ or_ lshift rshift eq ne lt le gt ge not_ neg getitem itemgetter'.split(): EXTM['operator.' + _n] = _fn('op_' + _n)
EXTM['functools.partial'] = _fn('partial'); EXTM['itertools.chain'] = _fn('chain'); EXTM['hmac.compare_digest'] = _fn('compare_digest')
def _stubmeth(n):
    def f(I, a, k): return I.call(I.get(I.load('__stub_fn'), n), a, k)
    return f
for _n in ('partition', 'removeprefix', 'removesuffix'):
    for _t in ('str.', 'bytes.'): METHODS[_t + _n] = _stubmeth(_n)
for _n in ('lru_cache', 'cache', 'wraps'): EXTM['functools.' + _n] = (lambda n: lambda I: I.get(I.load('__stub_fn'), n))(_n)
for _n in ('six.moves.reduce', 'functools.reduce'): EXTM[_n] = lambda I: I.get(I.load('__stub_fn'), 'reduce')
@lib('six.print_')
def _(I, a, k): put_text(I, a); return NONE
@lib('six.b')
def _(I, a, k): return METHODS['str.encode'](I, [a[0], K('latin-1')], {})
@lib('six.u')
def _(I, a, k): return a[0]
@lib('six.int2byte')
def _(I, a, k): return to_bytes(I, [t.tup([a[0]])], {})
@lib('six.byte2int')
def _(I, a, k): return getitem(I, a[0], ZERO)
@lib('six.add_metaclass')
def _(I, a, k):
    meta = a[0].a[0]
    def dec(I, a2, k2):
        c = a2[0].a[0]
        c.meta = meta
        I.run_meta(c)
        return a2[0]
    return Builtin('add_metaclass', dec).ref
EXTM['sys.platform'] = lambda I: K('linux')
EXTM['sys.version_info'] = lambda I: t.tup([K(3), K(11), K(0), K('final'), K(0)])
EXTM['sys.maxsize'] = lambda I: K(2 ** 63 - 1)
EXTM['sys.stdout'] = lambda I: Ext('sys.stdout').ref
EXTM['sys.stderr'] = lambda I: Ext('sys.stderr').ref
EXTM['sys.byteorder'] = lambda I: K('little')
@lib('sys.exc_info')
def _(I, a, k): 
    return t.tup([t.app('exc_type', (counter(I, 'excinfo'),), 'any'), t.sym('exc_value'), t.sym('exc_tb')])
@lib('traceback.format_exc')
def _(I, a, k): return t.sym('traceback', 'str')
EXTM['os.name'] = lambda I: K('posix')

NOW = t.sym('now', 'float', 0)
@lib('time.time')
def _(I, a, k):
    c = I.get(EV, '$clock')
    if c is not None and c is not NONE: return c
    return I.now if getattr(I, 'now', None) is not None else NOW
@builtin('__clock__')
def _(I, a, k):
    if (EV, '$clock') not in I.base: I.base[(EV, '$clock')] = NONE
    I.put(EV, '$clock', a[0]); return NONE

# hex
@lib('binascii.hexlify')
def _(I, a, k): return I.bycase(a[0], lambda x: t.hexl(x) if x.sort == 'bytes' else I.throw('TypeError'))
EXTM['binascii.b2a_hex'] = lambda I: EXTM['binascii.hexlify'](I)
class _BE: pass
EXTM['binascii.Error'] = lambda I: _sub_exc(I, 'binascii.Error', 'ValueError')
def _sub_exc(I, name, base):
    c = I.exc_cls.get(name)
    if c is None:
        c = Cls(name.split('.')[-1], [I.exc_cls[base]], None, None, True); I.exc_cls[name] = c
    return c.ref
@lib('binascii.unhexlify')
def unhexlify(I, a, k, spaces=False):
    def f(x):
        if isc(x):
            import binascii
            try: return K(binascii.unhexlify(cv(x)))
            except ValueError: _sub_exc(I, 'binascii.Error', 'ValueError'); I.throw('binascii.Error')
        y = x.a[0] if x.op in ('encode', 'decode') else x
        if y.op == 'hex': return y.a[0]
        if y.op == 'hexnum' and isinstance(y.a[1], int):
            v, n = y.a
            r = hexnum_bytes(I, v, n)
            if r is not None: return r
        if y.op == 'cat' and all(p.op == 'hex' or isc(p) or p.op == 'decode' and p.a[0].op == 'hex' for p in y.a):
            try: return t.cat([f(p) for p in y.a], 'bytes')
            except Dead: raise Unsup('unhexlify')
        _sub_exc(I, 'binascii.Error', 'ValueError')
        if x.sort not in ('bytes', 'str', 'any'): I.throw('TypeError')
        I.raise_if(B(mk('nothex', (y,), 'bool')), 'binascii.Error')
        return mk('unhex', (y,), 'bytes')
    return I.bycase(a[0], f)
EXTM['binascii.a2b_hex'] = lambda I: EXTM['binascii.unhexlify'](I)
def hexnum_bytes(I, v, n):
    """unhexlify('%0<n>x' % v)"""
    def g(v):
        if n and n % 2 == 0:
            big = I.simp(not_(t.le(v, K((1 << (4 * n)) - 1))))
            neg = I.simp(t.lt(v, ZERO))
            _sub_exc(I, 'binascii.Error', 'ValueError')
            I.raise_if(neg, 'binascii.Error')
            def over():
                I.raise_if(B(mk('oddhex', (v,), 'bool')), 'binascii.Error')
                return mk('encmin', (v,), 'bytes')
            return I.branch(big, over, lambda: t.enc(v, n // 2, '>', 0))
        _sub_exc(I, 'binascii.Error', 'ValueError')
        I.raise_if(t.lt(v, ZERO), 'binascii.Error')
        I.raise_if(B(mk('oddhex', (v,), 'bool')), 'binascii.Error')
        return mk('encmin', (v,), 'bytes')
    return I.bycase(v, g)
@lib('codecs.getdecoder')
def _(I, a, k):
    if cv(a[0]) not in ('hex_codec', 'hex'): raise Unsup('codec')
    return Builtin('hex_decoder', lambda I, a2, k2: t.tup([unhexlify(I, [a2[0]], {}), t.length(a2[0])])).ref

# hashing
def digest(I, alg, data):
    def f(x):
        if x.sort != 'bytes': I.throw('TypeError')
        if isc(x):
            import hashlib
            try: return K(hashlib.new(alg, cv(x)).digest())
            except ValueError: pass
        return mk('digest', (alg, x), 'bytes')
    return I.bycase(data, f)
def hash_obj(I, alg, data):
    c = I.hashcls = getattr(I, 'hashcls', None) or Cls('hash', [I.object_cls], None, None, True)
    i = Inst(c, 'hash'); I.put(i, '$alg', K(alg)); I.put(i, '$data', data)
    I.put(i, 'digest_size', K({'sha1': 20, 'sha256': 32, 'sha512': 64, 'ripemd160': 20, 'md5': 16, 'sha224': 28, 'sha384': 48}[alg]))
    I.put(i, 'block_size', K(128 if alg in ('sha512', 'sha384') else 64))
    I.put(i, 'name', K(alg))
    if I.get(c, 'digest') is None:
        def m(name, fn): I.base[(c, name)] = Builtin('hash.' + name, fn).ref
        def upd(I, a, k):
            o = a[0].a[0]; I.put(o, '$data', t.cat([I.get(o, '$data'), a[1]], 'bytes')); return NONE
        m('digest', lambda I, a, k: I.bycase(I.get(a[0].a[0], '$alg'), lambda al: digest(I, cv(al), I.get(a[0].a[0], '$data'))))
        m('hexdigest', lambda I, a, k: t.decode(t.hexl(digest(I, cv(I.get(a[0].a[0], '$alg')), I.get(a[0].a[0], '$data'))), 'latin-1'))
        m('update', upd)
        m('copy', lambda I, a, k: hash_obj(I, cv(I.get(a[0].a[0], '$alg')), I.get(a[0].a[0], '$data')))
    return i.ref
HASHF = {}
for _alg in ('sha1', 'sha256', 'sha512', 'md5', 'sha224', 'sha384'):
    def _mkh(alg):
        def f(I, a, k):
            d = a[0] if a else K(b'')
            for l in t.leaves(d):
                if l.sort not in ('bytes', 'any'): I.throw('TypeError')
            return hash_obj(I, alg, d)
        lib('hashlib.' + alg)(f)
    _mkh(_alg)
@lib('hashlib.new')
def _(I, a, k):
    if not isc(a[0]): raise Unsup('hashlib.new')
    return hash_obj(I, cv(a[0]), a[1] if len(a) > 1 else k.get('data', K(b'')))
def alg_of(I, f):
    """digestmod argument -> algorithm name"""
    if isc(f): return cv(f)
    if f.op == 'ref' and isinstance(f.a[0], Builtin) and f.a[0].name.startswith('hashlib.'): return f.a[0].name.split('.')[1]
    if f.op == 'sym': return 'H'
    raise Unsup('digestmod')
def hmac_digest(I, alg, key, msg):
    def f(k2, m):
        if isc(k2) and isc(m) and alg in t.FIXLEN:
            import hmac, hashlib
            return K(hmac.new(cv(k2), cv(m), alg).digest())
        return mk('hmac', (alg, k2, m), 'bytes')
    return t.lift(f, (key, msg))
@lib('hmac.new')
def _(I, a, k):
    key = a[0] if a else k['key']
    msg = a[1] if len(a) > 1 else k.get('msg', NONE)
    if msg is NONE: msg = K(b'')
    dm = a[2] if len(a) > 2 else k.get('digestmod')
    alg = alg_of(I, dm)
    c = I.hmaccls = getattr(I, 'hmaccls', None) or Cls('hmac', [I.object_cls], None, None, True)
    i = Inst(c, 'hmac'); I.put(i, '$alg', K(alg)); I.put(i, '$key', key); I.put(i, '$data', msg)
    if I.get(c, 'digest') is None:
        def m(name, fn): I.base[(c, name)] = Builtin('hmac.' + name, fn).ref
        def upd(I, a, k):
            o = a[0].a[0]; I.put(o, '$data', t.cat([I.get(o, '$data'), a[1]], 'bytes')); return NONE
        m('digest', lambda I, a, k: hmac_digest(I, cv(I.get(a[0].a[0], '$alg')), I.get(a[0].a[0], '$key'), I.get(a[0].a[0], '$data')))
        m('hexdigest', lambda I, a, k: t.decode(t.hexl(hmac_digest(I, cv(I.get(a[0].a[0], '$alg')), I.get(a[0].a[0], '$key'), I.get(a[0].a[0], '$data'))), 'latin-1'))
        m('update', upd)
    return i.ref
@lib('hmac.compare_digest')
def _(I, a, k): return compare(I, 'Eq', a[0], a[1])

# struct
_SZ = {'b': (1, 1), 'B': (1, 0), 'h': (2, 1), 'H': (2, 0), 'i': (4, 1), 'I': (4, 0), 'l': (4, 1), 'L': (4, 0), 'q': (8, 1), 'Q': (8, 0), 'c': (1, 0), '?': (1, 0)}
def parse_fmt(fmt):
    if isinstance(fmt, bytes): fmt = fmt.decode()
    e = '<'
    if fmt[:1] in '<>!=@':
        if fmt[0] in '@': raise Unsup('native struct')
        e = '<' if fmt[0] in '<=' else '>'; fmt = fmt[1:]
    else: raise Unsup('native struct')
    out = []
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', fmt):
        if c == 's': out.append(('s', int(n or 1)))
        elif c == 'x': out.append(('x', int(n or 1)))
        elif c in _SZ: out += [(c, _SZ[c])] * int(n or 1)
        else: raise Unsup('struct %s' % c)
    return e, out
def _sterr(I):
    _sub_exc(I, 'struct.error', 'Exception'); return 'struct.error'
EXTM['struct.error'] = lambda I: _sub_exc(I, 'struct.error', 'Exception')
@lib('struct.pack')
def _(I, a, k):
    def f(fm):
        if not isc(fm): raise Unsup('struct format')
        e, items = parse_fmt(cv(fm))
        vals = a[1:]
        if len([1 for c, _ in items if c != 'x']) != len(vals): _sterr(I); I.throw('struct.error')
        out = []; i = 0
        for c, w in items:
            if c == 'x': out.append(K(b'\0' * w)); continue
            v = vals[i]; i += 1
            if c == 's':
                def g(v):
                    if v.sort != 'bytes': _sterr(I); I.throw('struct.error')
                    L = t.length(v)
                    if isc(L) and cv(L) == w: return v
                    if isc(L) and cv(L) < w: return t.cat([v, K(b'\0' * (w - cv(L)))])
                    if isc(L): return t.slice_(v, ZERO, K(w))
                    return mk('m_ljust', (t.slice_(v, ZERO, K(w)), K(w), K(b'\0')), 'bytes')
                out.append(I.bycase(v, g)); continue
            if c in 'c?': raise Unsup('struct %s' % c)
            out.append(pack_int(I, v, w[0], e, w[1], _sterr(I)))
        return t.cat(out, 'bytes') if out else K(b'')
    return I.bycase(a[0], f)
def _unpack(I, fm, data):
    e, items = parse_fmt(cv(fm))
    size = sum(w if c in 'sx' else w[0] for c, w in items)
    def g(d):
        if d.sort != 'bytes': I.throw('TypeError')
        I.raise_if(not_(t.eq(t.length(d), K(size))), _sterr(I))
        d = fixlen(I, d, size)
        out = []; off = 0
        for c, w in items:
            if c == 'x': off += w; continue
            n = w if c == 's' else w[0]
            p = t.slice_(d, K(off), K(off + n)) if size != n else d
            if c == 's': out.append(p)
            else: out.append(t.dec(p, n, e, w[1]))
            off += n
        return t.tup(out)
    return I.bycase(data, g)
def fixlen(I, d, size):
    """bytes now known to have this length: forget the other branches and trim open slices"""
    d = I.simpv(d)
    def f(d):
        if d.op == 'slice' and d.a[2] is None: return mk('slice', (d.a[0], d.a[1], t.add(d.a[1], K(size))), 'bytes')
        return d
    return t.lift(f, (d,))
@lib('copy.copy')
def _(I, a, k):
    def f(x):
        if x.op == 'ref':
            o = x.a[0]
            if isinstance(o, ListO): return I.new_list(I.seq_of(x))
            if isinstance(o, DictO): return METHODS['dict.copy'](I, [x], {})
            if isinstance(o, (Cls, Mod, Builtin)): return x
            raise Unsup('copy of an object')
        if x.sort in ('int', 'bool', 'bytes', 'str', 'none', 'float', 'seq'): return x
        raise Unsup('copy of %s' % x.sort)
    return I.bycase(a[0], f)
@lib('struct.unpack')
def _(I, a, k):
    def f(fm):
        if not isc(fm): raise Unsup('struct format')
        return _unpack(I, fm, a[1])
    return I.bycase(a[0], f)
@lib('struct.unpack_from')
def _(I, a, k):
    fm = a[0]; off = a[2] if len(a) > 2 else ZERO
    e, items = parse_fmt(cv(fm)); size = sum(w if c in 'sx' else w[0] for c, w in items)
    return _unpack(I, fm, t.slice_(a[1], off, t.add(off, K(size))))
@lib('struct.calcsize')
def _(I, a, k):
    e, items = parse_fmt(cv(a[0])); return K(sum(w if c in 'sx' else w[0] for c, w in items))

# math
@lib('math.log')
def _(I, a, k):
    import math
    def f(*x):
        if all(isc(y) for y in x): return K(math.log(*[cv(y) for y in x]))
        return mk('log', tuple(x), 'float')
    return t.lift(f, a)
@lib('math.ceil')
def _(I, a, k):
    import math
    return t.lift(lambda x: K(math.ceil(cv(x))) if isc(x) else mk('ceil', (x,), 'int'), a)
@lib('math.floor')
def _(I, a, k):
    import math
    return t.lift(lambda x: K(math.floor(cv(x))) if isc(x) else mk('floor', (x,), 'int'), a)

# randomness
@lib('os.urandom')
def _(I, a, k):
    n = a[0]
    return t.lift(lambda n, c: mk('urandom', (n, c), 'bytes', None, None), (n, counter(I, 'urandom')))
def draws(I, name, a, k):
    """a check may say what is drawn"""
    f = I.overrides.get('random.' + name)
    return None if f is None else f(I, None, list(a), k)
@lib('random.randint')
def _(I, a, k):
    r = draws(I, 'randint', a, k)
    if r is not None: return r
    lo, hi = a
    c = counter(I, 'random')
    I.raise_if(t.lt(hi, lo), 'ValueError')
    return t.lift(lambda lo, hi, c: mk('randint', (lo, hi, c), 'int', lo.lo, hi.hi), (lo, hi, c))
@lib('random.choice')
def _(I, a, k):
    r = draws(I, 'choice', a, k)
    if r is not None: return r
    c = counter(I, 'random')
    s = I.seq_of(a[0])
    I.raise_if(t.eq(t.length(s), ZERO), 'IndexError')
    n = t.length(s)
    i = t.lift(lambda n, c: mk('randint', (ZERO, t.sub(n, ONE), c), 'int', 0), (n, c))
    return t.lift(lambda s, i: t.seqget(s, i) if s.op != 'tup' else seqget(I, s, i), (I.simpv(s), i))

@lib('random.randrange')
def _(I, a, k):
    lo, hi = (ZERO, a[0]) if len(a) == 1 else a[:2]
    return EXTM['random.randint'](I).a[0].fn(I, [lo, t.sub(hi, ONE)], {})
@lib('random.random')
def _(I, a, k):
    r = draws(I, 'random', a, k)
    if r is None: raise Unsup('random.random')
    return r
@lib('random.shuffle')
def _(I, a, k):
    if draws(I, 'shuffle', a, k) is None: raise Unsup('random.shuffle')
    return NONE

@lib('time.sleep')
def _(I, a, k): emit(I, 'block', K('time.sleep')); return NONE
@lib('getpass.getpass')
def _(I, a, k): return t.app('getpass', (counter(I, 'getpass'),), 'str')
@lib('errno.EADDRINUSE_')
def _(I, a, k): return NONE
EXTM['errno.EADDRINUSE'] = lambda I: K(98)

@lib('socket.getaddrinfo')
def _(I, a, k):
    n = counter(I, 'getaddrinfo')
    I.raise_if(B(t.app('getaddrinfo_fails', (n,), 'bool')), 'OSError')
    def one(i):
        return t.tup([K(2), K(1), K(6), K(''), t.tup([t.app('getaddrinfo_ip', (n, K(i)), 'str'), t.app('getaddrinfo_port', (n, K(i)), 'int', 0)])])
    return I.new_list(t.tup([one(0), one(1)]))
# json, base64
@lib('json.dumps')
def _(I, a, k):
    if 'default' in k or 'cls' in k or 'skipkeys' in k: raise Unsup('json.dumps with its own encoding')
    x = I.reify(a[0])
    I.raise_if(json_bad(x), 'TypeError')
    return t.lift(lambda x: mk('json', (x,), 'str'), (x,))
@lib('json.dump')
def _(I, a, k):
    s = I.call(EXTM['json.dumps'](I), [a[0]], {})
    return I.call(I.getattr_(a[1], 'write'), [s], {})
@lib('json.load')
def _(I, a, k):
    return I.call(EXTM['json.loads'](I), [I.call(I.getattr_(a[0], 'read'), [], {})], {})
def json_bad(x):
    """whether a value has no representation in JSON"""
    if x.op == 'ite': return t.ite(B(x.a[0]), json_bad(x.a[1]), json_bad(x.a[2]))
    if x.op == 'dictv':
        m = x.a[0]
        if m.op == 'ite': return t.lift(lambda y: json_bad(mk('dictv', (y,), 'dictv')), (m,))
        if m.op == 'map' and m.a[0] is None: return t.any_([t.any_([t.TRUE if k.sort in ('bytes', 'seq') else t.FALSE, json_bad(v)]) for k, v in m.a[1]])
        return t.FALSE
    if x.op == 'listv': return json_bad(x.a[0])
    if x.op in ('tup', 'seqcat'): return t.any_([json_bad(y) for y in x.a])
    if x.sort == 'bytes' or x.op in ('setv', 'objval') or x.sort == 'fn' or x.op == 'ref': return t.TRUE
    return t.FALSE
@lib('json.loads')
def _(I, a, k):
    def f(x):
        if x.sort == 'bytes':
            for codec in ('latin-1', 'utf-8', 'ascii'):
                y = t.decode(x, codec)
                if y.op == 'json': x = y
        if x.op == 'json': return thaw(I, x.a[0])
        I.raise_if(B(mk('badjson', (x,), 'bool')), 'ValueError')
        o = DictO(); o.name = 'json'
        I.put(o, '$map', mk('unjson', (x,), 'map'))
        return o.ref
    return I.bycase(a[0], f)
def thaw(I, x):
    if x.op == 'dictv':
        m = x.a[0]
        if m.op == 'map' and m.a[0] is None: return I.new_dict([(k, thaw(I, v)) for k, v in m.a[1]])
    if x.op == 'listv': return I.new_list(x.a[0])
    if x.sort in ('str', 'int', 'bool', 'none', 'float'): return x
    if x.op == 'ite': return t.lift(lambda y: thaw(I, y), (x,)) if all(l.sort in ('str', 'int', 'bool', 'none', 'float') for l in t.leaves(x)) else I.bycase(x, lambda y: thaw(I, y))
    if x.sort == 'bytes': I.throw('TypeError')
    if x.sort == 'seq': return I.new_list(x)
    return x
@lib('base64.b32encode')
def _(I, a, k): return t.app('b32enc', (a[0],), 'bytes')
@lib('base64.b32decode')
def _(I, a, k):
    def f(x):
        if isc(x):
            import base64
            try: return K(base64.b32decode(cv(x)))
            except ValueError: _sub_exc(I, 'binascii.Error', 'ValueError'); I.throw('binascii.Error')
        _sub_exc(I, 'binascii.Error', 'ValueError')
        I.raise_if(B(mk('badb32', (x,), 'bool')), 'binascii.Error')
        return mk('b32dec', (x,), 'bytes', None, None, b32ext(x))
    return I.bycase(a[0], f)
def b32ext(x):
    """length of what is decoded from a text of known length that has its padding stripped"""
    n = t.length(x)
    if not isc(n): return None
    n = cv(n)
    if x.op == 'cat' and isc(x.a[-1]): n -= len(cv(x.a[-1])) - len(cv(x.a[-1]).rstrip(b'='))
    return n * 5 // 8
@lib('base64.b64encode')
def _(I, a, k):
    def f(x):
        n = t.length(x)
        return mk('b64enc', (x,), 'bytes', None, None, (cv(n) + 2) // 3 * 4 if isc(n) else None)
    return t.lift(f, (a[0],))
@lib('base64.b64decode')
def _(I, a, k):
    _sub_exc(I, 'binascii.Error', 'ValueError')
    def f(x):
        if x.op == 'b64enc': return x.a[0]
        I.raise_if(B(mk('badb64', (x,), 'bool')), 'binascii.Error')
        return mk('b64dec', (x,), 'bytes')
    return I.bycase(a[0], f)
@lib('os.path.expanduser')
def _(I, a, k): return t.app('expanduser', (a[0],), 'str')
import posixpath as _pp
def _path(name):
    @lib('os.path.' + name)
    def f(I, a, k): return t.lift(lambda x: K(getattr(_pp, name)(cv(x))) if isc(x) else mk(name, (x,), 'str'), (a[0],))
for _n in ('dirname', 'basename'): _path(_n)
@lib('os.path.split')
def _(I, a, k): return t.tup([t.lift(lambda x, n=n: K(getattr(_pp, n)(cv(x))) if isc(x) else mk(n, (x,), 'str'), (a[0],)) for n in ('dirname', 'basename')])
@lib('os.path.join')
def _(I, a, k):
    def two(x, y):
        if isc(x) and isc(y): return K(_pp.join(cv(x), cv(y)))
        first = y.a[0] if y.op == 'cat' else y
        if isc(x) and cv(x) and (first.op == 'basename' or isc(first) and cv(first)[:1] not in ('', '/')): return t.cat([K(cv(x) if cv(x).endswith('/') else cv(x) + '/'), y], 'str')
        return mk('pathjoin', (x, y), 'str')
    r = a[0]
    for y in a[1:]: r = t.lift(two, (r, y))
    return r
EXTM['socket.error'] = lambda I: I.exc_cls['OSError'].ref
EXTM['socket.AF_INET'] = lambda I: K(2)
EXTM['socket.SOCK_STREAM'] = lambda I: K(1)
EXTM['socket.IPPROTO_TCP'] = lambda I: K(6)
def _stub(name, fn):
    def f(I, a, k): return I.call(I.get(I.load('__stub_io'), fn), a, k)
    lib(name)(f)
for _n, _f in (('os.path.exists', 'exists'), ('os.fsync', 'fsync'), ('os.rename', 'rename'), ('os.replace', 'rename'), ('os.remove', 'remove'), ('os.unlink', 'remove'), ('os.path.islink', 'islink'), ('os.path.isfile', 'isfile'), ('os.path.isdir', 'isdir'), ('os.access', 'access'),
               ('os.open', 'os_open'), ('os.fdopen', 'fdopen'), ('os.write', 'os_write'), ('os.close', 'os_close'), ('json.JSONEncoder', 'JSONEncoder'), ('json.JSONDecoder', 'JSONDecoder')): _stub(_n, _f)

import os as _os
for _n in dir(_os):
    if _n.startswith('O_'): EXTM['os.' + _n] = lambda I, v=getattr(_os, _n): K(v)

def load_prelude(I, path):
    """builtins written in Python"""
    I.roots['__prelude'] = path
    m = I.load('__prelude')
    for n in ('sum', 'any', 'all', 'min', 'max', 'filter'):
        v = I.get(m, n)
        if v is not None: I.builtins[n] = v
