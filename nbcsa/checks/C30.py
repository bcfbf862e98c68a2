"""state shared with background threads is only touched under its lock"""
from .. import terms as t, models
from ..check import Check
from ..terms import K, TRUE, FALSE, NONE, mk, B
from ..interp import Broken, Inst, Func, Cls, Mod, Frame, ListO, DictO, SetO, Builtin, Obj, Dead, State, BoundM, Unsup

MAIN = -1
class Monitor(object):
    """accesses of cells by each thread, with the locks that certainly are held"""
    def __init__(self, I):
        self.I = I; self.who = MAIN; self.threads = []; self.locks = []; self.log = []; self.faults = []
        self.pre = {}
        I.onlock = self.onlock; I.watch = self.access
        self.where = 'start'; self.on = True
    def stop(self): self.I.onlock = None; self.I.watch = None
    def onlock(self, what, v):
        o = v.a[0]
        if what == 'new': self.locks.append(o)
        elif what == 'start':
            if o not in self.threads: self.pre[len(self.threads)] = self.ended(); self.threads.append(o)
        elif what == 'join':
            if o in self.threads:
                for l in self.locks:
                    if self.depth(l) is not FALSE: self.faults.append('%s waits for a thread with a lock held' % self.where)
        elif what == 'again':
            I = self.I
            if I.simp(t.lt(t.ZERO, I.st.h.get((o, '_depth'), t.ZERO))) is not FALSE: self.faults.append('%s: %s takes a lock it holds already (line %s)' % (self.where, I.ctx.qual, I.loc))
    def ended(self):
        """threads that certainly were waited for"""
        h = self.I.st.h
        return frozenset(i for i, th in enumerate(self.threads) if self.I.simp(h.get((th, '_joined'), FALSE)) is TRUE)
    def depth(self, l):
        """condition that the lock is held"""
        I = self.I
        v = I.st.h.get((l, '_depth'))
        if v is None: v = I.base.get((l, '_depth'), t.ZERO)
        return I.simp(t.lt(t.ZERO, v))
    def access(self, o, f, kind):
        if not self.on: return
        if isinstance(o, (ListO, DictO, SetO)): pass
        elif isinstance(o, Inst):
            m = o.cls.mod
            if m is None or m.name in ('threading', 'asyncore', '__prelude') or m.name.startswith('spec.'): return
            if f == '$inst': return
        elif isinstance(o, Frame):
            if o is self.I.ctx.frame and o.name not in self.closed: pass
        elif isinstance(o, Mod):
            if o.path is None or o.name in ('threading', 'asyncore'): return
        elif isinstance(o, Cls):
            if o.builtin: return
        else: return
        held = frozenset(l for l in self.locks if self.depth(l) is TRUE)
        self.log.append((o, f, kind, self.who, held, (frozenset(range(len(self.threads))), self.ended()) if self.who == MAIN else None, self.where, self.I.loc))
    closed = ()
    def free(self, what):
        """the locks are free at this exit"""
        for l in self.locks:
            if self.depth(l) is not FALSE: self.faults.append('%s ends with a lock held' % what)
    def concurrent(self, a, b):
        if a[3] == b[3]: return False
        if a[3] == MAIN or b[3] == MAIN:
            m, x = (a, b) if a[3] == MAIN else (b, a)
            return x[3] in m[5][0] and x[3] not in m[5][1]
        i, j = sorted((a[3], b[3]))
        return i not in self.pre.get(j, ())
    def races(self):
        by = {}
        for a in self.log: by.setdefault((id(a[0]), a[1]), []).append(a)
        out = list(dict.fromkeys(self.faults))
        for k, l in by.items():
            seen = set()
            for i, a in enumerate(l):
                for b in l[i:]:
                    if 'w' not in (a[2], b[2]) or a[4] & b[4] or not self.concurrent(a, b): continue
                    key = (a[7], b[7])
                    if key in seen: continue
                    seen.add(key)
                    name = getattr(a[0], 'name', '?') + ('' if a[1].startswith('$') else '.' + a[1])
                    out.append('%s is %s by %s (%s) and %s by %s (%s) without a lock they both hold' % (
                        name, 'written' if a[2] == 'w' else 'read', a[6], a[7], 'written' if b[2] == 'w' else 'read', b[6], b[7]))
        return out
    def written(self, ended):
        return {id(a[0]): a[0] for a in self.log if a[2] == 'w' and a[3] != MAIN and a[3] not in ended}
    def reach(self, v, st):
        """containers and objects a value gives access to"""
        I = self.I; out = {}; todo = [v]
        cells = {}
        for (o, f), w in list(I.base.items()) + list(st.h.items()): cells.setdefault(o, {})[f] = w
        while todo:
            x = todo.pop()
            for l in t.leaves(x):
                if l.op == 'ref':
                    o = l.a[0]
                    if id(o) in out or isinstance(o, (Mod, Cls, Func, Builtin)): continue
                    out[id(o)] = o
                    if isinstance(o, BoundM): todo.append(o.self_); continue
                    todo.extend(w for f, w in cells.get(o, {}).items() if isinstance(w, t.T))
                else:
                    for w in l.a:
                        if isinstance(w, t.T): todo.append(w)
                        elif isinstance(w, tuple): todo.extend(y for y in w if isinstance(y, t.T))
        return out

def scenario(I, make, ops, self_ok):
    """make: the call that starts the threads; ops(value): operations of others afterwards -> [(name, thunk)]"""
    m = Monitor(I)
    returned = []
    try:
        m.where = 'the caller'
        ends = [e for e in I.run(make)]
        for e in ends:
            m.on = False; I.st = e[1]; m.free('the caller'); m.on = True
        rets = [e for e in ends if e[0] == 'return']
        if not rets: raise Unsup('the scenario does not return')
        if not m.threads: return ['no thread is started'], 1     # nothing is shared: shown by the caller
        after = []
        for e in rets:
            if not self_ok: returned.append(('the caller', e[2], e[1]))
            st = e[1]
            for i, th in enumerate(m.threads):
                m.who = i; m.where = 'thread %d' % i
                I.st = st.fork(st.pc)
                out = I.run(lambda: I.call(I.getattr_(th.ref, 'run'), []))
                for x in out:
                    m.on = False; I.st = x[1]; m.free('thread %d' % i); m.on = True
                done = [x for x in out if x[0] == 'return']
                if done: st = done[0][1]
            after.append((e[1], e[2])); after.append((st, e[2]))
        m.who = MAIN
        for st, v in after:
            for name, op in ops(v):
                m.where = name
                I.st = st.fork(st.pc)
                out = I.run(op)
                for x in out:
                    m.on = False; I.st = x[1]; m.free(name); m.on = True
                    if x[0] == 'return': returned.append((name, x[2], x[1]))
        m.on = False
        bad = m.races()
        for name, v, st in returned:
            I.st = st; w = m.written(m.ended())
            for i in m.reach(v, st):
                if i in w: bad.append('%s returns the %s the threads write to' % (name, getattr(w[i], 'name', 'object')))
        return list(dict.fromkeys(bad)), len(m.log)
    finally: m.stop()

def address(i): return t.tup([t.sym('seed%d' % i, 'str'), t.sym('port%d' % i, 'int', 0, 65535)])
def build():
    c = Check('C30', 'Lock sets over a value graph with heap: every access of a cell (object, field, container or closure variable) is recorded with the thread it happens on and the locks that certainly are held on that path; '
                     'two accesses that may be concurrent, one a write, need a lock in common; locks are free at every exit of an operation, returned or raised; results are not containers a thread writes to.')
    c.needs = ['nbc', 'nbc.util', 'nbc.util.bootstrap']
    def seeder(I):
        k = I.member('nbc.util.bootstrap.DNSSeeder')
        make = lambda: I.call(k, [I.new_list(t.tup([address(0), address(1)]))])
        cls = k.a[0]
        names = []
        for kk in cls.mro:
            if kk.builtin: continue
            for (o, f), v in list(I.base.items()):
                if o is kk and v.op == 'ref' and (not f.startswith('_') or f.startswith('__') and f not in ('__init__', '__doc__', '__module__', '__new__', '__name__')): names.append((f, v))
        def ops(v):
            out = []
            for f, w in sorted(set((f, w) for f, w in names), key=lambda x: x[0]):
                fn = w.a[0]
                if isinstance(fn, Func):
                    a = fn.node.args
                    need = len(a.args) - 1 - len(fn.defaults)
                    if f in ('__getattr__', '__setattr__', '__del__', '__new__'): continue
                    args = [t.sym('arg%d' % i, 'any') for i in range(need)]
                    out.append((cls.name + '.' + f, lambda f=f, args=args: I.call(I.getattr_(v, f), args)))
                else: out.append((cls.name + '.' + f, lambda f=f: I.getattr_(v, f)))
            return out
        if {'__len__', 'pop'} - {f for f, w in names}: raise Broken('DNSSeeder has no __len__ or pop')
        return scenario(I, make, ops, True)
    c.require('the seeder shares its addresses under its lock', seeder)
    def guesser(n, timeout):
        def go(I):
            f = I.member('nbc.util.guess_block_height')
            def one(i):
                def fn(I, a, k):
                    I.raise_if(B(t.app('guess_fails', (K(i), models.counter(I, 'guess')), 'bool')), 'OSError')
                    return t.app('guess', (K(i),), 'int', 0)
                return t.tup([t.sym('name%d' % i, 'str'), Builtin('guess%d' % i, fn).ref])
            def make():
                kc = Cls('StubCoin', [I.object_cls]); coin = Inst(kc)
                I.st.h[(coin, 'block_height_guess')] = I.new_list(t.tup([one(i) for i in range(n)]))
                return I.call(f, [coin.ref] + ([timeout] if timeout is not None else []))
            return scenario(I, make, lambda v: [], False)
        return go
    for n in (1, 2, 3): c.require('guesses of %d sources are collected under the lock' % n, guesser(n, None))
    c.require('guesses are collected under the lock, any time limit', guesser(2, t.sym('timeout', 'float')))
    return c
