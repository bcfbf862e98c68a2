"""Obligations of a property, the report, the evidence file."""
import os, sys, json, time, signal, traceback, random
from . import env, terms as t, compare, models, interp, history, evalt
from .terms import Unsup, K, TRUE, NONE
from .interp import Broken, Dead
from .compare import Result, Obs, Timeout, category

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('NBCSA_EVIDENCE') or os.path.join(VERIF, 'evidence')

class Check(object):
    """collects obligations: (name, anchor path or None, thunk(I) -> Result)"""
    def __init__(self, pid, rule, minimum=0):
        self.pid = pid; self.rule = rule; self.minimum = minimum
        self.obls = []
        self.kernels = {}        # what the code is: the obligations about it
        self.assumptions = []
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.I = None
    needs = None    # modules to load first
    @property
    def thorough(self): return self.tier == 'thorough'
    def add(self, name, fn, limit=40): self.obls.append((name, fn, limit))

    def agree(self, name, code, spec, args, cats=None, obs=None, gens=None, modes=(0,), pre=None, setup=None, samples=None,
              overrides=None, limit=40, where=None, now=None, spec_overrides=None, kw=None, first=False):
        """the code's function and the reference definition denote the same function of args.
        code, spec: dotted anchor, or callable(I, args) run in the abstract; args: list of terms or callable(I) -> list
        first: only as the first call in a process (a scenario which starts it)"""
        def run(I):
            def once(who, f, before=None, nbase=0, k=None):
                """before: heap and path condition an earlier call left; k: another obligation about the same code"""
                args_, pre_, setup_, ov, now_, kw_ = (args, pre, setup, overrides, now, kw) if k is None else k[2:8]
                I.reset(); I.overrides = dict(ov or {})
                if who == 'spec' and spec_overrides is not None: I.overrides = dict(spec_overrides)
                I.now = now_; I.nbase = nbase
                try:
                    if before is not None: I.st.h.update(before[0])
                    if setup_ is not None: setup_(I)
                    a = args_(I) if callable(args_) else list(args_)
                    if pre_ is not None: I.st.pc = pre_(I, a)
                    if before is not None: I.st.pc = t.and_(I.st.pc, before[1])
                    if callable(f): return I.run(lambda: f(I, a))
                    fv = I.member(f)
                    return I.run(lambda: I.call(fv, a, kw_ or {}))
                finally: I.nbase = 0
            o = obs or Obs()
            n = samples or (4000 if self.thorough else 400)
            wh = where or (code if isinstance(code, str) else '')
            ex = once('code', code)
            cells = history.touched(I, ex)
            if os.environ.get('NBCSA_TOUCH'):
                for w in cells: print('TOUCH', self.pid, name, w, flush=True)
            A = compare.outcomes(I, ex, o, category(cats))
            B = compare.outcomes(I, once('spec', spec), o, category(cats))
            lim = limit * (4 if self.thorough else .5)
            r = compare.congruent(I, name, A, B, self.seed, n, lim, gens, modes, wh)
            if not cells or first or r.status == 'refuted': return r
            # the code leaves something behind: what does the same code do after an earlier call?
            try:
                before = history.left(I, once('code', code, nbase=-1000000), cells)
                A2 = compare.outcomes(I, once('code', code, before), o, category(cats))
                r2 = compare.congruent(I, name, A2, [(t.and_(pc, before[1]), x) for pc, x in B], self.seed, n, lim, gens, modes, wh)
                if r2.status != 'refuted' and not callable(args):
                    # and what becomes of what it gave, when it is called again?
                    def two(I, a):
                        f = code if callable(code) else lambda I, a: I.call(I.member(code), a, kw or {})
                        v = f(I, a)
                        history.tried(I, lambda: f(I, [history.rename(x, {}) for x in a]))
                        return v
                    A3 = compare.outcomes(I, once('code', two), o, category(cats))
                    r3 = compare.congruent(I, name, A3, B, self.seed, n, lim, gens, modes, wh)
                    if r3.status != 'agreed' or r2.status == 'proved': r2 = r3
                if r2.status != 'refuted':
                    for k in self.others(name, wh, args):
                        evalt.ALIKE.clear()
                        if not callable(args) and not callable(k[2]):
                            for x, y in zip(k[2], args):
                                if x is not y and x.op == y.op == 'sym' and x.sort == y.sort: evalt.ALIKE[x] = y
                        try:
                            ex0 = once('code', k[1], nbase=-1000000, k=k)
                            before = history.left(I, ex0, history.touched(I, ex0))
                            A4 = compare.outcomes(I, once('code', code, before), o, category(cats))
                            r4 = compare.congruent(I, name, A4, [(t.and_(pc, before[1]), x) for pc, x in B], self.seed, n, lim / 4, dict(k[8] or {}, **(gens or {})) or None, modes, wh)
                        except Unsup as e:
                            if os.environ.get('NBCSA_TOUCH'): print('OTHER', k[0], e, flush=True)
                            continue
                        if os.environ.get('NBCSA_TOUCH'): print('OTHER', k[0], r4.status, r4.note, flush=True)
                        r2.n += r4.n
                        if r4.status == 'refuted': r2 = r4; r2.note += ', of "%s"' % k[0]; break
            except Unsup as e: r2 = Result(name, 'undecided', '%s: %s (at %s)' % (type(e).__name__, e, I.loc), 0, wh, I.stats['functions'])
            what = ' after an earlier call (it leaves %s)' % ', '.join(sorted(set(str(f) for ob, f in cells))[:4])
            r2.note += what
            if r2.status == 'refuted':
                r2.witness = 'after an earlier call: ' + r2.witness
                return r2
            r.note += '; ' + r2.status + what
            if r2.status == 'undecided': r.status = 'undecided'
            elif r2.status == 'agreed': r.status = 'agreed'
            r.n += r2.n
            return r
        if not first: self.kernels.setdefault(where or (code if isinstance(code, str) else ''), []).append((name, code, args, pre, setup, overrides, now, kw, gens))
        self.add(name, run, limit)

    def others(self, name, where, args):
        """other obligations about the same code, those about the same arguments first"""
        def names(a):
            if callable(a): return set()
            return set(s for x in a for s in history.symbols(x))
        mine = names(args)
        ks = [k for k in self.kernels.get(where, ()) if k[0] != name]
        near = sorted((k for k in ks if mine & names(k[2])), key=lambda k: -len(mine & names(k[2])))[:10]
        far = [k for k in ks if k not in near]
        return near + far[::max(1, len(far) // 10)][:10]

    def again(self, name, make, ops, args, seconds=None, **kw):
        """an object that was used before answers like a fresh one: make(I, a) -> object, ops: {name: f(I, object, a) -> value}"""
        def earlier(a): return [history.rename(x, {}) for x in a]
        names = sorted(ops)
        for s in seconds or names:
            for order in (names, names[::-1]):
                if len(names) == 1 and order is not names: continue
                def used(I, a, s=s, order=order):
                    o = make(I, a)
                    I.nbase = -1000000
                    for f in order: history.tried(I, lambda: ops[f](I, o, earlier(a)))
                    I.nbase = 0
                    for x in [x for x in I.st.h if x[0] is models.EV]: del I.st.h[x]
                    return ops[s](I, o, a)
                def fresh(I, a, s=s): return ops[s](I, make(I, a), a)
                self.agree('%s: %s after %s%s' % (name, s, order[0], ' ... ' + order[-1] if len(order) > 1 else ''), used, fresh, args, **kw)

    def require(self, name, fn, limit=60):
        """fn(I) -> list of violations (strings) ; raises Unsup when it can not tell; may return (violations, count)"""
        def run(I):
            I.reset(); I.overrides = {}; I.now = None
            r = fn(I)
            n = 1
            if isinstance(r, tuple): r, n = r
            if r: return Result(name, 'refuted', 'rule broken', n, '', I.stats['functions'], '; '.join(r[:6]))
            return Result(name, 'proved', 'rule holds at %d places' % n, n, '', I.stats['functions'])
        self.add(name, run, limit)

    # ------------------------------------------------------------ running
    def one(self, i):
        name, fn, limit = self.obls[i]
        I = self.I
        I.stats['functions'] = set()
        I.steps = 0
        def onalarm(*a): raise Timeout()
        signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(int(limit * (5 if self.thorough else 1)))
        t0 = time.time()
        try:
            r = fn(I)
        except Broken as e: r = Result(name, 'broken', str(e))
        except Unsup as e: r = Result(name, 'undecided', '%s: %s (at %s)' % (type(e).__name__, e, I.loc), 0, '', I.stats['functions'])
        except Timeout: r = Result(name, 'undecided', 'time limit (at %s)' % (I.loc,), 0, '', I.stats['functions'])
        except RecursionError: r = Result(name, 'undecided', 'recursion limit', 0, '', I.stats['functions'])
        except MemoryError: r = Result(name, 'undecided', 'memory', 0, '', I.stats['functions'])
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            r = Result(name, 'undecided', 'analysis stopped: %s: %s at %s:%d' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno), 0, '', I.stats['functions'])
            if os.environ.get('NBCSA_DEBUG'): traceback.print_exc()
        finally: signal.alarm(0)
        r.secs = time.time() - t0
        return r

    def main(self):
        t0 = time.time()
        random.seed(self.seed)
        try:
            if self.I is None: self.I = env.make()
        except Broken as e:
            print('ANALYSIS BROKEN: %s' % e); return 2
        only = os.environ.get('NBCSA_ONLY')
        idx = [i for i in range(len(self.obls)) if not only or only in self.obls[i][0]]
        results = []
        jobs = int(os.environ.get('NBCSA_JOBS', '8'))
        try:
            for nm in (preload(self.pid) if self.needs is None else self.needs): self.I.load(nm)
        except Broken as e:
            print('ANALYSIS BROKEN: %s' % e); return 2
        if jobs > 1 and len(idx) > 1:
            import multiprocessing as mp
            ctx = mp.get_context('fork')
            global _CHK
            _CHK = self
            with ctx.Pool(min(jobs, len(idx)), maxtasksperchild=1) as p:
                results = p.map(_one, idx, chunksize=1)
        else:
            results = [self.one(i) for i in idx]
        return self.report(results, time.time() - t0)

    def report(self, results, wall):
        known, fixed = load_known(self.pid)
        viol = []
        cnt = {}
        for r in results:
            cnt[r.status] = cnt.get(r.status, 0) + 1
            line = '%-9s %s' % (r.status.upper(), r.name)
            if r.status != 'proved' or os.environ.get('NBCSA_VERBOSE'): line += '  -- ' + r.note
            if r.secs > 5: line += ' [%.0fs]' % r.secs
            print(line)
            if r.status == 'refuted':
                k = [w for n, w in known if n == r.name]
                if k: print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, r.name, k[0]))
                else:
                    viol.append(r)
                    print('   ' + r.witness)
        funcs = set()
        for r in results: funcs |= set(r.functions)
        os.makedirs(EVIDENCE, exist_ok=True)
        decided = cnt.get('proved', 0) + cnt.get('agreed', 0) + cnt.get('refuted', 0)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'wall_s': round(wall, 2), 'violations': len(viol),
              'assumptions': self.assumptions,
              'coverage': {
                  'explanation': self.rule,
                  'obligations': len(results), 'same_normal_form_or_rule_holds': cnt.get('proved', 0),
                  'agreed_under_valuations': cnt.get('agreed', 0), 'undecided': cnt.get('undecided', 0), 'refuted': cnt.get('refuted', 0),
                  'valuations': sum(r.n for r in results if r.status == 'agreed'),
                  'functions_analysed': len([f for f in funcs if f.startswith('nbc.')]),
                  'functions': sorted(f for f in funcs if f.startswith('nbc.'))[:400],
                  'details': [{'obligation': r.name, 'status': r.status, 'note': r.note[:300], 'seconds': round(r.secs, 2)} for r in results]}}
        json.dump(ev, open(os.path.join(EVIDENCE, self.pid + '.json'), 'w'), indent=1)
        print('%s: %d obligations: %s; %d functions of nbc analysed; %.1f s' % (
            self.pid, len(results), ', '.join('%d %s' % (v, k) for k, v in sorted(cnt.items())), ev['coverage']['functions_analysed'], wall))
        if cnt.get('broken'):
            for r in results:
                if r.status == 'broken': print('ANALYSIS BROKEN: %s: %s' % (r.name, r.note))
            return 2
        if viol:
            p = os.path.join(EVIDENCE, self.pid + '.replay.txt')
            with open(p, 'w') as f:
                f.write('property %s; rerun: cd /verif && python3 -m nbcsa %s\n' % (self.pid, self.pid))
                for r in viol: f.write('%s\n  functions: %s\n  %s\n' % (r.name, ' '.join(r.functions), r.witness))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        return 0

_CHK = None
def _one(i):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, resource.getrlimit(resource.RLIMIT_AS)[1]))
    return _CHK.one(i)

def load_known(pid):
    known = []; fixed = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                name, _, what = rest.partition(' :: ')
                known.append((name, what))
    return known, fixed

def preload(pid):
    return ['nbc', 'nbc.util', 'nbc.protocol.format', 'nbc.protocol.messages', 'nbc.protocol', 'nbc.coins', 'nbc.util.key', 'nbc.util.ecc',
            'nbc.util.pyaes', 'nbc.wallet', 'nbc.util.piecewise', 'nbc.node']
