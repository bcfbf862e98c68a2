#!/usr/bin/env python3
"""The analysis against the interpreter itself: each idiom of snips.py is analysed over unknown arguments, the value graph is
evaluated at random arguments and compared with what Python does. Not a check of /repo; a test of the machinery."""
import sys, os, random, copy, signal
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.dirname(os.path.dirname(HERE))); sys.path.insert(0, HERE)
from nbcsa import env, terms as t, evalt, compare, interp, models
from nbcsa.compare import Obs, category, outcomes, pick, same
MODS = [m[:-3] for m in os.listdir(HERE) if m.startswith('snips') and m.endswith('.py')]
def sym(n):
    k = n[0]
    if k == 'i': return t.sym(n, 'int')
    if k == 'n': return t.sym(n, 'int', 0)
    if k == 'b': return t.sym(n, 'bytes')
    if k == 's': return t.sym(n, 'str')
    if k == 'l': x = t.sym(n, 'seq'); t.set_elem_sort(x, 'int'); return x
    if k == 'o': return t.sym(n, 'any')
    if k == 'f': return t.B(t.sym(n, 'bool'))
def value(n, r):
    k = n[0]
    if k == 'i': return r.choice((0, 1, 2, 3, 4, 5, -1, -2, r.randrange(-20, 20), r.randrange(-2 ** 40, 2 ** 40)))
    if k == 'n': return r.choice((0, 1, 2, 3, 5, r.randrange(300), r.getrandbits(32), r.getrandbits(70)))
    if k == 'b': return bytes(r.choice((0, 1, 2, 48, 255, r.randrange(256))) for _ in range(r.choice((0, 1, 1, 2, 3, 4, 5, 8))))
    if k == 's': return ''.join(r.choice('ab1,. 0') for _ in range(r.choice((0, 1, 1, 2, 3, 4))))
    if k == 'l': return [r.choice((0, 1, 2, 3, 4, -1, 7)) for _ in range(r.choice((0, 1, 2, 2, 3, 5)))]
    if k == 'o': return r.choice((None, 0, 1, 5))
    if k == 'f': return r.random() < .5
def norm(x):
    """a value of Python in the form of the evaluator's"""
    return x
def main():
    only = sys.argv[1:] 
    I = env.make([(m, HERE) for m in MODS])
    cnt = {}
    for mn in MODS:
        real = __import__(mn); I.load(mn)
        for n, f in sorted(vars(real).items()):
            if not callable(f) or isinstance(f, type) or getattr(f, '__module__', None) != mn or n.startswith('_'): continue
            if only and n not in only: continue
            names = f.__code__.co_varnames[:f.__code__.co_argcount]
            res = 'ok'; note = ''
            def al(*a): raise compare.Timeout()
            signal.signal(signal.SIGALRM, al); signal.alarm(20)
            try:
                I.reset(); I.overrides = {}; I.now = None; I.steps = 0
                args = [I.new_list(sym(x)) if x[0] == 'l' else sym(x) for x in names]
                ex = I.run(lambda: I.call(I.member(mn + '.' + n), args, {}))
                outs = outcomes(I, ex, Obs(), category(None))
                bad = good = 0; why = ''
                for seed in range(60):
                    r = random.Random(seed); vals = [value(x, r) for x in names]
                    v = evalt.Val(seed, {}, {x: (lambda v, q, y=y: tuple(y) if isinstance(y, list) else y) for x, y in zip(names, vals)}, 0); v.index = 0
                    try: want = ('return', f(*copy.deepcopy(vals)))
                    except Exception as e: want = ('raise', 'refused')
                    try: got = v.ev(pick(v, outs))
                    except evalt.Fail as e: bad += 1; why = str(e); continue
                    good += 1
                    g = form(got); w = wform(want)
                    if g != w: res = 'MISMATCH'; note = '%r: %r instead of %r' % (vals, g, w); break
                if res == 'ok' and not good: res = 'noeval'; note = why
            except (t.Unsup, compare.Timeout) as e: res = 'unsup'; note = '%s %s' % (type(e).__name__, e)
            except Exception as e: res = 'ERROR'; note = '%s: %s' % (type(e).__name__, e)
            finally: signal.alarm(0)
            cnt[res] = cnt.get(res, 0) + 1
            if res != 'ok': print('%-9s %s %s' % (res, n, note[:200]))
    print(cnt)
def form(x):
    if isinstance(x, (tuple, list)): return tuple(form(y) for y in x)
    if isinstance(x, evalt.Map): return ('map', tuple(sorted((repr(form(k)), repr(form(y))) for k, y in x.d.items())))
    if isinstance(x, evalt.V): return form(x.p) if x.k in ('list', 'dict', 'set', 'listv', 'dictv', 'setv') else ('V', x.k, form(x.p))
    if isinstance(x, (set, frozenset)): return ('set', tuple(sorted(map(repr, x))))
    return x
def wform(x):
    if isinstance(x, dict): return ('map', tuple(sorted((repr(wform(k)), repr(wform(y))) for k, y in x.items())))
    if isinstance(x, (set, frozenset)): return ('set', tuple(sorted(map(repr, x))))
    if isinstance(x, (tuple, list)): return tuple(wform(y) for y in x)
    return x
main()
