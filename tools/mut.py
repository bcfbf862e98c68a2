#!/usr/bin/env python3
"""usage: mut.py EDITS.py [substring]   Runs checks against edited scratch copies of /repo. EDITS.py defines
EDITS = [(expect, 'Cxx Cyy', file, old, new), ...]; expect 1 = some check alarms, 0 = all stay quiet."""
import sys, os, subprocess, runpy, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def one(e):
    expect, pids, *rest = e
    edits = rest[0] if isinstance(rest[0], list) else [tuple(rest[:3])]
    w = tempfile.mkdtemp(prefix='mut', dir='/tmp'); r = os.path.join(w, 'repo')
    try:
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git'), symlinks=True)
        for f, old, new in edits:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) != 1: return 'EDIT  %s: %d occurrences of %r' % (f, s.count(old), old)
            s = s.replace(old, new); compile(s, f, 'exec'); open(p, 'w').write(s)
        out = []; rc = 0
        for pid in pids.split():
            c = subprocess.run([sys.executable, '-m', 'nbcsa', pid], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, NBCSA_REPO=r, NBCSA_EVIDENCE=w))
            v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'REFUTED' in l][:1]
            u = sum('UNDECIDED' in l for l in c.stdout.splitlines())
            out.append('%s=%d%s %s' % (pid, c.returncode, ' und=%d' % u if u else '', v[0][:110] if v else c.stderr[-200:]))
            rc = max(rc, c.returncode)
        return '%s %r | %s' % ('ok   ' if rc == expect else 'WRONG', (rest[1] if len(rest) == 2 else edits[0][2][:60]), '; '.join(out))
    finally: shutil.rmtree(w)
m = runpy.run_path(sys.argv[1])
es = m['EDITS'] if 'EDITS' in m else [(1, b['property'], b['edits'], i) for i, b in m['BUGS'].items()]
if len(sys.argv) > 2: es = [e for e in es if any(a in repr(e) for a in sys.argv[2:])]
with ThreadPoolExecutor(3) as ex:
    for x in ex.map(one, es): print(x, flush=True)
