#!/usr/bin/env python3
"""usage: plant.py BUGS.py [id ...]   Makes /verif/seeded/<id>/ from a table of edits, after confirming each in a scratch copy of /repo.
BUGS.py defines BUGS = {id: dict(property, edits=[(file, old, new)], demo='python source', needs, breaks, files={name: text})}."""
import sys, os, subprocess, json, shutil, runpy, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$D"\nexec timeout 250 /opt/venv/bin/python "$D/demo.py"\n'
def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)
def stable(out):
    want = json.load(open('/opt/vp/BASELINE.json'))
    want = want.get('stable') or want.get('passing') or want
    got = json.load(open(out))
    return want, got
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']; only = sys.argv[2:]
    for bid, b in bugs.items():
        if only and bid not in only: continue
        w = tempfile.mkdtemp(prefix='plant', dir='/tmp'); r = os.path.join(w, 'repo')
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        d = os.path.join(HERE, 'seeded', bid); os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        if 'nbc.node' in b['demo'] or 'nbc import node' in b['demo']:
            shutil.copy(os.path.join(HERE, 'tools', 'demo_asyncore.py'), os.path.join(d, 'asyncore.py'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        demo = os.path.join(d, 'demo.sh')
        ok0 = sh(['bash', demo], cwd=r)
        bad = None
        for f, old, new in b['edits']:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) != 1: bad = '%s: %d occurrences of %r' % (f, s.count(old), old); break
            open(p, 'w').write(s.replace(old, new))
        added = set(l[1:] for l in sh(['git', '-C', '/repo', 'diff', '26cc009', 'HEAD']).stdout.splitlines() if l[:1] == '+' and l[1:2] != '+')
        mine = [l[1:] for l in sh(['git', 'diff'], cwd=r).stdout.splitlines() if l[:1] == '-' and l[1:2] != '-' and l[1:].strip() and l[1:] in added]
        if mine: print(bid, 'CHANGES FIXED LINES', mine)
        if bad: print(bid, 'EDIT', bad); shutil.rmtree(w); continue
        diff = sh(['git', 'diff'], cwd=r).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        ok1 = sh(['bash', demo], cwd=r)
        t = open('/opt/vp/test.sh').read().replace('/repo', r)
        open(os.path.join(w, 'test.sh'), 'w').write(t)
        sh(['bash', os.path.join(w, 'test.sh'), os.path.join(w, 'out.json')])
        base = json.load(open('/opt/vp/BASELINE.json')); base = base if isinstance(base, list) else base.get('stable', base.get('passed', base.get('tests')))
        out = open(os.path.join(w, 'out.json')).read() if os.path.exists(os.path.join(w, 'out.json')) else ''
        res = json.loads(out) if out else {}
        passed = set(res.get('passed', [])) if isinstance(res, dict) else set()
        missing = [x for x in base if x not in passed]
        c = sh([sys.executable, '-m', 'nbcsa', b['property']], cwd=HERE, env=dict(os.environ, NBCSA_REPO=r))
        viol = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
        print('%-28s %s demo %d/%d tests %s check %d %s' % (bid, b['property'], ok0.returncode, ok1.returncode, 'ok' if not missing else missing[:3], c.returncode, viol[:1]))
        if ok0.returncode: print(ok0.stdout[-600:], ok0.stderr[-1500:])
        if not ok1.returncode: print('  DEMO DOES NOT FAIL', ok1.stdout[-500:])
        sys.stdout.flush(); shutil.rmtree(w)
main()
