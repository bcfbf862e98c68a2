#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, properties.jsonl, the rules in nbcsa/checks, levels, seeded/*/meta.json and design_tail.md."""
import json, os, re, ast, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
src = open(os.path.join(HERE, 'tools', 'mkmanifest.py')).read().replace('\nmain()\n', '\n')
exec(compile(src, os.path.join(HERE, 'tools', 'mkmanifest.py'), 'exec'), {'__file__': os.path.join(HERE, 'tools', 'mkmanifest.py')}, g) if False else None
ns = {'__file__': os.path.join(HERE, 'tools', 'mkmanifest.py'), '__name__': 'x'}
exec(compile(src, 'mkmanifest', 'exec'), ns)
LEVEL, NA, GVN = ns['LEVEL'], ns['NA'], ns['GVN']
def rule(pid):
    for n in ast.walk(ast.parse(open(os.path.join(HERE, 'nbcsa', 'checks', pid + '.py')).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'Check' and n.args and n.args[0].value == pid: return ast.literal_eval(n.args[1])
    return ''
out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in LEVEL and os.path.exists(os.path.join(HERE, 'nbcsa', 'checks', i + '.py')):
        t, b = LEVEL[i]
        out.append('%s*Rule:* %s  \n*Method:* %s.%s\n' % ('', rule(i), 'GVG' if t == GVN else t, '  \n*Bounds and assumptions:* ' + b if b else ''))
    else: out.append('Not applicable: %s.\n' % NA[i])
out.append('## 4. Planted bugs (`seeded/`) and what catches them\n')
out.append('Every one is caught by the check of its own property (re-run: `python3 tools/mut.py tools/bugs/bN.py`).\n')
out.append('| bug | property | needs | breaks |\n|---|---|---|---|')
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f)); out.append('| %s | %s | %s | %s |' % (f.split('/')[-2], d['property'], d['needs'].replace('|', '/'), d['what_it_breaks'].replace('|', '/')))
out.append('')
out.append(open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
