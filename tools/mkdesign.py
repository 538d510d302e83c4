#!/usr/bin/env python3
"""assembles DESIGN.md from design_head.md, design_props.py, design_tail.md, seeded/*/meta.json, evidence"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = os.path.join(V, 'tools')
ns = {}; exec(open(T + '/design_props.py').read(), ns); P = ns['P']
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
o = open(T + '/design_head.md').read() + '\n'
counts = {m.group(1): (int(m.group(2)), int(m.group(3))) for f in glob.glob(V + '/harness/*.cc') for m in re.finditer(r'VF_PROPERTY\((P\d+), (\d+), (\d+)', open(f).read())}
srcs = {m.group(1): os.path.basename(f) for f in glob.glob(V + '/harness/*.cc') for m in re.finditer(r'VF_PROPERTY\((P\d+),', open(f).read())}
for p in props:
    i = p['id']; gen, orc, lim, why = P[i]; q, t = counts[i]
    o += f"**{i} {p['title']}** (`{srcs[i]}`; {q:,} / {t:,} cases)\n"
    o += f"  Generated: {gen}. Oracle: {orc}." + (f" Limits: {lim}." if lim != '-' else '') + f" Why: {why}.\n\n"
o += open(T + '/design_mid.md').read() + '\n' if os.path.exists(T + '/design_mid.md') else ''
tail = open(T + '/design_tail.md').read()
ms = '\n'.join('* `' + l.split('|')[0].strip().replace(', ', '`, `') + '` - ' + l.split('|')[1].strip() for l in open(T + '/misses.txt') if '|' in l)
rows = ['| bug | property | breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
o += tail.replace('@MISSES@', ms).replace('@TABLE@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(o)
