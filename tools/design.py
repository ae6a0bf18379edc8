#!/usr/bin/env python3
"""design.py: writes DESIGN.md from tools/design_head.md, the property list, the doc strings of the checks and the planted bugs"""
import ast, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + '/tools/design_head.md').read().rstrip(), '']
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
cost = {}
try:
    for l in open('/tmp/all.log'):
        w = l.split()
        if len(w) > 2 and w[1].startswith('rc='):
            cost[w[0]] = (w[2], l.split(': ', 1)[1].split(' (')[0] if ': ' in l else '')
except OSError:
    pass
old = V + '/tools/cost.json'
if os.path.exists(old):
    cost = {**json.load(open(old)), **cost}
json.dump(cost, open(old, 'w'), indent=0, sort_keys=True)
out += ['## 4. The properties, one by one', '', 'Statements are in `properties.jsonl`; "cost" is the quick command with six checks running side by side.', '']
for p in props:
    i = p['id']
    f = f'{V}/analysis/checks/{i.lower()}.py'
    out += [f'### {i} {p["title"]}', '']
    if not os.path.exists(f):
        out += ['Not claimed (see MANIFEST.json).', '']
        continue
    t = ast.parse(open(f).read())
    doc = ' '.join((ast.get_docstring(t) or '').split())
    c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('ASSUMPTIONS', 'MINIMUM'):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out += ['How it is decided: ' + doc, '']
    out += ['Why tests cannot: ' + p.get('why_tests_cant', ''), ''] if p.get('why_tests_cant') else []
    if c.get('ASSUMPTIONS'):
        out += ['Bounds and assumptions: ' + '; '.join(c['ASSUMPTIONS']) + '.', '']
    k = cost.get(i)
    out += [f'Anchor guard: fewer than {c.get("MINIMUM", "?")} obligations is an error, not a pass.' + (f' Cost: {k[0]}, {k[1]}.' if k else ''), '']
out += ['## 5. Planted bugs', '', 'Each builds, passes the stable tests, and has a demonstration that fails with it and passes without. "Caught" is the property\'s own quick check reporting a VIOLATION of that property.', '',
        '| planted bug | property | needs | caught |', '|---|---|---|---|']
late = json.load(open(V + '/tools/late.json')) if os.path.exists(V + '/tools/late.json') else {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    n = m.split('/')[-2]
    out.append(f'| {n} | {d["property"]} | {d["needs"]} | {late.get(n, "yes")} |')
out.append('')
tail = V + '/tools/design_tail.md'
if os.path.exists(tail):
    out.append(open(tail).read().rstrip())
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
