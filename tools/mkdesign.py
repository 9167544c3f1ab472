#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: the harness functions and their bounds per property."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {p['id']: p for p in map(json.loads, open(V + '/properties.jsonl'))}
why = json.load(open(V + '/tools/notes.json'))
out = []
for i, p in props.items():
    f = f'{V}/harness/{i.lower()}.go'
    out.append(f'### {i} {p["title"]}\n')
    if i in why:
        out.append(why[i] + '\n')
    if not os.path.exists(f):
        continue
    s = open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)+)func (vh\w+)\(', s):
        doc = ' '.join(l[3:] for l in m.group(1).split('\n') if l.startswith('// '))
        if doc.startswith(m.group(2) + ': '):
            doc = doc[len(m.group(2)) + 2:]
        q = [l[10:].strip() or '(no parameters)' for l in m.group(1).split('\n') if l.startswith('//vf:quick')]
        t = [l[13:].strip() for l in m.group(1).split('\n') if l.startswith('//vf:thorough')]
        out.append(f'- `{m.group(2)}`: {doc} Quick: `{"; ".join(q)}`.' + (f' Thorough: `{"; ".join(t)}`.' if t else ''))
    out.append('')
d = open(V + '/DESIGN.md').read()
a, b = '<!-- generated by tools/mkdesign.py -->\n', '<!-- end of generated part -->'
i, j = d.index(a) + len(a), d.index(b)
open(V + '/DESIGN.md', 'w').write(d[:i] + '\n' + '\n'.join(out) + '\n' + d[j:])
# table of planted bugs
rows = ['', '| bug | property | needs | caught by |', '|---|---|---|---|']
caught = {}
cf = V + '/tools/caught.json'
if os.path.exists(cf):
    caught = json.load(open(cf))
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); n = f.split('/')[-2]
    rows.append(f'| {n} | {m["property"]} | {m["needs"]} | {caught.get(n, "?")} |')
d = open(V + '/DESIGN.md').read()
i, j = d.index('<!-- seeds -->\n') + len('<!-- seeds -->\n'), d.index('<!-- end of seeds -->')
open(V + '/DESIGN.md', 'w').write(d[:i] + '\n'.join(rows) + '\n\n' + d[j:])
