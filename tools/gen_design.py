#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (between the GENERATED markers): planted bugs and fixes."""
import json, glob, os, re, collections
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = []
for f in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    m = json.load(open(f)); rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs']))
rows.sort()
t = ['| property (its check catches it) | change | needs |', '|---|---|---|']
t += [f'| {p} | {i} | {n} |' for p, i, n in rows]
k = json.load(open(os.path.join(root, 'known_findings.json')))['findings']
x = ['| property | commit | what failed |', '|---|---|---|'] + [f"| {f['property']} | {f.get('commit','')} | {f['what']} |" for f in k]
s = open(os.path.join(root, 'DESIGN.md')).read()
for name, tab in (('SEEDS', t), ('FIXES', x)):
    s = re.sub(rf'(<!-- GENERATED {name} -->\n).*?(<!-- END -->)', lambda m: m.group(1) + '\n'.join(tab) + '\n' + m.group(2), s, flags=re.S)
open(os.path.join(root, 'DESIGN.md'), 'w').write(s)
print(len(rows), 'planted bugs')
