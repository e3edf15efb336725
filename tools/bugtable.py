#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development only)."""
import glob, json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = ['| change | needs | breaks |', '|---|---|---|']
for m in sorted(glob.glob('seeded/*/meta.json')):
    j = json.load(open(m))
    rows.append(f"| {m.split('/')[1]} | {j['needs'].replace('|', '/')} | {j['what_it_breaks'].replace('|', '/')} |")
B, E = '<!-- planted bugs: begin -->', '<!-- planted bugs: end -->'
d = open('DESIGN.md').read()
a, b = d.index(B) + len(B), d.index(E)
open('DESIGN.md', 'w').write(d[:a] + '\n' + '\n'.join(rows) + '\n' + d[b:])
