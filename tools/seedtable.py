#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(V + '/tools/missed_first.txt').read().split())
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    rows.append((m['property'], n, m['needs'], m['what_it_breaks'], 'missed' if n in MISSED else 'caught'))
rows.sort()
t = '| caught by | bug | needs | breaks | first |\n|---|---|---|---|---|\n'
for r in rows:
    t += '| ' + ' | '.join(x.replace('|', '/') for x in r) + ' |\n'
d = open(V + '/DESIGN.md').read()
a, b = d.index('<!-- table -->'), d.index('<!-- end -->')
open(V + '/DESIGN.md', 'w').write(d[:a] + '<!-- table -->\n' + t + d[b:])
