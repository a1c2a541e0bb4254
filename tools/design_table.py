#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, 'seeded')
rows = []
for i in sorted(os.listdir(D)):
    m = json.load(open(os.path.join(D, i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs']))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
head = '| bug | property | what it breaks | what it needs |\n|---|---|---|---|\n'
a = s.index(head) + len(head)
b = s.index('\n\n', a)
open(p, 'w').write(s[:a] + '\n'.join(rows) + s[b:])
