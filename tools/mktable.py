#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(H + '/tools/caught.json'))
rows = []
for i in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, i)))
    rows.append('| %s (%s) | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), c.get(i, 'not caught')))
p = H + '/DESIGN.md'
s = open(p).read()
h = '| id | needs | caught by |\n|---|---|---|\n'
a = s.index(h) + len(h)
b = s.find('\n\n', a)
s = s[:a] + '\n'.join(rows) + (s[b:] if b >= 0 else '\n')
open(p, 'w').write(s)
