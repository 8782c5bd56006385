#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
head = s[:s.index('|----|----|----|----|\n', s.index('## 5. Planted bugs')) + len('|----|----|----|----|\n')]
rows = ''
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows += '| %s | %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'))
open(p, 'w').write(head + rows)
