#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(d, 'DESIGN.md')
s = open(p).read()
head = '| change | property | needs |\n|---|---|---|\n'
s = s[:s.index(head)] + head
for i in sorted(os.listdir(os.path.join(d, 'seeded'))):
    m = json.load(open(os.path.join(d, 'seeded', i, 'meta.json')))
    s += '| %s | %s | %s |\n' % (i, m['property'], m['needs'])
open(p, 'w').write(s)
