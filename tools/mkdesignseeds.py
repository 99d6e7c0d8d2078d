#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(D + '/seeded/*/meta.json')):
    j = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s | %s |' % (i, j['property'], j['what_it_breaks'].replace('|', '/'), j.get('caught_by', j['property'])))
t = open(D + '/DESIGN.md').read()
head = t[:t.index('## Planted bugs')]
open(D + '/DESIGN.md', 'w').write(head + '''## Planted bugs

Each is one small change which builds and passes the existing tests, with a demonstration of its own (`seeded/<id>`). The last
column says which checks report it. This table is made by `tools/mkdesignseeds.py`.

| change | property | what it breaks | caught by |
|---|---|---|---|
''' + '\n'.join(rows) + '\n')
