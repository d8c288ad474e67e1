#!/usr/bin/env python3
"""Renews the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(root + '/tools/caught.json'))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m))
    i = m.split('/')[-2]
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'].replace('|', '/').replace('\n', ' '), c.get(i, 'not yet run')))
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- /planted -->\n'
s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
print(len(rows) - 2)
