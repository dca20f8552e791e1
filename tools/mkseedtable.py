#!/usr/bin/env python3
"""Writes section 7 of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = []
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append((m['property'], d.split('/')[1], m['needs'], m['what_it_breaks']))
rows.sort()
t = open('DESIGN.md').read().split('\n## 7.')[0].rstrip('\n')
t += '''

## 7. Planted bugs and the checks that catch them

Every change below builds, passes the existing tests and is reported by the
quick check of its property (first column).  Several were missed at first;
what was strengthened is in section 5.

| check | change | needs | breaks |
|---|---|---|---|
'''
for r in rows:
    t += '| %s | %s | %s | %s |\n' % r
open('DESIGN.md', 'w').write(t)
