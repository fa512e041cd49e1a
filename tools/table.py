#!/usr/bin/env python3
"""Rewrites the planted-bug table of ../DESIGN.md.  Argument: file with lines
'<id> caught|MISSED ...' (the last one for an id counts)."""
import json, os, sys, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    f = l.split()
    if len(f) >= 2 and f[1] in ('caught', 'MISSED'): res[f[0]] = f[1]
rows = ['| id | needs | breaks | caught by |', '|--|--|--|--|']
for b in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{b}/meta.json'))
    c = {'caught': m['property'], 'MISSED': '(missed)'}.get(res.get(b), '?')
    rows.append('| %s | %s | %s | %s |' % (b, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), c))
p = root + '/DESIGN.md'; s = open(p).read()
t = '\n'.join(rows)
if '\nTABLE\n' in s: s = s.replace('\nTABLE\n', '\n<!-- table -->\n' + t + '\n<!-- end -->\n')
else: s = re.sub(r'<!-- table -->\n.*?\n<!-- end -->', lambda _: '<!-- table -->\n' + t + '\n<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
