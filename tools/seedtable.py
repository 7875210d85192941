#!/usr/bin/env python3
"""rewrites section 7 of DESIGN.md from seeded/*/meta.json and seeded/caught.txt (id: checks)"""
import json, os, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
c = dict(l.strip().split(': ', 1) for l in open(R + '/tools/caught.txt') if ': ' in l) if os.path.exists(R + '/tools/caught.txt') else {}
out = ['| seed | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for p in sorted(glob.glob(R + '/seeded/*/meta.json')):
    i = p.split('/')[-2]; m = json.load(open(p))
    out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], c.get(i, '?')))
s = open(R + '/DESIGN.md').read(); h = '## 7. Planted bugs\n'
open(R + '/DESIGN.md', 'w').write(s[:s.index(h) + len(h)] + '\n' + '\n'.join(out) + '\n')
