#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json and the output of catch.py (argument)."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    m = re.match(r'(\S+) C\d\d (CAUGHT|MISSED)', l, re.I)
    if m: res[m[1]] = m[2].lower()
rows = ['| planted bug | property | what it breaks | quick check |', '|---|---|---|---|']
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    d = json.load(open(f)); i = f.split('/')[-2]
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'].replace('|', '/'), res.get(i, '?')))
p = ROOT + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'(<!-- table -->\n).*?(\n<!-- /table -->)', lambda m: m[1] + '\n'.join(rows) + m[2], s, flags=re.S)
open(p, 'w').write(s)
print(len(rows) - 2, [k for k, v in res.items() if v != 'caught'])
