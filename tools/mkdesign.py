#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/DESIGN.in.md, the planted bugs and MANIFEST.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/tools/DESIGN.in.md').read()
rows = ['| planted bug | caught by | needs | breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (d.split('/')[-2], m['property'], m['needs'].replace('|', '/').replace('\n', ' '), m['what_it_breaks'].replace('|', '/').replace('\n', ' ')))
na = ['* **%s**: %s' % (x['property'], x['reason']) for x in json.load(open(V + '/MANIFEST.json'))['not_applicable']]
open(V + '/DESIGN.md', 'w').write(t.replace('<!--SEEDS-->', '\n'.join(rows)).replace('<!--NA-->', '\n'.join(na)))
