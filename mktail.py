#!/usr/bin/env python3
"""Rewrites design_tail.md: planted bugs and the checks that catch them (seed_results.txt: one 'id verdict note' per line)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
res = {}
for l in open(os.path.join(here, 'seed_results.txt')):
    if l.strip():
        a = l.rstrip('\n').split(' ', 2)
        res[a[0]] = (a[1], a[2] if len(a) > 2 else '')
out = ['## Planted bugs and the checks that catch them\n',
       'Each was written from the statement of the property and the code; all build, pass the three stable tests, and have a demonstration.\n',
       '| bug | property | what it breaks | caught by | note |', '|---|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', s, 'meta.json')))
    v, n = res.get(s, ('not run', ''))
    out.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '/'),
               m['property'] if v == 'caught' else v, n))
open(os.path.join(here, 'design_tail.md'), 'w').write('\n'.join(out) + '\n')
