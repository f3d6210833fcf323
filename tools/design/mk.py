#!/usr/bin/env python3
# writes DESIGN.md from head.md, the notes and the results recorded when planted changes were tried
import json, os
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.dirname(os.path.dirname(here))
res = json.load(open(top + '/tools/bugs/results.json'))
out = open(here + '/head.md').read()
out += '''## 4 Planted changes

Each directory of `seeded/` holds a change that compiles, passes the stable tests, and breaks one
property only under something specific. They were written from the property text and the code, before
looking at what the check generates; `tools/bugs/plant.py` makes and confirms them in a scratch copy.
Caught means: the property's quick check, seed 1, on the changed tree exits 1 with its violation line.

| change | property | needs | caught |
|---|---|---|---|
'''
n = 0
for i in sorted(res):
    if not os.path.isdir(top + '/seeded/' + i):
        continue
    r = res[i]
    n += r['caught']
    out += '| %s | %s | %s | %s |\n' % (i, r['property'], r['needs'].replace('|', '/'), 'yes' if r['caught'] else '**no**')
out += '\n%d of %d caught.\n\n' % (n, len([i for i in res if os.path.isdir(top + '/seeded/' + i)]))
out += open(here + '/missed.md').read()
open(top + '/DESIGN.md', 'w').write(out)
