#!/usr/bin/env python3
"""design.py: rewrites the generated tables at the end of DESIGN.md (bounds from checks.py, planted bugs from tools/seeds and seeded/)."""
import os, sys, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
t = open(V + '/DESIGN.md').read(); mark = '<!-- generated -->\n'; t = t[:t.index(mark) + len(mark)]
t += '\n## Bounds per property (from checks.py)\n\n'
for p in sorted(CHECKS):
    c = CHECKS[p]; t += '**%s** (%s)\n' % (p, ', '.join(e if isinstance(e, str) else e[0] for e in c['entries']))
    for b in c['bounds']: t += '* ' + b + '\n'
    if c['bounds_thorough']: t += '* thorough: ' + '; '.join(c['bounds_thorough']) + '\n'
    if c['outside']: t += '* outside: ' + '; '.join(c['outside']) + '\n'
    t += '\n'
t += '## Planted bugs\n\nEach was confirmed (applies, builds, passes the stable tests, its demo tells it apart) and its check run on it.\n\n| bug | caught by | breaks | needs |\n|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); n = f.split('/')[-2]; t += '| %s | %s | %s | %s |\n' % (n, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'))
open(V + '/DESIGN.md', 'w').write(t)
