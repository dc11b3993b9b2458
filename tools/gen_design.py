#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_template.md and the planted bugs."""
import json, os, glob
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ['', '| planted bug | property (its check catches it) | needs |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append('| %s | %s%s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], '' if m.get('caught', True) else ' (missed)', m['needs']))
t = open(os.path.join(ROOT, 'tools', 'design_template.md')).read().replace('SEEDTABLE', '\n'.join(rows))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)
