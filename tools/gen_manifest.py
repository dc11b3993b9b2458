#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, ROOT)
from checks import CHECKS, COMMON_ASSUMPTIONS
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=c['technique'], level='model_checking',
                           level_note='Every element of the bounded space described in DESIGN.md (%s) is executed on the real code and judged; '
                           'nothing is claimed outside it. Trusts the compiler, the explorer and the reference model of the harness.' % i))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 check.py --setup',
         hooks=dict(guard='SIMU_VERIF_POOL_BLOCK_SIZE', enable='-DSIMU_VERIF_POOL_BLOCK_SIZE=1',
                    source_commits=['cec43fb']),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
