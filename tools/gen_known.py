#!/usr/bin/env python3
"""Writes known_findings.json: the fixed entries from the fix commits of /repo, the known ones from below."""
import json, os, re, subprocess
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
OWNER = [('interval and box overlap', 'C04'), ('RTree move', 'C01'), ('RTree insertion', 'C01'), ('erasing from RTree', 'C01'), ('makeUnique', 'C03'),
         ('bounding box of an empty', 'C04'), ('Gjk::separation', 'C05'), ('Gjk missed', 'C05'), ('Gjk kept', 'C05'), ('Gjk::penetration', 'C06'),
         ('TriangleBarycentric', 'C09'), ('QR Solver', 'C10'), ('LcpSolver', 'C10'), ('clip contacts to the extent', 'C07'), ('remove contacts of removed', 'C11'), ('no contact between two structural', 'C12'),
         ('setContactFactory', 'C12'), ('velocity of the centroid when', 'C22'), ('world queries used old', 'C25')]
KNOWN = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        m = re.search(r'\((C\d\d)\)$', s.strip())
        pid = m.group(1) if m else next((p for k, p in OWNER if k in s), None)
        assert pid, s
        out.append(dict(property=pid, status='fixed', commit=h, what=s[5:], entry='fixed: property=%s %s %s' % (pid, h, s[5:])))
json.dump(dict(findings=KNOWN + out), open(os.path.join(ROOT, 'known_findings.json'), 'w'), indent=1)
