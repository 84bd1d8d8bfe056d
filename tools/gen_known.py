#!/usr/bin/env python3
"""Writes the 'fixed:' lines of known_findings.txt from /repo's fix commits; 'known:' lines are kept by hand in KNOWN below."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# message fragment -> properties
P = [
 ('free image properties when opening', 'C01'), ('restore stream position', 'C25'), ('self-assignment of an image', 'C26'), ('stale mapped view', 'C09'),
 ('raw data of sections with zero virtual size', 'C03'), ('overlay detection', 'C03'), ('last bytes of headers', 'C09'), ('directory lookup read outside', 'C28'),
 ('refuse more data directories', 'C28'), ('stripping data directories', 'C28'), ('rebuilding read past the end', 'C04'), ('sections without raw data misplaced', 'C04'),
 ('bound import directory in headers was lost', 'C16'), ('image size was wrong after adding', 'C07'), ('free sections could not be resized', 'C07'), ('expanding a section by a huge size', 'C07'),
 ('address conversions truncated', 'C08'), ('sections leaving the 32-bit', 'C07'), ('realigning the last section', 'C07'), ('expanding a section beyond the 32-bit', 'C07'),
]
KNOWN = open(V + '/tools/known_manual.txt').read() if os.path.exists(V + '/tools/known_manual.txt') else ''
EXTRA = V + '/tools/fixed_extra.txt'   # "fragment | property"
if os.path.exists(EXTRA):
    for l in open(EXTRA):
        if '|' in l: a, b = l.rsplit('|', 1); P.append((a.strip(), b.strip()))
out = ['# Defects of the library found by these checks. "known:" entries are reported as KNOWN-FINDING and do not fail a check;',
       '# "fixed:" entries record repairs made in /repo and suppress nothing.']
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '7e2437b..HEAD'], stdout=subprocess.PIPE, text=True).stdout
for l in log.splitlines():
    h, m = l.split(' ', 1)
    if not m.startswith('fix:'): continue
    m = m[4:].strip(); props = [p for f, p in P if f in m]
    if not props: print('no property for', m); props = ['?']
    out.append('fixed: property=%s %s %s' % (props[0], h, m))
open(V + '/known_findings.txt', 'w').write('\n'.join(out) + '\n' + KNOWN)
