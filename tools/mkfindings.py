#!/usr/bin/env python3
"""Appends 'fixed:' lines for the fix commits of /repo given as  <commit> <ids,comma> <what failed>  on stdin."""
import subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = V + '/known_findings.txt'
have = open(p).read() if os.path.exists(p) else '# fixed: property=<id> <commit in /repo> <what failed>\n# known: property=<id> tag=<class> match=/<regex on the message>/ <what fails>\n'
for l in sys.stdin:
    l = l.strip()
    if not l: continue
    c, ids, what = l.split(' ', 2)
    full = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', c]).decode().strip()
    for i in ids.split(','):
        x = 'fixed: property=%s %s %s\n' % (i, full, what)
        if x not in have: have += x
open(p, 'w').write(have)
