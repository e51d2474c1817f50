#!/usr/bin/env python3
"""rewrites known_findings.json (run by hand, never by a check)"""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [l.rstrip('\n').split('|') for l in open(V + '/tools/fixed.txt') if l.strip()]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True)
out = []
for pid, subj, what in FIXED:
    h = [l.split()[0] for l in log.split('\n') if l[8:].strip() == subj or l.split(' ', 1)[-1] == subj]
    if not h:
        raise SystemExit('no commit: ' + subj)
    for p in pid.split(','):
        out.append({'property': p, 'status': 'fixed', 'commit': h[0], 'what': 'fixed: property=%s %s %s' % (p, h[0], what)})
out += json.load(open(V + '/tools/known.json'))
json.dump(out, open(V + '/known_findings.json', 'w'), indent=1)
print(len(out))
