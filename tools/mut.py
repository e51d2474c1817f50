#!/usr/bin/env python3
"""mut.py <property[,property]> <file> <old> <new> [n]  : analyse a scratch copy of /repo with one textual replacement"""
import subprocess, sys, os, shutil, tempfile
pids, f, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix='mut_')
try:
    shutil.copytree('/repo/amtl', d + '/amtl')
    p = d + '/amtl/' + f
    s = open(p).read()
    parts = s.split(old)
    if len(parts) < 2:
        print('PATTERN NOT FOUND'); sys.exit(3)
    s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    open(p, 'w').write(s)
    for pid in pids.split(','):
        r = subprocess.run([sys.executable, '/verif/sa/run.py', pid] + sys.argv[6:], env=dict(os.environ, SA_REPO=d), capture_output=True, text=True)
        lines = r.stdout.strip().split('\n')
        print('rc=%d' % r.returncode, *lines[:int(os.environ.get('N', '6'))], r.stderr[-800:], sep='\n   ')
finally:
    shutil.rmtree(d)
