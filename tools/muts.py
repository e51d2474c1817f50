#!/usr/bin/env python3
"""muts.py [property ...] : regression table of small edits: V = must be reported, Q = must stay quiet.
Each entry in tools/muts/<property>.py:  M = [(expect, file, old, new[, nth])...]"""
import subprocess, sys, os, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = [a for a in sys.argv[1:] if not a.startswith('-')]
jobs = []
for f in sorted(glob.glob(os.environ.get('MUTDIR', V + '/tools/muts') + '/*.py')):
    pid = os.path.basename(f)[:-3]
    if want and pid not in want:
        continue
    ns = {}
    exec(open(f).read(), ns)
    for i, m in enumerate(ns['M']):
        jobs.append((pid, i, m))

def run(j):
    pid, i, m = j
    exp, f = m[0], m[1]
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree('/repo/amtl', d + '/amtl')
        shutil.copytree('/repo/compat', d + '/compat')
        shutil.copytree('/repo/tools', d + '/tools')
        p = d + '/amtl/' + f
        s = open(p).read()
        edits = m[2] if isinstance(m[2], list) else [m[2:]]
        for e in edits:
            old, new, nth = e[0], e[1], (e[2] if len(e) > 2 else 0)
            parts = s.split(old)
            if len(parts) < nth + 2:
                return (pid, i, 'PATTERN NOT FOUND', repr(old))
            s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
        open(p, 'w').write(s)
        if '-c' in sys.argv:
            r = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-w', '-I' + d] + (['-isystem', V + '/witness/rs'] if pid == 'X01' else []) + ['-x', 'c++', p], capture_output=True, text=True)
            if r.returncode:
                return (pid, i, 'DOES NOT COMPILE', r.stderr[:300])
        e = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d)
        r = subprocess.run([sys.executable, V + '/sa/run.py', pid], env=e, capture_output=True, text=True)
        ok = (r.returncode == 1 and 'VIOLATION' in r.stdout) if exp == 'V' else r.returncode == 0
        und = r.stdout.count('UNDECIDED')
        lines = r.stdout.strip().split('\n')
        v = [l for l in lines if l.startswith('/tmp') or l.startswith('UNDEC') or 'BROKEN' in l]
        if exp == 'V' and ok:
            return (pid, i, 'ok', (v[0] if v else lines[-2] if len(lines) > 1 else '')[:150].replace(d, ''))
        if exp == 'Q' and ok and not und:
            return (pid, i, 'ok', 'quiet')
        if exp == 'Q' and ok:
            return (pid, i, 'quiet but undecided', '\n      '.join(v[:4]))
        return (pid, i, 'WRONG (rc=%d, want %s)' % (r.returncode, exp), '\n      '.join([str(m[1:])[:300]] + lines[:1] + v[:5] + [r.stderr[-600:]]))
    finally:
        shutil.rmtree(d)

with ThreadPoolExecutor(4) as ex:
    bad = 0
    for pid, i, st, t in ex.map(run, jobs):
        if st != 'ok':
            bad += 1
        if st != 'ok' or '-v' in sys.argv:
            print(pid, i, st, t)
    print(len(jobs), 'edits,', bad, 'not as expected')
