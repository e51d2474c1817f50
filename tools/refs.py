#!/usr/bin/env python3
"""refs.py NAME... | all : behaviour-preserving rewrites (tools/refs/NAME.py: checks, edits=[(file, old, new[, nth])]).
Each is built and tested in a scratch copy; then the named checks must stay quiet on it."""
import sys, os, glob, tempfile, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
sys.argv, args = sys.argv[:1], sys.argv[1:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
src = open(V + '/tools/plant.py').read().split("if __name__")[0]
ns = {'__file__': V + '/tools/plant.py', '__name__': 'plant'}
exec(compile(src.split('\nids =')[0].split('\nfor ')[0] if '\nids =' in src else src[:src.index('def one(')], 'plant', 'exec'), ns)

def one(name):
    d = tempfile.mkdtemp(prefix='ref_')
    out = []
    try:
        r = d + '/repo'
        ns['sh']('git clone -q /repo %s' % r, d)
        e = {}
        exec(open('%s/tools/refs/%s.py' % (V, name)).read(), e)
        for x in e['edits']:
            p = r + '/' + x[0]
            s = open(p).read()
            parts = s.split(x[1])
            n = x[3] if len(x) > 3 else 0
            if len(parts) < n + 2 or (len(x) < 4 and len(parts) != 2):
                return ['PATTERN %d x %r' % (len(parts) - 1, x[1])]
            open(p, 'w').write(x[1].join(parts[:n + 1]) + x[2] + x[1].join(parts[n + 1:]))
        m = ns['build_and_test'](r, d)
        if m:
            return [m]
        for pid in e['checks'].split():
            c = subprocess.run([sys.executable, V + '/sa/run.py', pid], env=dict(os.environ, SA_REPO=r, SA_EVIDENCE=d), capture_output=True, text=True)
            o = c.stdout.strip().split('\n')
            und = [l for l in o if l.startswith('UNDECIDED')]
            if c.returncode or und:
                out.append('%s rc=%d  %s' % (pid, c.returncode, ' | '.join(l[:160] for l in o[-4:])))
            else:
                out.append('%s quiet' % pid)
        return out
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    if args == ['all']:
        args = sorted(os.path.basename(f)[:-3] for f in glob.glob(V + '/tools/refs/*.py'))
    for n in args:
        print('==', n)
        for l in one(n):
            print('  ', l)
        sys.stdout.flush()
