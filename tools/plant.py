#!/usr/bin/env python3
"""plant.py ID... | all : (re)build /verif/seeded/<ID> from tools/plants/<ID>.py and confirm it in a scratch copy of /repo.
plants/<ID>.py defines prop, edits=[(file, old, new[, nth])], needs, breaks, demo (C++ source), optional std/cxx/run.
The demo exits 0 on the unchanged tree.  Then the property's check is run against the patched copy."""
import subprocess, sys, os, shutil, tempfile, glob, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository.  Exit 0: the property holds; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
%s -std=%s -g %s -I. "$here/demo.cpp" -o "$d/demo" %s || exit 98
%s(cd "$d" && timeout 60 ./demo)
'''

def sh(c, cwd, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=env)

FL = ('-std=c++17 -I%s -I/usr/src/googletest/googletest/include -Dstricmp=strcasecmp -D_stricmp=strcasecmp -D_snprintf=snprintf -D_vsnprintf=vsnprintf '
      '-DDEBUG -D_DEBUG -D_LINUX -DPOSIX -pipe -w -fvisibility=hidden -fvisibility-inlines-hidden -fno-exceptions -fno-threadsafe-statics -mfpmath=sse')

def build_and_test(r, d):
    """The stable tests, and every header on its own, against the copy (same flags as /opt/vp)."""
    os.makedirs(d + '/o')
    todo = [(f, d + '/o/' + os.path.basename(f) + '.o') for f in glob.glob(r + '/tests/*.cpp') + glob.glob(r + '/amtl/**/*.cpp', recursive=True) + glob.glob(r + '/compat/*.cpp')]
    for h in glob.glob(r + '/amtl/**/*.h', recursive=True):
        if not h.endswith('-windows.h'):
            n = d + '/o/h_' + os.path.basename(h) + '.cpp'
            open(n, 'w').write('#include <stdint.h>\n#include <%s>\n' % os.path.relpath(h, r))
            todo.append((n, None))
    def comp(x):
        f, o = x
        return sh('g++ %s %s %s' % (FL % r, ('-c -o ' + o) if o else '-fsyntax-only', f), d)
    with ThreadPoolExecutor(4) as ex:
        for x, c in zip(todo, ex.map(comp, todo)):
            if c.returncode:
                return 'BUILD FAILS %s %s' % (x[0], c.stderr[:500])
    objs = ' '.join(o for f, o in todo if o and '/compat/' not in f)
    c = sh('g++ %s /repo/_build/libgtest.a -o testrunner -lpthread -lrt -ldl' % objs, d)
    if c.returncode:
        return 'LINK FAILS ' + c.stderr[-500:]
    c = sh('timeout 100 ./testrunner', d)
    if c.returncode or '[  PASSED  ] 55 tests' not in c.stdout:
        return 'TESTS FAIL rc=%d %s' % (c.returncode, c.stdout[-400:])
    return None

def one(pid):
    ns = {}
    exec(open('%s/tools/plants/%s.py' % (V, pid)).read(), ns)
    out = '%s/seeded/%s' % (V, pid)
    os.makedirs(out, exist_ok=True)
    d = tempfile.mkdtemp(prefix='plant_')
    try:
        r = d + '/repo'
        sh('git clone -q /repo %s' % r, d)
        base = r
        for e in ns['edits']:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else 0
            p = r + '/' + f
            s = open(p).read()
            parts = s.split(old)
            if len(parts) < nth + 2:
                return pid, 'PATTERN NOT FOUND ' + repr(old)
            open(p, 'w').write(old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:]))
        diff = sh('git diff', r).stdout
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.cpp', 'w').write(ns['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(DEMO % (ns.get('cxx', 'g++'), ns.get('std', 'c++17'), ns.get('cflags', ''), ns.get('libs', '-lpthread'), ns.get('pre', '')))
        for n, t in ns.get('files', {}).items():
            open(out + '/' + n, 'w').write(t.lstrip('\n'))
        if 'sh' in ns:
            open(out + '/demo.sh', 'w').write(DEMO.split('%s -std')[0] + ns['sh'].lstrip('\n'))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        msg = []
        a = sh('bash %s/demo.sh' % out, '/repo')
        if a.returncode:
            msg.append('DEMO FAILS ON CLEAN rc=%d %s %s' % (a.returncode, a.stdout[-300:], a.stderr[-1500:]))
        b = sh('bash %s/demo.sh' % out, r)
        if b.returncode in (0, 98, 99):
            msg.append('DEMO rc=%d WITH PATCH %s' % (b.returncode, b.stderr[-500:]))
        err = build_and_test(r, d)
        if err:
            msg.append(err)
        return pid, msg, r, d, ns['prop']
    except Exception as ex:
        shutil.rmtree(d)
        return pid, repr(ex)

def check(pid):
    x = one(pid)
    if len(x) == 2:
        return x
    pid, msg, r, d, prop = x
    try:
        ps = prop if isinstance(prop, list) else [prop]
        for p in ps:
            c = subprocess.run([sys.executable, V + '/sa/run.py', p], env=dict(os.environ, SA_REPO=r, SA_EVIDENCE=d), capture_output=True, text=True)
            l = [x for x in c.stdout.split('\n') if x.startswith(d) or x.startswith('/') or 'UNDEC' in x]
            msg.append('%s: %s %s' % (p, {1: 'CAUGHT', 0: 'MISSED'}.get(c.returncode, 'rc=%d' % c.returncode), (l[0] if l else c.stdout[-200:] + c.stderr[-300:])[:170].replace(d, '')))
        return pid, '; '.join(msg)
    finally:
        shutil.rmtree(d)

ids = [a for a in sys.argv[1:]]
if ids == ['all']:
    ids = sorted(os.path.basename(f)[:-3] for f in glob.glob(V + '/tools/plants/*.py'))
with ThreadPoolExecutor(3) as ex:
    for pid, m in ex.map(check, ids):
        print(pid, m, flush=True)
