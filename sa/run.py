#!/usr/bin/env python3
"""Driver:  run.py <property> [quick|thorough]"""
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SA_REPO', '/repo')
sys.path.insert(0, HERE)
import lin
import ir
import engine
import models
import bits

_start = time.time()
THOROUGH = len(sys.argv) > 2 and sys.argv[2] == 'thorough'
WIT = os.path.join(VERIF, 'witness')
BASEFLAGS = ['-std=c++17', '-fno-exceptions', '-fno-rtti', '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-fno-discard-value-names',
             '-ftrivial-auto-var-init=uninitialized', '-fno-access-control', '-fno-builtin-printf',
             '-fdebug-compilation-dir=/nonexistent-sa']


class Broken(Exception):
    """the analysis itself cannot run: error exit"""


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def compile_ir(src, flags, tmp, tag, inlined=False):
    ll = os.path.join(tmp, tag + '.ll')
    base = BASEFLAGS
    passes = 'mem2reg'
    if inlined:
        # one SSA function per witness; no optimisation that reasons from undefined behaviour
        base = [f for f in BASEFLAGS if f != '-O0'] + ['-O1', '-Xclang', '-disable-llvm-passes']
        passes = 'function(sroa),cgscc(inline),function(sroa,dce)'
    cmd = ['clang++'] + base + ['-I' + REPO, '-I' + WIT] + list(flags) + ['-S', '-emit-llvm', src, '-o', ll]
    r = sh(cmd, cwd=tmp)
    if r.returncode:
        return None, r.stderr
    r = sh(['opt', '-S', '-passes=' + passes, '-inline-threshold=1000000', ll, '-o', ll + '.2'])
    if r.returncode:
        raise Broken('opt: ' + r.stderr[:500])
    with open(ll + '.2') as f:
        return f.read(), None


class Unit:
    """one witness translation unit under one configuration"""

    def __init__(self, src, name=None, flags=(), opts=None, handlers=None, regex=(), fns=None, public=True, after=None, only=None, skip=None, bits=False):
        self.bits = bits
        self.src = os.path.join(WIT, src)
        self.name = name or src
        self.flags = list(flags)
        self.opts = opts or {}
        self.handlers = handlers or {}
        self.regex = list(regex)
        self.public = public
        self.skip = skip
        self.after = after
        self.only = only


_units = []


def analyse(task):
    u = _units[task[0]]
    if u.bits:
        r = bits.analyse(u.mod, u.dem, task[1], u.opts, REPO, u.opts.get('time', 120))
        r['unit'] = task[0]
        return r
    r = analyse1(task)
    if r['alarms'] and all(a['lossy'] for a in r['alarms']) and any('generalisation' in a['lossy'] for a in r['alarms']):
        # look closer: keep more loop iterations apart before generalising
        r2 = analyse1(task, unroll=12, limit=60)
        if any(not a['lossy'] for a in r2['alarms']):
            r2['time'] += r['time']
            return r2
    return r


def analyse1(task, unroll=None, limit=None):
    ui, fn = task
    u = _units[ui]
    m = u.mod
    lin._fmcache.clear()
    lin.RIGID.clear()
    t0 = time.time()
    opts = dict(u.opts)
    opts['root'] = REPO
    e = engine.Engine(m, models.resolver(u.handlers, u.regex), opts)
    for k in ('UNROLL', 'MAXVISIT', 'MAXSTATES'):
        if k in opts:
            setattr(e, k, opts[k])
    if unroll:
        e.UNROLL = unroll
    e.dem = u.dem
    # the whole check answers within its budget
    e.deadline = min(time.time() + (limit or opts.get('time', 120)), max(_start + (700 if os.environ.get('VERIF_TIER', 'quick') == 'quick' and not THOROUGH else 3000), time.time() + 5))
    f = m.funcs[fn]
    s = engine.State()
    init = opts.get('init')
    if init:
        init(e, s)
    args = [e.havoc(t) for t, _, _ in f.params]
    try:
        rets = e.eval_function(f, args, s)
        crashed = None
    except RecursionError:
        rets = []
        crashed = 'analysis recursion limit'
    except Broken:
        raise
    except Exception as x:
        if os.environ.get('SA_RAISE'):
            raise
        rets = []
        crashed = 'analysis gave up: %s: %s' % (type(x).__name__, str(x)[:200])
    nret = len(rets)
    if u.after:
        u.after(e, fn, rets)
    want = set()
    for b in f.blocks.values():
        for i in b.ins:
            if i.op == 'call' and i.a[0] == ('g', 'sa_reach'):
                v = i.a[1][0][1]
                g = m.globals.get(v[1]) if v[0] == 'g' else None
                if g and g[1] and g[1][0] == 'str':
                    want.add(g[1][1].rstrip(b'\0').decode())
    exact_ret = any(x.lossy is None for x, _ in rets)
    for a in e.alarms.values():
        a['fnrepo'] = None
        a['chain'] = [u.dem.get(c, c) for c in a['chain']]
    return {
        'unit': ui, 'fn': fn, 'alarms': [dict(a) for a in e.alarms.values()],
        'oblig': {(k[0], k[1]): tuple(v) for k, v in e.oblig.items()},
        'funcs': {u.dem.get(k, k): v for k, v in e.funcs_seen.items() if v},
        'unmodelled': dict(e.unmodelled), 'nret': nret, 'exact_ret': exact_ret, 'missing': sorted(want - e.reached), 'reached': len(want & e.reached),
        'states': e.nstates, 'joins': e.njoins, 'notes': e.notes, 'crashed': crashed, 'time': time.time() - t0,
        'fm': dict(lin.stats),
    }


def run_units(units, jobs=None, verbose=False):
    """compile, parse and analyse; returns (results, compile_failures)"""
    tmp = tempfile.mkdtemp(prefix='sa_')
    try:
        fails = []
        with ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(compile_ir, u.src, u.flags, tmp, 'u%d' % i, u.bits) for i, u in enumerate(units)]
            texts = [f.result() for f in futs]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    global _units
    _units = units
    tasks = []
    for i, (u, (txt, err)) in enumerate(zip(units, texts)):
        u.mod = None
        if txt is None:
            fails.append((u, err))
            continue
        u.mod = ir.parse_module(txt)
        u.dem = models.demangle(list(u.mod.funcs) + list(u.mod.decls) + list(u.mod.globals))
        fns = [f for f in u.mod.funcs if f.startswith('w_')]
        if u.only:
            fns = [f for f in fns if re.search(u.only, f)]
        if not fns:
            raise Broken('no witness functions in ' + u.src)
        tasks += [(i, f) for f in fns]
        if u.opts.get('rel_fix'):
            # what other threads can do: grows until every step of every function is in it
            u.opts = dict(u.opts, rel=set())
            n = -1
            while n != len(u.opts['rel']):
                n = len(u.opts['rel'])
                for f in fns:
                    analyse1((i, f))
    if len(tasks) == 1 or os.environ.get('SA_SERIAL'):
        res = [analyse(t) for t in tasks]
    else:
        with mp.get_context('fork').Pool(min(jobs or 8, len(tasks) or 1), maxtasksperchild=8) as p:
            res = p.map(analyse, tasks, chunksize=1)
    return res, fails


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.viol = []       # dicts: rule, where, text
        self.undecided = []
        self.known = []
        self.oblig = 0
        self.disch = 0
        self.checks = 0
        self.funcs = {}
        self.witness = 0
        self.states = 0
        self.joins = 0
        self.rules = {}
        self.samples = []
        self.unmod = {}
        self.extra = {}
        self.assume = []
        self.t0 = time.time()

    def count(self, rule, where, ok, n=1):
        self.oblig += 1
        self.checks += n
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.disch += 1
            r[1] += 1

    def violation(self, rule, where, text, detail='', key=''):
        self.viol.append({'rule': rule, 'where': where, 'text': text, 'detail': detail, 'key': key})

    def add(self, units, res, fails):
        private_failed = 0
        for u, err in fails:
            lines = [l for l in err.split('\n') if 'error:' in l or 'fatal' in l]
            if u.public:
                self.count('witness-compiles', u.name, False)
                self.violation('witness-compiles', u.name, 'a program using only the public interface no longer builds: ' + (lines[0] if lines else err[:200]), err[:3000], key=u.name)
            else:
                private_failed += 1
                self.undecided.append({'rule': 'witness-compiles', 'where': u.name, 'text': 'witness on private members not applicable: ' + (lines[0] if lines else err[:200]), 'fn': '-', 'unit': u.name})
        if fails and private_failed == len(units):
            raise Broken('no witness compiles: %s' % fails[0][1][:600])
        allob = {}
        for r in res:
            u = units[r['unit']]
            self.witness += 1
            self.states += r['states']
            self.joins += r['joins']
            self.funcs.update(r['funcs'])
            for k, v in r['unmodelled'].items():
                self.unmod[k] = self.unmod.get(k, 0) + v
            for (rule, loc), (n, bad) in r['oblig'].items():
                if u.skip and re.fullmatch(u.skip, rule):
                    continue
                o = allob.setdefault((rule, loc, u.name, r['fn']), [0, 0])
                o[0] += n
                o[1] += bad
            definite = False
            for a in r['alarms']:
                if u.skip and re.fullmatch(u.skip, a['rule']):
                    # an obligation of another property
                    definite = definite or not a['lossy']
                    continue
                where = '%s:%s' % (a['loc'][0], a['loc'][1])
                msg = '%s: %s' % (a['rule'], a['msg'])
                d = 'witness %s / %s\ncall chain: %s\n' % (u.name, r['fn'], ' > '.join(a['chain']))
                d += 'decisions: ' + ' '.join('%s:%s=%s' % (os.path.basename(str(l[0])), l[1], v) for l, v in a['trace'][-40:]) + '\n'
                d += 'constraints: ' + '; '.join(a['cons']) + '\n'
                if a['lossy']:
                    self.undecided.append({'rule': a['rule'], 'where': where, 'text': msg + ' [state generalised: %s]' % a['lossy'], 'fn': r['fn'], 'unit': u.name})
                else:
                    definite = True
                    self.violation(a['rule'], where, '%s [%s]' % (msg, r['fn']), d, key='%s|%s' % (r['fn'], a['rule']))
            if r['crashed']:
                self.undecided.append({'rule': 'analysis', 'where': r['fn'], 'text': r['crashed'], 'fn': r['fn'], 'unit': u.name})
            elif not definite and (r['nret'] == 0 or r['missing']):
                bad = bool(r['unmodelled'])
                t = 'no state of %s completes normally%s' % (r['fn'], '' if r['nret'] == 0 else ' (not reached: %s)' % ', '.join(r['missing']))
                self.count('completes', r['fn'], False)
                if bad or any(x['fn'] == r['fn'] for x in self.undecided):
                    self.undecided.append({'rule': 'completes', 'where': r['fn'], 'text': t + ' %s' % list(r['unmodelled'])[:3], 'fn': r['fn'], 'unit': u.name})
                else:
                    self.violation('completes', r['fn'], t, '', key='%s|completes' % r['fn'])
            elif not r['missing']:
                self.count('completes', r['fn'], True)
            for n in r['notes']:
                self.undecided.append({'rule': 'analysis', 'where': r['fn'], 'text': n, 'fn': r['fn'], 'unit': u.name})
        for (rule, loc, un, fn), (n, bad) in allob.items():
            self.count(rule, loc, bad == 0, n)
            if len(self.samples) < 12 and str(loc[0]).startswith(REPO):
                self.samples.append('%s at %s:%s (witness %s): %d evaluations, %s' % (rule, os.path.relpath(loc[0], REPO), loc[1], fn, n, 'discharged' if not bad else '%d refuted' % bad))

    def finish(self, meta, verbose=False):
        pid = self.pid
        repo_funcs = sorted('%s (%s:%d)' % (k, os.path.relpath(v[0], REPO), v[1]) for k, v in self.funcs.items() if v[0] and v[0].startswith(REPO + '/'))
        kf = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
        viol = []
        seen_known = set()
        for v in self.viol:
            hit = None
            for i, k in enumerate(kf):
                if k['rule'] == v['rule'] and re.search(k['key'], v['key'] or '') and re.search(k.get('where', ''), v['where']):
                    hit = i
                    break
            if hit is None:
                viol.append(v)
            else:
                seen_known.add(hit)
        for i in sorted(seen_known):
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[i]['what']))
        mininst = meta.get('min_oblig', 1)
        ev = {
            'property': pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': meta.get('level', 'other'),
            'coverage': {
                'explanation': meta['explanation'],
                'obligations': self.oblig, 'discharged': self.disch, 'evaluations': self.checks,
                'by_rule': {k: {'sites': v[0], 'discharged': v[1]} for k, v in sorted(self.rules.items())},
                'witness_functions': self.witness, 'abstract_states': self.states, 'joins': self.joins,
                'functions_analysed': repo_funcs, 'undecided': len(self.undecided), 'unmodelled': self.unmod,
                'samples': self.samples, **self.extra,
            },
            'assumptions': meta.get('assumptions', []) + self.assume,
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol),
        }
        evd = os.environ.get('SA_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d witness functions, %d library functions, %d abstract states, %d undecided, %.1fs'
              % (pid, self.oblig, self.disch, self.witness, len(repo_funcs), self.states, len(self.undecided), ev['wall_s']))
        for u in self.undecided[:40]:
            print('UNDECIDED %s %s (%s)' % (u['where'], u['text'], u['fn']))
        if self.unmod and verbose:
            print('unmodelled:', self.unmod)
        vf = os.path.join(evd, pid + '.violation.txt')
        if viol:
            with open(vf, 'w') as f:
                for v in viol:
                    f.write('%s\n  %s\n%s\n' % (v['where'], v['text'], v['detail']))
            shown = set()
            for v in viol[:12]:
                k = (v['where'], v['text'])
                if k in shown:
                    continue
                shown.add(k)
                print('%s: %s' % (v['where'], v['text']))
            print('VIOLATION property=%s replay=%s' % (pid, vf))
            return 1
        if os.path.exists(vf):
            os.remove(vf)
        if meta.get('needs_funcs', True) and not repo_funcs:
            print('ANALYSIS BROKEN: no library function was analysed')
            return 2
        if self.oblig < mininst:
            print('ANALYSIS BROKEN: only %d obligations, expected at least %d' % (self.oblig, mininst))
            return 2
        return 0


def main():
    import specs
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sp = specs.get(pid)
    rep = Report(pid, tier)
    try:
        sp['run'](rep, tier)
        rc = rep.finish(sp, verbose='-v' in sys.argv)
    except Broken as e:
        print('ANALYSIS BROKEN: %s' % e)
        rc = 2
    sys.exit(rc)


if __name__ == '__main__':
    main()
