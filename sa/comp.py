"""Properties decided by the compiler's own checks and by inspecting the symbols and calls of the compiled headers."""
import glob
import os
import re
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor
from run import REPO, WIT, Broken, sh
import ir
import models

CC = ['g++', 'clang++']
STD = ['c++14', 'c++17', 'c++20']
CFG = [('plain', []), ('no assertions, exceptions or rtti', ['-DNDEBUG', '-fno-exceptions', '-fno-rtti']), ('single-threaded, standard library', ['-DKE_SINGLE_THREADED', '-DKE_ALLOW_STD_CXX'])]
SKIP = {'os/am-fsutil-windows.h'}


def headers():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, 'amtl')):
        for f in fs:
            if f.endswith('.h'):
                h = os.path.relpath(os.path.join(d, f), os.path.join(REPO, 'amtl'))
                if h not in SKIP:
                    r.append(h)
    return sorted(r)


def first_error(err):
    """(where, text): the construct of the library the first error is about"""
    lines = err.split('\n')
    e = [i for i, l in enumerate(lines) if re.search(r'(fatal )?error:', l)]
    if not e:
        return '-', err[:200]
    text = re.sub(r'^.*?error: ', '', lines[e[0]])
    m = re.match(r'(.+?):(\d+)(:\d+)?: (fatal )?error:', lines[e[0]])
    where = '%s:%s' % (m.group(1), m.group(2)) if m else '-'
    if not where.startswith(REPO):
        end = e[1] if len(e) > 1 else len(lines)
        for l in lines[:end]:
            m = re.search(re.escape(REPO) + r'/[^:\s]+:\d+', l)
            if m:
                where = m.group(0)
                break
    return where, text


def syntax(job):
    cc, std, fl, src = job[:4]
    r = sh([cc, '-std=' + std, '-fsyntax-only', '-w', '-I' + REPO, '-I' + WIT] + fl + [src], cwd=job[4])
    if r.returncode < 0 or 'internal compiler error' in r.stderr:
        raise Broken('%s on %s: %s' % (cc, src, r.stderr[:300]))
    return None if r.returncode == 0 else r.stderr


def run_syntax(rep, rule, jobs):
    """jobs: (cc, std, flags, source, label, key)"""
    tmp = tempfile.mkdtemp(prefix='sa_')
    try:
        seen = {}
        with ThreadPoolExecutor(8) as ex:
            for j, err in zip(jobs, ex.map(syntax, [j[:4] + (tmp,) for j in jobs])):
                rep.count(rule, j[3], err is None)
                if err:
                    seen.setdefault((j[4],) + first_error(err), []).append(('%s -std=%s %s' % (j[0], j[1], ' '.join(j[2])), err))
        for (label, where, text), l in seen.items():
            rep.violation(rule, where, '%s: %s [%s; %d configurations]' % (label, text, l[0][0], len(l)), l[0][1][:4000], key='%s|%s' % (label, rule))
    finally:
        shutil.rmtree(tmp)
    rep.samples += ['%s: %s' % (rule, s) for s in sorted({'%s' % j[4] for j in jobs})[:8]]


def c01(rep, tier):
    hs = headers()
    if len(hs) < 20:
        raise Broken('only %d headers found under %s/amtl' % (len(hs), REPO))
    wits = sorted(glob.glob(os.path.join(WIT, 'C01', '*.cpp')))
    jobs = []
    stds = STD + (['c++23'] if tier == 'thorough' else [])
    for w in wits:
        n = os.path.basename(w)[:-4].replace('__', '/') + '.h'
        for cc in CC:
            for std in stds:
                for cn, fl in CFG:
                    jobs.append((cc, std, fl, w, 'members of ' + n))
        jobs.append(('clang++', 'c++17', M32, w, 'members of ' + n))
    tmp = tempfile.mkdtemp(prefix='sa_')
    try:
        have = {os.path.basename(w)[:-4].replace('__', '/') + '.h' for w in wits}
        for h in hs:
            if h not in have:
                p = os.path.join(tmp, h.replace('/', '__') + '.cpp')
                open(p, 'w').write('#include <amtl/%s>\n' % h)
                for cc in CC:
                    for std in stds:
                        for cn, fl in CFG:
                            jobs.append((cc, std, fl, p, 'inclusion of ' + h))
        run_syntax(rep, 'instantiates', jobs)
    finally:
        shutil.rmtree(tmp)
    rep.witness = len(wits)
    rep.extra['headers'] = hs
    rep.extra['configurations'] = ['%s -std=%s (%s)' % (c, s, n) for c in CC for s in stds for n, _ in CFG] + ['clang++ -m32 -std=c++17']


M32 = ['-m32', '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', os.path.join(WIT, 'm32')]

# the one registry the property excepts
EXCEPT = re.compile(r'_ZN2ke4args6Parser14sStaticOptionsE$')
KE = re.compile(r'_Z(T[VISTHW]|GV|TC)?N?K?[VKrRO]*N?K?2ke')


def to_ir(job):
    src, std, fl, tmp, tag = job
    out = os.path.join(tmp, tag + '.ll')
    r = sh(['clang++', '-std=' + std, '-w', '-g', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-I' + REPO, '-I' + WIT] + fl + ['-S', '-emit-llvm', src, '-o', out], cwd=tmp)
    if r.returncode:
        return None, r.stderr
    t = open(out).read()
    os.remove(out)
    return t, None


def scan(text):
    """(strong definitions, undefined library symbols, uses of exceptions/rtti) of one compiled unit"""
    meta = ir.Module()
    for m in re.finditer(r'^!(\d+) = (.*)$', text, re.M):
        meta.meta[m.group(1)] = m.group(2)
    where = lambda d: meta.loc(d) if d else None
    strong, undef, uses, nfun = [], [], [], 0
    for m in re.finditer(r'^@("[^"]+"|[\w.$]+) = ([^\n]*)$', text, re.M):
        name, rest = m.group(1), m.group(2)
        words = rest.split()
        d = re.search(r'!dbg !(\d+)', rest)
        loc = None
        if d:
            v = re.search(r'var: !(\d+)', meta.meta.get(d.group(1), ''))
            loc = where(v.group(1)) if v else None
        if 'external' in words[:4] or 'extern_weak' in words[:4]:
            if KE.match(name) and not EXCEPT.match(name):
                undef.append((name, None))
        elif not set(words[:3]) & {'linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'internal', 'private', 'appending', 'available_externally', 'common'}:
            if (loc and loc[0] and loc[0].startswith(REPO + '/')) or (not loc and KE.match(name)):
                strong.append((name, loc))
    cur = None
    dbg = None
    for line in text.split('\n'):
        if line.startswith('define '):
            cur = re.search(r'@("[^"]+"|[\w.$]+)\(', line).group(1)
            d = re.search(r'!dbg !(\d+)', line)
            dbg = where(d.group(1)) if d else None
            lib = bool(dbg and dbg[0] and dbg[0].startswith(REPO + '/'))
            if lib:
                nfun += 1
            if not set(line.split()[:4]) & {'linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'internal', 'private', 'available_externally'}:
                if lib or (not dbg and KE.match(cur)):
                    strong.append((cur, dbg))
        elif line.startswith('declare '):
            n = re.search(r'@("[^"]+"|[\w.$]+)\(', line).group(1)
            if KE.match(n) and not EXCEPT.match(n):
                undef.append((n, None))
        elif cur and line.startswith('  ') and dbg and dbg[0] and dbg[0].startswith(REPO + '/'):
            u = None
            if re.search(r'\b(call|invoke)\b.*@(__cxa_throw|__cxa_rethrow|__cxa_begin_catch|__cxa_allocate_exception|_ZSt17rethrow_exception\w*|_ZSt17current_exceptionv)\(', line):
                u = 'uses exceptions'
            elif re.search(r'\b(call|invoke)\b.*@(__dynamic_cast|__cxa_bad_typeid|__cxa_bad_cast|__cxa_throw_bad_array_new_length)\(', line):
                u = 'uses run-time type information'
                if 'array_new' in line:
                    u = None
            elif re.search(r'@_ZTI\w+', line) and not re.search(r'\b(catch|filter)\b', line):
                u = 'uses run-time type information'
            if u:
                d = re.search(r'!dbg !(\d+)', line)
                uses.append((u, cur, (where(d.group(1)) if d else None) or dbg))
        elif line == '}':
            cur = None
    return strong, undef, uses, nfun


def c02(rep, tier):
    hs = headers()
    wits = sorted(glob.glob(os.path.join(WIT, 'C01', '*.cpp')))
    tmp = tempfile.mkdtemp(prefix='sa_')
    try:
        jobs = []
        cfgs = [('c++17', ['-Wno-everything']), ('c++14', ['-DNDEBUG'])] + ([('c++20', []), ('c++17', ['-DKE_SINGLE_THREADED', '-DKE_ALLOW_STD_CXX'])] if tier == 'thorough' else [])
        srcs = list(wits)
        have = {os.path.basename(w)[:-4].replace('__', '/') + '.h' for w in wits}
        for h in hs:
            if h not in have:
                p = os.path.join(tmp, h.replace('/', '__') + '.cpp')
                open(p, 'w').write('#include <amtl/%s>\n' % h)
                srcs.append(p)
        for i, w in enumerate(srcs):
            for k, (std, fl) in enumerate(cfgs):
                jobs.append((w, std, fl, tmp, 'i%d_%d' % (i, k)))
        total = 0
        users = {}
        defs = {}
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(to_ir, jobs))
        for j, (text, err) in zip(jobs, res):
            n = os.path.basename(j[0])[:-4]
            if text is None:
                # does the header itself build without the witness' uses? C01 reports those
                rep.undecided.append({'rule': 'symbols', 'where': n, 'text': 'does not compile: ' + ' '.join(first_error(err)), 'fn': n, 'unit': n})
                continue
            strong, undef, uses, nf = scan(text)
            total += nf
            for s, loc in strong:
                defs.setdefault((s, loc), []).append(n)
            for s, loc in undef:
                users.setdefault(s, []).append(n)
            for u, fn, loc in uses:
                rep.violation('no-exceptions-or-rtti', '%s:%s' % loc, 'the library %s in %s' % (u, models.demangle([fn])[fn]), '', key=fn)
            rep.count('no-strong-definition', n, not strong, nf)
            rep.count('no-missing-definition', n, not undef)
            rep.count('no-exceptions-or-rtti', n, not uses, nf)
        del res
        dem = models.demangle([s for s, _ in defs] + list(users))
        for (s, loc), l in sorted(defs.items(), key=str):
            rep.violation('no-strong-definition', '%s:%s' % loc if loc else s, '%s is defined with external linkage by a header: two units including it do not link (e.g. %s)' % (dem.get(s, s), l[0]), '', key=s)
        for s, l in sorted(users.items()):
            rep.violation('no-missing-definition', s, '%s is used but defined nowhere in the headers (%s)' % (dem.get(s, s), ', '.join(sorted(set(l)))), '', key=s)
        if total < 100:
            raise Broken('only %d library functions found' % total)
        rep.extra['library_function_bodies_scanned'] = total
        # every set of headers, in either order, in one unit; without exceptions and run-time type information
        syn = []
        fwd = os.path.join(tmp, 'fwd.h')
        rev = os.path.join(tmp, 'rev.h')
        open(fwd, 'w').write(''.join('#include <amtl/%s>\n' % h for h in hs))
        open(rev, 'w').write(''.join('#include <amtl/%s>\n' % h for h in reversed(hs)))
        for w in srcs:
            n = os.path.basename(w)[:-4].replace('__', '/')
            for order, o in (('all headers in order', fwd), ('all headers in reverse order', rev)):
                syn.append(('clang++', 'c++17', ['-include', o], w, '%s.h with %s' % (n, order)))
            for cc in CC:
                syn.append((cc, 'c++17', ['-fno-exceptions', '-fno-rtti'], w, '%s.h without exceptions and rtti' % n))
        if tier == 'thorough':
            for a in hs:
                for b in hs:
                    if a != b:
                        p = os.path.join(tmp, ('p_%s_%s.cpp' % (a, b)).replace('/', '__'))
                        open(p, 'w').write('#include <amtl/%s>\n#include <amtl/%s>\n' % (a, b))
                        syn.append(('clang++', 'c++17', [], p, '%s then %s' % (a, b)))
        run_syntax(rep, 'combines', syn)
        rep.extra['include_orders'] = len(syn)
    finally:
        shutil.rmtree(tmp)
    rep.witness = len(wits)


def c03(rep, tier):
    jobs = []
    for f in sorted(glob.glob(os.path.join(WIT, 'C03_*.cpp'))):
        for cc in CC:
            for std in STD + (['c++23'] if tier == 'thorough' else []):
                for fl in ([], ['-DNDEBUG', '-fno-exceptions', '-fno-rtti'], ['-DKE_SINGLE_THREADED']):
                    jobs.append((cc, std, fl, f, os.path.basename(f)[:-4]))
        n = len(re.findall(r'^\s*(static_assert|COPY|MOVE|NOCOPY|NOMOVE|NO_COPY|MOVABLE)', open(f).read(), re.M))
        rep.extra['assertions_' + os.path.basename(f)] = n
    if not jobs:
        raise Broken('no witness')
    run_syntax(rep, 'copy-and-move-rules', jobs)
    rep.witness = len(jobs)


INTR = re.compile(r'llvm\.(pow|log)\.f(32|64)$')


def c04(rep, tier):
    src = os.path.join(REPO, 'compat', 'stdcxx.cpp')
    want = [f + s for f in ('pow', 'atan2', 'log', 'acos', 'asin') for s in ('', 'f')]
    arity = {'pow': 2, 'atan2': 2}
    if not os.path.exists(src):
        rep.violation('shim', src, 'the compatibility shims are gone', key='file')
        return
    tmp = tempfile.mkdtemp(prefix='sa_')
    cfgs = [('c++17', ['-fno-builtin']), ('c++14', ['-fno-builtin', '-DNDEBUG'])] + ([('c++20', ['-fno-builtin']), ('c++17', ['-ffast-math']), ('c++17', ['-m32', '-fno-builtin'] + M32[1:])] if tier == 'thorough' else [])
    try:
        for k, (std, fl) in enumerate(cfgs):
            t, err = to_ir((src, std, fl, tmp, 'c04_%d' % k))
            if t is None:
                w, e = first_error(err)
                rep.violation('shim', w, 'the shims do not compile: ' + e, err[:2000], key='compile')
                continue
            p = os.path.join(tmp, 'x%d.ll' % k)
            open(p, 'w').write(t)
            r = sh(['opt', '-S', '-passes=function(sroa),cgscc(inline),function(sroa,dce)', '-inline-threshold=100000', p, '-o', p + '2'])
            if r.returncode:
                raise Broken(r.stderr[:300])
            m = ir.parse_module(open(p + '2').read())
            names = sorted(set('__%s_finite' % w for w in want) | {f for f in list(m.funcs) + list(m.globals) if re.fullmatch(r'__\w+_finite', f)})
            for n in names:
                target = n[2:-7]
                f = m.funcs.get(n)
                if f is None:
                    rep.count('shim', n, False)
                    if n in m.globals or re.search(r'^@%s = ' % n, t, re.M):
                        rep.undecided.append({'rule': 'shim', 'where': n, 'text': 'not an ordinary function', 'fn': n, 'unit': 'compat'})
                    else:
                        rep.violation('shim', src, '%s is not defined' % n, key=n)
                    continue
                d = re.search(r'^define [^\n]*@%s\([^\n]*!dbg !(\d+)' % n, open(p + '2').read(), re.M)
                loc = m.loc(d.group(1)) if d else (src, 0)
                rep.funcs[n] = loc
                bad, und = shim(m, f, target, arity.get(target.rstrip('f') if target.endswith('f') else target, 1))
                rep.count('shim', n, not bad and not und)
                if bad:
                    rep.violation('shim', '%s:%s' % loc, '%s: %s' % (n, bad), key=n)
                elif und:
                    rep.undecided.append({'rule': 'shim', 'where': '%s:%s' % loc, 'text': und, 'fn': n, 'unit': 'compat'})
                weak = bool(re.match(r'define\s+(\w+\s+)*weak(_odr)?\s', f.text))
                rep.count('weak', n, weak)
                if not weak:
                    rep.violation('weak', '%s:%s' % loc, '%s is not a weak definition' % n, key=n)
                if len(rep.samples) < 10:
                    rep.samples.append('%s (%s:%d) forwards to %s' % (n, os.path.relpath(loc[0], REPO), loc[1], target))
    finally:
        shutil.rmtree(tmp)
    rep.witness = len(cfgs)


def shim(m, f, target, arity):
    """(violation, undecided): every path makes one call to target with the parameters in order and returns its result"""
    isf = target.endswith('f')
    want = ('f', 32) if isf else ('f', 64)
    names = [p[1] for p in f.params]
    if f.ret != want or len(names) != arity or any(p[0] != want for p in f.params):
        return 'its type is not that of %s' % target, None
    results = []

    def path(bn, prev, env, calls, conds, seen):
        if len(results) > 200:
            return
        if bn in seen:
            results.append((None, calls, conds + ['loop']))
            return
        b = f.blocks[bn]
        get = lambda v: env.get(v[1], v) if v[0] == 'l' else v
        env = dict(env)
        for ph in b.phis:
            for v, pr in ph.a:
                if pr == prev:
                    env[ph.dest] = get(v)
        for i in b.ins:
            if i.op == 'call':
                c = i.a[0]
                nm = c[1] if c[0] == 'g' else None
                if nm and (nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime')):
                    continue
                calls = calls + [(nm, [get(x[1]) for x in i.a[1]], i.dest)]
            elif i.op in ('fcmp', 'icmp'):
                env['?' + str(i.dest)] = all(x[0] == 'l' and x[1] in names or x[0] not in ('l', 'g') for x in (get(i.a[0]), get(i.a[1])))
            elif i.op == 'br':
                if len(i.a) == 1:
                    path(i.a[0], bn, env, calls, conds, seen | {bn})
                else:
                    simple = i.a[0][0] == 'l' and env.get('?' + str(i.a[0][1]))
                    for t in (i.a[1], i.a[2]):
                        path(t, bn, env, calls, conds + ['simple' if simple else 'other'], seen | {bn})
                return
            elif i.op == 'ret':
                results.append((get(i.a[0]) if i.a else None, calls, conds))
                return
            elif i.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fptrunc', 'fpext'):
                env[i.dest] = ('l', '%' + str(i.dest))
            elif i.op in ('load', 'store', 'alloca', 'select', 'switch', 'invoke', 'unreachable', 'freeze', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'zext', 'sext', 'trunc', 'and', 'or', 'xor', 'add', 'sub'):
                conds = conds + ['op ' + i.op]
                if i.op in ('switch', 'unreachable', 'invoke'):
                    results.append((None, calls, conds))
                    return

    path(f.order[0], None, {}, [], [], frozenset())
    bad = None
    for ret, calls, conds in results:
        why = None
        good = [c for c in calls if c[0] == target or (c[0] and INTR.match(c[0]) and c[0] == 'llvm.%s.f%d' % (target.rstrip('f') if isf else target, 32 if isf else 64))]
        if len(calls) != 1 or len(good) != 1:
            why = 'does not make exactly one call to %s (calls %s)' % (target, ', '.join(str(c[0]) for c in calls) or 'nothing')
        elif good[0][1] != [('l', n) for n in names]:
            why = 'does not pass its arguments to %s unchanged and in order' % target
        elif ret != ('l', good[0][2]):
            why = 'does not return the result of %s unchanged' % target
        if why:
            if not conds or conds == ['simple']:
                return why, None
            bad = why + ' on a path whose feasibility is not decided'
    if bad:
        return None, bad
    return (None, None) if results else (None, 'no path to a return')
