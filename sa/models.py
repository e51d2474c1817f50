"""Meaning of the witness vocabulary, libc, compiler intrinsics and payload members."""
import re
import subprocess
from lin import *
from engine import Ptr, Fn, UNDEF, Agg, Obj, Term, Region
import ir as IR

MOVED = (1 << 64) - 1
OBJSIZE = {'Obj': 8, 'MObj': 8}


def demangle(names):
    names = list(names)
    r = subprocess.run(['llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


def cstr(eng, st, p):
    """constant string behind a pointer"""
    if isinstance(p, Ptr) and p.r in st.mem:
        r = st.mem[p.r]
        b = r.attr.get('bytes')
        o = st.cons.norm(p.off)
        if b is not None and not o.t:
            e = b.find(b'\0', o.c)
            return b[o.c:e].decode('latin1')
    return None


# ------------------------------------------------------------------ witness vocabulary
def sa_assert(eng, st, a, ins, name):
    rule = cstr(eng, st, a[1]) or 'assert'
    # value already decided by the comparison that produced it, or a symbol
    v = a[0]
    out = []
    if v is UNDEF:
        eng.alarm(st, rule, 'value undefined')
        return [(st, None)]
    for s, b in eng.truth(st, v):
        if b:
            eng.ok(rule)
            out.append((s, None))
        else:
            eng.alarm(s, rule, 'does not hold')
    return out


def sa_assume(eng, st, a, ins, name):
    return [(s, None) for s, b in eng.truth(st, a[0]) if b]


def sa_reach(eng, st, a, ins, name):
    eng.reached.add(cstr(eng, st, a[0]))
    return [(st, None)]


def nondet(w, hi=None):
    def f(eng, st, a, ins, name):
        return [(st, sym(new_sym('in', 0, (1 << w) - 1 if hi is None else hi)))]
    return f


def rigid(st, v):
    v = st.n(v)
    if isinstance(v, Lin) and len(v.t) == 1:
        RIGID.add(v.t[0][0])


def sa_block(eng, st, a, ins, name):
    n, k, stride = st.n(a[0]), st.n(a[1]), st.n(a[2])
    rigid(st, k)
    rid = eng.new_region(st, 'sym', n, fill='sym', name='block of %r bytes' % n)
    st.mem[rid].arr = (stride.c, k, {})
    return [(st, Ptr(rid, ZERO))]


def str_gen(eng, st, rid, idx, off, n, ty, wit):
    r = st.mem[rid]
    L = r.attr['nul']
    if n != 1:
        eng.taint(st, 'wide read of a string')
        return [(st, eng.havoc(ty))]
    out = []
    d = st.cons.norm(idx - L)
    e = st.copy()
    gt = st.copy()
    if st.ge(-d - 1):
        out.append((st, sym(new_sym('ch', 1, 255))))
    if e.eq(d):
        out.append((e, ZERO))
    if gt.ge(d - 1):
        out.append((gt, sym(new_sym('ch', 0, 255))))
    return out


def sa_str(eng, st, a, ins, name):
    L, k = st.n(a[0]), st.n(a[1])
    rigid(st, k)
    rid = eng.new_region(st, 'sym', L + 1, fill='sym', name='string of length %r' % L)
    r = st.mem[rid]
    r.arr = (1, k, {})
    r.gen = str_gen
    r.attr = {'nul': L}
    return [(st, Ptr(rid, ZERO))]


def sa_clean(eng, st, a, ins, name):
    rule = cstr(eng, st, a[0])
    bad = None
    for rid, r in st.mem.items():
        if r.kind.startswith('heap'):
            if r.arr and r.arr[1] is not None and any(isinstance(v, Obj) for _, v in r.arr[2].values()):
                bad = 'element never destroyed in %s' % r.name
            else:
                bad = 'block never released: %s' % r.name
        elif any(isinstance(v, Obj) for _, v in r.cells.values()):
            bad = 'object never destroyed in %s' % r.name
        elif r.arr and any(isinstance(v, Obj) for _, v in r.arr[2].values()):
            bad = 'element never destroyed in %s' % r.name
        if bad:
            break
    if bad:
        eng.alarm(st, rule, bad)
    else:
        eng.ok(rule)
    return [(st, None)]


def sa_malloc_ok(eng, st, a, ins, name):
    st.ghost['malloc_ok'] = 1
    return [(st, None)]


def sa_pow2(eng, st, a, ins, name):
    st.ghost['pow2'] = st.ghost.get('pow2', ()) + (st.n(a[0]),)
    return [(st, None)]


def sa_alive(eng, st, a, ins, name):
    p = a[0]
    return [(st, ONE if isinstance(p, Ptr) and p.r in st.mem else ZERO)]


def sa_event(eng, st, a, ins, name):
    return [(st, Lin(st.ghost.get('ev:' + cstr(eng, st, a[0]), 0)))]


def noop(eng, st, a, ins, name):
    return [(st, None)]


# ------------------------------------------------------------------ payload objects
def slot(eng, st, p, size, what):
    """-> list of (st, kind, cells or None, off)"""
    if eng.chkptr(st, p, size, what) is None:
        return []
    out = []
    for s, kind, d in eng.locate(st, p, size):
        if kind in ('c', 'w'):
            out.append((s, kind, d))
        elif kind == '?' and not s.mem[p.r].size.t and s.mem[p.r].size.c <= 512:
            lo, hi = s.cons.bounds(d)
            g = d.content()
            for o in range(max(lo or 0, 0), min(s.mem[p.r].size.c - size, hi if hi is not None else 1 << 30) + 1):
                if g and (o - d.c) % g:
                    continue
                s2 = s.copy()
                if s2.eq(d - o):
                    out.append((s2, 'c', o))
        else:
            out.append((s, 'o', d))
    return out


def cells_of(st, p, kind, write=False):
    r = st.wr(p.r) if write else st.mem[p.r]
    return r.cells if kind == 'c' else r.arr[2]


def get_obj(eng, st, p, cls, what):
    """-> list of (st, Obj or None(untracked)); alarms if not alive"""
    out = []
    for s, kind, d in slot(eng, st, p, OBJSIZE.get(cls, 8), what):
        if kind == 'o':
            r = s.mem[p.r]
            g = r.attr.get('objgen')
            if g:
                out.append((s, g(eng, s, p.r, d)))
                continue
            last = r.attr.get('last')       # reading the same element twice in a row gives the same value
            if last is None or last[0] != d:
                r = s.wr(p.r)
                r.attr = dict(r.attr)
                last = r.attr['last'] = (d, sym(new_sym('tok', 0, (1 << 62))))
            out.append((s, Obj(cls, 'live', last[1])))
            continue
        c = cells_of(s, p, kind).get(d)
        if c is None or not isinstance(c[1], Obj):
            g = s.mem[p.r].attr.get('objwit')
            if c is None and kind == 'w' and g and not s.mem[p.r].attr.get('touched'):
                o = g(eng, s, p.r)
                cells_of(s, p, kind, True)[d] = (8, o)
                out.append((s, o))
                continue
            eng.alarm(s, 'object-typestate', '%s of storage that holds no live %s' % (what, cls))
            continue
        eng.ok('object-typestate')
        out.append((s, c[1]))
    return out


def set_obj(eng, st, p, cls, o, what, fresh):
    """construct (fresh) or assign"""
    out = []
    n = OBJSIZE.get(cls, 8)
    for s, kind, d in slot(eng, st, p, n, what):
        if kind == 'o':
            r = s.wr(p.r)
            if not r.attr.get('dirty') or 'last' in r.attr or 'lastv' in r.attr:
                r.attr = dict(r.attr)
                r.attr['dirty'] = True
                r.attr.pop('last', None)
                r.attr['lastv'] = tuple(e for e in r.attr.get('lastv', ()) if d.__class__ is not tuple or e[1] >= d[1] + n or e[1] + e[2] <= d[1])
            h = r.attr.get('onobj')
            if h:
                s = h(eng, s, p.r, d, o, fresh)
            out.append(s)
            continue
        cells = cells_of(s, p, kind, True)
        live = [v for oo, (z, v) in cells.items() if oo < d + n and oo + z > d and isinstance(v, Obj)]
        if fresh and live:
            eng.alarm(s, 'object-typestate', '%s over a live %s object (never destroyed)' % (what, cls))
        elif not fresh and not live:
            eng.alarm(s, 'object-typestate', '%s into storage that holds no live %s' % (what, cls))
            continue
        else:
            eng.ok('object-typestate')
        al = s.mem[p.r].align
        for oo in [oo for oo, (z, v) in cells.items() if oo < d + n and oo + z > d]:
            del cells[oo]
        cells[d] = (n, o)
        out.append(s)
    return out


def bump(st, ev):
    st.ghost['ev:' + ev] = st.ghost.get('ev:' + ev, 0) + 1


def obj_member(dn):
    """handler for a demangled payload member or None"""
    m = re.match(r'^(Obj|MObj)::(~?\w+|operator[^(]*)\((.*)\)( const)?$', dn)
    if not m:
        return None
    cls, mem, par = m.group(1), m.group(2), m.group(3)
    if mem == cls:
        if par == '':
            def f(eng, st, a, ins, name):
                return [(s, None) for s in set_obj(eng, st, a[0], cls, Obj(cls, 'live', ZERO), 'construction', True)]
        elif '&&' in par:
            def f(eng, st, a, ins, name):
                out = []
                for s, o in get_obj(eng, st, a[1], cls, 'move from'):
                    if o.st == 'moved' and eng.opts.get('move-once'):
                        eng.alarm(s, 'object-typestate', 'payload moved a second time')
                        continue
                    for s2 in set_obj(eng, s, a[0], cls, Obj(cls, 'live', o.tok), 'construction', True):
                        for s3 in mark_moved(eng, s2, a[1], cls):
                            out.append((s3, None))
                return out
        elif '&' in par:
            def f(eng, st, a, ins, name):
                out = []
                for s, o in get_obj(eng, st, a[1], cls, 'copy from'):
                    for s2 in set_obj(eng, s, a[0], cls, Obj(cls, 'live', o.tok), 'construction', True):
                        out.append((s2, None))
                return out
        else:
            def f(eng, st, a, ins, name):
                return [(s, None) for s in set_obj(eng, st, a[0], cls, Obj(cls, 'live', st.n(a[1])), 'construction', True)]
        return f
    if mem == '~' + cls:
        def f(eng, st, a, ins, name):
            out = []
            for s, kind, d in slot(eng, st, a[0], OBJSIZE[cls], 'destruction'):
                if kind == 'o':
                    if 'last' in s.mem[a[0].r].attr:
                        r = s.wr(a[0].r)
                        r.attr = dict(r.attr)
                        r.attr.pop('last')
                    h = s.mem[a[0].r].attr.get('ondestroy')
                    if h:
                        s = h(eng, s, a[0].r, d)
                    out.append((s, None))
                    continue
                c = cells_of(s, a[0], kind).get(d)
                if c is None or not isinstance(c[1], Obj):
                    g = s.mem[a[0].r].attr.get('objwit')
                    if not (c is None and kind == 'w' and g and not s.mem[a[0].r].attr.get('touched')):
                        eng.alarm(s, 'object-typestate', 'destruction of storage that holds no live %s (destroyed twice or never constructed)' % cls)
                        continue
                eng.ok('object-typestate')
                cells = cells_of(s, a[0], kind, True)
                if c is not None and c[1].st != 'moved':
                    bump(s, 'destroy-live')
                cells.pop(d, None)
                if kind == 'w':
                    r = s.wr(a[0].r)
                    r.attr = dict(r.attr)
                    r.attr['touched'] = True
                bump(s, 'destroy')
                out.append((s, None))
            return out
        return f
    if mem == 'operator=':
        mv = '&&' in par

        def f(eng, st, a, ins, name):
            out = []
            for s, o in get_obj(eng, st, a[1], cls, 'move from' if mv else 'copy from'):
                for s1, _ in get_obj(eng, s, a[0], cls, 'assignment'):
                    for s2 in set_obj(eng, s1, a[0], cls, Obj(cls, 'live', o.tok), 'assignment', False):
                        if mv:
                            for s3 in mark_moved(eng, s2, a[1], cls):
                                out.append((s3, a[0]))
                        else:
                            out.append((s2, a[0]))
            return out
        return f
    if mem in ('operator==', 'operator!='):
        def f(eng, st, a, ins, name):
            out = []
            for s, o in get_obj(eng, st, a[0], cls, 'comparison'):
                for s1, o2 in get_obj(eng, s, a[1], cls, 'comparison'):
                    out += eng.cmp_lin(s1, 'eq' if mem == 'operator==' else 'ne', o.tok, o2.tok)
            return out
        return f
    if mem == 'operator<':
        def f(eng, st, a, ins, name):
            out = []
            for s, o in get_obj(eng, st, a[0], cls, 'comparison'):
                for s1, o2 in get_obj(eng, s, a[1], cls, 'comparison'):
                    out += eng.cmp_lin(s1, 'ult', o.tok, o2.tok)
            return out
        return f
    return None


def mark_moved(eng, st, p, cls):
    out = []
    for s, kind, d in slot(eng, st, p, OBJSIZE[cls], 'move from'):
        if kind == 'o':
            h = s.mem[p.r].attr.get('onobj')
            if h:
                s = h(eng, s, p.r, d, Obj(cls, 'moved', Lin(MOVED)), False)
            out.append(s)
            continue
        cells = cells_of(s, p, kind, True)
        cells[d] = (OBJSIZE[cls], Obj(cls, 'moved', Lin(MOVED)))
        out.append(s)
    return out


def sa_tok(eng, st, a, ins, name):
    cls = 'MObj' if name == 'sa_mtok' else 'Obj'
    return [(s, s.n(o.tok)) for s, o in get_obj(eng, st, a[0], cls, 'use')]


# ------------------------------------------------------------------ counted objects (ghost counts)
# the object is created with c0 >= 0 foreign references; rc = net change made by the code under analysis
def sa_counted(eng, st, a, ins, name):
    n = 4 if name == 'sa_counted' else 8
    rid = eng.new_region(st, 'sym', n, fill='sym', name='counted object')
    c0 = sym(new_sym('refs', 0, 1 << 30))
    st.ghost[('rc', rid)] = c0
    st.ghost[('rc0', rid)] = c0
    return [(st, Ptr(rid, ZERO))]


def sa_rc(eng, st, a, ins, name):
    p = a[0]
    if not isinstance(p, Ptr):
        eng.alarm(st, 'memory-safety', 'count of null')
        return []
    v = st.n(st.ghost[('rc', p.r)] - st.ghost[('rc0', p.r)])
    return eng.fit(st, v, 64)


def rid_live(eng, st, p, what):
    if not isinstance(p, Ptr):
        eng.alarm(st, 'memory-safety', '%s on %s' % (what, 'a null object' if p == ZERO else 'an invalid object'))
        return False
    if p.r not in st.mem:
        eng.alarm(st, 'memory-safety', '%s on an object that was already destroyed' % what)
        return False
    eng.ok('memory-safety')
    return True


def counted_addref(eng, st, a, ins, name):
    p = a[0]
    if not rid_live(eng, st, p, 'AddRef'):
        return []
    st.ghost[('rc', p.r)] = st.ghost[('rc', p.r)] + 1
    return [(st, None)]


def counted_release(eng, st, a, ins, name):
    p = a[0]
    if not rid_live(eng, st, p, 'Release'):
        return []
    rc = st.n(st.ghost[('rc', p.r)])
    if not st.cons.entails_ge(rc - 1):
        z = st.copy()
        if z.ge(-rc):
            eng.alarm(z, 'count-underflow', 'Release on an object without references')
        if not st.ge(rc - 1):
            return []
    st.ghost[('rc', p.r)] = rc - 1
    out = []
    z = st.copy()
    if z.eq(rc - 1):
        del z.mem[p.r]
        z.ghost['ev:destroyed'] = z.ghost.get('ev:destroyed', 0) + 1
        out.append((z, None))
    if st.ge(rc - 2):
        out.append((st, None))
    return out


# ------------------------------------------------------------------ allocation
def alloc(kind, mayfail):
    def f(eng, st, a, ins, name):
        n = st.n(a[0])
        out = []
        if mayfail and not st.ghost.get('malloc_ok'):
            z = st.copy()
            bump(z, 'alloc-failed')
            out.append((z, ZERO))
        # a single allocation cannot exceed PTRDIFF_MAX
        if st.ge(Lin((1 << 47)) - n):
            rid = eng.new_region(st, kind, n, name='%s(%r) in %s' % (name if name in ('malloc', 'calloc', 'realloc') else 'operator new', n, eng.stack[-1][0]))
            bump(st, 'alloc')
            st.ghost['lastalloc'] = n
            out.append((st, Ptr(rid, ZERO)))
        elif not mayfail:
            pass
        return out
    return f


def calloc(eng, st, a, ins, name):
    out = []
    for s, n in ([(st, a[0].scale(a[1].c))] if isinstance(a[1], Lin) and not a[1].t else [(st, a[1].scale(a[0].c))] if not a[0].t else [(st, None)]):
        if n is None:
            r = eng.mulnc(s, a[0], a[1])
            if r is None:
                return []
            s, n = r
        z = s.copy()
        if not s.ghost.get('malloc_ok'):
            out.append((z, ZERO))
        n = s.n(n)
        if s.ge(Lin(1 << 47) - n):
            rid = eng.new_region(s, 'heap-malloc', n, fill='zero', name='calloc(%r) in %s' % (n, eng.stack[-1][0]))
            bump(s, 'alloc')
            out.append((s, Ptr(rid, ZERO)))
    return out


def free(kinds):
    def f(eng, st, a, ins, name):
        p = a[0]
        if p is UNDEF:
            eng.alarm(st, 'memory-safety', 'free of an uninitialised pointer')
            return []
        if isinstance(p, Lin):
            p = st.n(p)
            if p == ZERO:
                return [(st, None)]
            eng.alarm(st, 'memory-safety', 'free of an invalid pointer %r' % p)
            return []
        if not isinstance(p, Ptr):
            eng.taint(st, 'free')
            return [(st, None)]
        r = st.mem.get(p.r)
        if r is None:
            eng.alarm(st, 'memory-safety', 'memory released twice or after it went away (%s)' % eng.rname.get(p.r))
            return []
        off = st.n(p.off)
        if off.t or off.c != 0:
            eng.alarm(st, 'memory-safety', 'free of an interior pointer')
            return []
        if r.kind not in kinds:
            if r.kind == 'sym':
                eng.taint(st, 'free of foreign memory')
            else:
                eng.alarm(st, 'memory-safety', 'memory from %s released with %s' % (r.kind, kinds[0]))
                return []
        live = [v for _, v in r.cells.values() if isinstance(v, Obj)]
        if r.arr:
            live += [v for _, v in r.arr[2].values() if isinstance(v, Obj)]
        if live:
            eng.alarm(st, 'object-typestate', 'memory released while it still holds a live %s' % live[0].cls)
        else:
            eng.ok('memory-safety')
        del st.mem[p.r]
        bump(st, 'free')
        st.ghost['ev:lastfree'] = p.r
        return [(st, None)]
    return f


def stop(eng, st, a, ins, name):
    bump(st, 'abort')
    return []


def assert_fail(eng, st, a, ins, name):
    eng.alarm(st, 'library-assertion', 'assertion "%s" can fail' % (cstr(eng, st, a[0])))
    return []


def lib_assert(eng, st, a, ins, name):
    eng.alarm(st, 'library-precondition', 'the standard library is used outside its contract: %s' % (cstr(eng, st, a[3]) if len(a) > 3 else ''))
    return []


def trap(eng, st, a, ins, name):
    if 'ubsan' in name:
        eng.alarm(st, 'undefined-operation', 'an operation that is undefined for these values is reachable')
    else:
        eng.alarm(st, 'library-assertion', 'trap reachable')
    return []


# ------------------------------------------------------------------ memory and string functions
def h_memcpy(eng, st, a, ins, name):
    if 'on_store' in eng.opts and st.n(a[2]) != ZERO:
        eng.opts['on_store'](eng, st, a[0], None, ins)
    return [(s, a[0]) for s in eng.memcpy(st, a[0], a[1], a[2])]


def h_memset(eng, st, a, ins, name):
    p, v, n = a[0], st.n(a[1]), st.n(a[2])
    if n == ZERO:
        return [(st, p)]
    if 'on_store' in eng.opts:
        eng.opts['on_store'](eng, st, p, None, ins)
    out = []
    if n.t and not st.cons.entails_ge(n - 1):
        z = st.copy()
        if z.eq(n):
            out.append((z, p))
        if not st.ge(n - 1):
            return out
        n = st.n(n)
    if eng.chkptr(st, p, n, 'memset') is None:
        return out
    if isinstance(v, Lin) and not v.t:
        v = Lin(v.c & 255)
    off = st.n(p.off)
    r = st.mem[p.r]
    if not n.t and not off.t and r.arr is None:
        if n.c <= 4096:
            cur = [st]
            r = st.wr(p.r)
            if v == ZERO and off.c == 0 and r.size == n:
                if any(isinstance(x, Obj) for _, x in r.cells.values()):
                    eng.alarm(st, 'object-typestate', 'memset over a live object')
                r.cells = {}
                r.fill = 'zero'
                r.attr = {k: x for k, x in r.attr.items() if k not in ('bytes', 'lazy')}
                return out + [(st, p)]
            o = off.c
            while o < off.c + n.c:
                step = 8 if v == ZERO and o % 8 == 0 and o + 8 <= off.c + n.c else 1
                if not eng.write_cells(st, r.cells, o, step, v if isinstance(v, Lin) else UNDEF):
                    return out
                o += step
            return out + [(st, p)]
    if r.arr is None and off == ZERO and st.cons.entails_eq(n - r.size):
        r = st.wr(p.r)
        r.cells = {}
        r.fill = 'zero' if v == ZERO else 'sym'
        return out + [(st, p)]
    if r.arr is None:
        if not eng.make_array(st, p.r, None, stride=1):
            eng.taint(st, 'memset')
            return out + [(st, p)]
        r = st.mem[p.r]
    stride, k, w = r.arr
    ko = k.scale(stride)
    inside, before = st.copy(), st.copy()
    if before.ge(off - ko - stride):
        out.append((before, p))
    if st.ge(ko - off - n):
        out.append((st, p))
    if inside.ge(ko - off) and inside.ge(off + n - ko - stride):
        r = inside.wr(p.r)
        if any(isinstance(x, Obj) for _, x in r.arr[2].values()):
            eng.alarm(inside, 'object-typestate', 'memset over a live object')
        lay = [(o, z) for o, (z, _) in r.arr[2].items()] or ([(0, 1)] if stride == 1 else [])
        for o, z in lay:
            r.arr[2][o] = (z, ZERO if v == ZERO else v if z == 1 else sym(new_sym('ms', 0, (1 << (8 * z)) - 1)))
        if stride == 1:
            r.arr[2][0] = (1, v)
        elif v == ZERO:
            r.fill = 'zero'
        out.append((inside, p))
    for s, _ in out:
        if p.r in s.mem:
            r = s.wr(p.r)
            r.attr = dict(r.attr)
            r.attr['dirty'] = True
    return out


def h_strlen(eng, st, a, ins, name):
    p = a[0]
    if eng.chkptr(st, p, 1, 'strlen') is None:
        return []
    return str_scan(eng, st, p)


def str_scan(eng, st, p):
    r = st.mem[p.r]
    off = st.n(p.off)
    if 'nul' in r.attr and not r.attr.get('dirty'):
        L = st.n(r.attr['nul'])
        out = []
        z = st.copy()
        if st.ge(L - off):
            out.append((st, st.n(L - off)))
        if z.ge(off - L - 1):
            eng.alarm(z, 'memory-safety', 'scan starts past the terminator')
        return out
    if r.attr.get('bytes') is not None and not off.t:
        e = r.attr['bytes'].find(b'\0', off.c)
        if e >= 0:
            return [(st, Lin(e - off.c))]
    if r.arr is None and not off.t:
        out = []
        cur = st
        o = off.c
        lim = r.size.c if not r.size.t else o + 4096
        while True:
            if o >= lim:
                eng.alarm(cur, 'memory-safety', 'string scan runs past the end of %s' % r.name)
                return out
            res = eng.load(cur, Ptr(p.r, Lin(o)), ('i', 8))
            if not res:
                return out
            cur, v = res[0]
            if v is UNDEF:
                eng.alarm(cur, 'uninitialised-value', 'string scan reads uninitialised bytes')
                return out
            if isinstance(v, Lin):
                z = cur.copy()
                if z.eq(v):
                    out.append((z, Lin(o - off.c)))
                if not cur.ge(v - 1):
                    return out
            o += 1
            if o - off.c > 300:
                eng.taint(cur, 'long string scan')
                return out
    eng.taint(st, 'strlen of untracked bytes')
    return [(st, sym(new_sym('len', 0, 1 << 46)))]


def h_strnlen(eng, st, a, ins, name):
    out = []
    p, n = a[0], st.n(a[1])
    if n == ZERO:
        return [(st, ZERO)]
    if not isinstance(p, Ptr):
        return h_strlen(eng, st, a, ins, name)
    r = st.mem.get(p.r)
    if r is not None and 'nul' in r.attr and not r.attr.get('dirty'):
        L = st.n(r.attr['nul'])
        off = st.n(p.off)
        d = L - off
        a1, b1 = st.copy(), st
        if a1.ge(n - d - 1) and a1.ge(d):
            out.append((a1, a1.n(d)))
        if b1.ge(d - n):
            out.append((b1, b1.n(n)))
        return out
    if r is not None and r.arr is None and not st.n(p.off).t and isinstance(n, Lin):
        off = st.n(p.off).c
        lim = n.c if not n.t else 300
        cur = st
        for i in range(min(lim, 300) + 1):
            # every byte before i is not the terminator
            d = cur.copy()
            if d.ge(Lin(i) - n):
                out.append((d, Lin(i)))
            if not cur.ge(n - (i + 1)):
                return out
            if eng.chkptr(cur, Ptr(p.r, Lin(off + i)), 1, 'strnlen') is None:
                return out
            res = eng.load(cur, Ptr(p.r, Lin(off + i)), ('i', 8))
            if not res:
                return out
            cur, v = res[0]
            if v is UNDEF:
                eng.alarm(cur, 'uninitialised-value', 'string scan reads uninitialised bytes')
                return out
            if isinstance(v, Lin):
                z = cur.copy()
                if z.eq(v):
                    out.append((z, Lin(i)))
                if not cur.ge(v - 1):
                    return out
        eng.taint(st, 'long string scan')
        return out
    for s, L in h_strlen(eng, st, a, ins, name):
        for x, v in eng.cmp_lin(s, 'ult', L, n):
            out.append((x, x.n(L) if v == ONE else x.n(n)))
    return out


def h_memchr(eng, st, a, ins, name):
    eng.taint(st, name)
    t = st.copy()
    d = sym(new_sym('pos', 0, 1 << 46))
    if isinstance(a[0], Ptr):
        t.ge(t.mem[a[0].r].size - a[0].off - d - 1) if a[0].r in t.mem else None
        return [(st, ZERO), (t, Ptr(a[0].r, t.n(a[0].off + d)))]
    return [(st, ZERO)]


def bound_result(lo, hi):
    def f(eng, st, a, ins, name):
        return [(st, sym(new_sym(name, lo, hi)))]
    return f


# ------------------------------------------------------------------ intrinsics
def intrinsic(name):
    m = re.match(r'^llvm\.(\w+)(.*)$', name)
    if not m:
        return None
    base, rest = m.group(1), m.group(2)
    w = re.search(r'\.i(\d+)', rest)
    w = int(w.group(1)) if w else None
    if base in ('memcpy', 'memmove'):
        return h_memcpy
    if base == 'memset':
        return h_memset
    if base in ('lifetime', 'dbg', 'assume', 'donothing', 'experimental', 'stackrestore', 'var'):
        return noop
    if base == 'stacksave':
        return lambda eng, st, a, ins, n: [(st, ZERO)]
    if base == 'trap' or base == 'ubsantrap':
        return trap
    if base == 'expect':
        return lambda eng, st, a, ins, n: [(st, a[0])]
    if base in ('launder', 'strip'):
        return lambda eng, st, a, ins, n: [(st, a[0])]
    if base in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and 'with.overflow' in rest:
        def f(eng, st, a, ins, n):
            x, y = a[0], a[1]
            if x is UNDEF or y is UNDEF:
                return [(st, UNDEF)]
            M = 1 << w
            out = []
            cur = []
            if base[0] == 's':
                for s1, sa in eng.signed(st, x, w):
                    for s2, sb in eng.signed(s1, y, w):
                        cur.append((s2, sa, sb))
                lo, hi = -(M >> 1), (M >> 1) - 1
            else:
                cur.append((st, x, y))
                lo, hi = 0, M - 1
            for s, p, q in cur:
                if 'mul' in base:
                    if not p.t or not q.t:
                        v = p.scale(q.c) if not q.t else q.scale(p.c)
                    else:
                        np_, nq = not s.cons.entails_ge(p), not s.cons.entails_ge(q)
                        r = eng.mulnc(s, -p if np_ else p, -q if nq else q)
                        if r is None:
                            continue
                        s, v = r
                        if np_ != nq:
                            v = -v
                else:
                    v = p + q if 'add' in base else p - q
                o1, o2 = s.copy(), s.copy()
                if s.ge(v - lo) and s.ge(Lin(hi) - v):
                    for t, z in eng.fit(s, v, w):
                        out.append((t, Agg([z, ZERO])))
                if o1.ge(v - hi - 1):
                    for t, z in eng.fit(o1, v, w):
                        out.append((t, Agg([z, ONE])))
                if o2.ge(Lin(lo - 1) - v):
                    for t, z in eng.fit(o2, v, w):
                        out.append((t, Agg([z, ONE])))
            return out
        return f
    if base in ('umax', 'umin', 'smax', 'smin'):
        def f(eng, st, a, ins, n):
            out = []
            for s, v in eng.icmp(st, ('ugt' if base[0] == 'u' else 'sgt') if 'max' in base else ('ult' if base[0] == 'u' else 'slt'), a[0], a[1], ('i', w)):
                out.append((s, s.n(a[0] if v == ONE else a[1])))
            return out
        return f
    if base == 'abs':
        def f(eng, st, a, ins, n):
            out = []
            for s, v in eng.signed(st, a[0], w):
                out += eng.fit(s, v if s.cons.entails_ge(v) else -v, w)
            return out
        return f
    if base in ('ctlz', 'cttz'):
        def f(eng, st, a, ins, n):
            x = a[0]
            if x is UNDEF:
                return [(st, UNDEF)]
            x = st.n(x)
            out = []
            z = st.copy()
            if z.eq(x):
                zp = a[1] if len(a) > 1 else ZERO
                if isinstance(zp, Lin) and zp == ONE:
                    eng.alarm(z, 'undefined-bit-scan', 'bit scan of zero is undefined')
                else:
                    out.append((z, Lin(w)))
            if not st.ge(x - 1):
                return out
            lo, hi = st.cons.bounds(x)
            for i in range(w):
                if base == 'ctlz':
                    if hi is not None and hi < (1 << i) or lo is not None and lo > (2 << i) - 1:
                        continue
                    s = st.copy()
                    if s.ge(x - (1 << i)) and s.ge(Lin((2 << i) - 1) - x):
                        out.append((s, Lin(w - 1 - i)))
                else:
                    if hi is not None and hi < (1 << i):
                        continue
                    s = st.copy()
                    r = eng.split(s, x, 2 << i)
                    if r is None:
                        continue
                    s, q, rem = r
                    if s.eq(rem - (1 << i)):
                        out.append((s, Lin(i)))
            return out
        return f
    if base == 'ctpop':
        def f(eng, st, a, ins, n):
            x = st.n(a[0])
            if not x.t:
                return [(st, Lin(bin(x.c).count('1')))]
            out = []
            z = st.copy()
            if z.eq(x):
                out.append((z, ZERO))
            if not st.ge(x - 1):
                return out
            lo, hi = st.cons.bounds(x)
            for i in range(w):
                if hi is not None and hi < (1 << i) or lo is not None and lo > (1 << i):
                    continue
                s = st.copy()
                if s.eq(x - (1 << i)):
                    out.append((s, ONE))
            for i in range(1, w):
                s = st.copy()
                if s.ge(x - (1 << i) - 1) and s.ge(Lin((2 << i) - 1) - x):
                    out.append((s, sym(new_sym('pop', 2, i + 1))))
            return out
        return f
    return None


def unique(fn):
    fn.unique = True
    return fn


BASE = {
    'sa_assert': sa_assert, 'sa_assume': sa_assume, 'sa_reach': sa_reach,
    'sa_bool': nondet(1), 'sa_u8': nondet(8), 'sa_u16': nondet(16), 'sa_u32': nondet(32), 'sa_u64': nondet(64), 'sa_int': nondet(32),
    'sa_size': nondet(64, 1 << 46), 'sa_block': sa_block, 'sa_str': sa_str, 'sa_clean': sa_clean, 'sa_malloc_ok': sa_malloc_ok,
    'sa_pow2': sa_pow2, 'sa_alive': sa_alive, 'sa_event': sa_event, 'sa_consume': noop, 'sa_opaque': noop,
    'sa_tok': sa_tok, 'sa_mtok': sa_tok, 'sa_counted': sa_counted, 'sa_counted_derived': sa_counted, 'sa_rc': sa_rc,
    '_ZN7Counted6AddRefEv': counted_addref, '_ZN7Counted7ReleaseEv': counted_release,
    'malloc': alloc('heap-malloc', True), 'calloc': calloc, 'free': free(('heap-malloc',)),
    '_Znwm': alloc('heap-new', False), '_Znam': alloc('heap-new[]', False),
    '_ZnwmRKSt9nothrow_t': alloc('heap-new', True), '_ZnamRKSt9nothrow_t': alloc('heap-new[]', True),
    '_ZdlPv': free(('heap-new',)), '_ZdlPvm': free(('heap-new',)), '_ZdaPv': free(('heap-new[]',)), '_ZdaPvm': free(('heap-new[]',)),
    'abort': stop, 'exit': stop, '_exit': stop, '_ZSt9terminatev': stop, '__assert_fail': assert_fail, '_ZSt21__glibcxx_assert_failPKciS0_S0_': lib_assert,
    '_ZSt20__throw_length_errorPKc': stop, '_ZSt17__throw_bad_allocv': stop, '_ZSt28__throw_bad_array_new_lengthv': stop,
    '_ZSt20__throw_out_of_rangePKc': stop, '_ZSt24__throw_out_of_range_fmtPKcz': stop, '_ZSt19__throw_logic_errorPKc': stop,
    'memcpy': h_memcpy, 'memmove': h_memcpy, 'memset': h_memset, 'strlen': h_strlen, 'strnlen': h_strnlen,
    'memchr': h_memchr, 'strchr': h_memchr, 'strrchr': h_memchr,
    '__cxa_atexit': lambda eng, st, a, ins, n: [(st, ZERO)],
    '__errno_location': None,
}


def errno_loc(eng, st, a, ins, name):
    rid = st.ghost.get('errno')
    if rid is None:
        rid = eng.new_region(st, 'sym', 4, fill='sym', name='errno')
        st.ghost['errno'] = rid
    return [(st, Ptr(rid, ZERO))]


BASE['__errno_location'] = errno_loc
_dm = {}


LIBC = ('strncmp', 'strcmp', 'memcmp', 'strstr', 'strchr', 'strrchr', 'memchr', 'tolower', 'toupper', 'strcasecmp', 'strncasecmp', 'strcpy', 'stpcpy', 'strncpy', 'strcat', 'strncat')


LIBC_ALIAS = {'strtol': 'strtol', '__isoc23_strtol': 'strtol', 'strtoll': 'strtol', '__isoc23_strtoll': 'strtol'}


def libc_body(eng, st, a, ins, name):
    return eng.call(st, 'c_' + LIBC_ALIAS.get(name, name), a, ins)


def resolver(extra=None, regex=()):
    extra = extra or {}

    def f(eng, name):
        if name in extra:
            return extra[name]
        if name in LIBC and 'c_' + name in eng.m.funcs:
            return libc_body
        if name in LIBC_ALIAS and 'c_' + LIBC_ALIAS[name] in eng.m.funcs:
            return libc_body
        if name in BASE:
            return BASE[name]
        h = intrinsic(name)
        if h:
            return h
        d = eng.dem.get(name, name)
        h = obj_member(d)
        if h:
            return h
        for rx, fn in regex:
            m = rx.search(d)
            if m:
                return fn
        return None
    return f
