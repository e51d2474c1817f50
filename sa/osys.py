"""The operating system as the library sees it: mutexes, threads, thread-local keys."""
import re
from lin import *
from engine import Ptr, UNDEF, Agg
import models
from models import bump, cstr

SELF = 7000      # pthread_self() of thread n is SELF + n


def sa_thread(eng, st, a, ins, name):
    """from here the code is run by thread a[0]"""
    st.ghost['thread'] = st.n(a[0]).c
    return [(st, None)]


def pthread_self(eng, st, a, ins, name):
    return [(st, Lin(SELF + st.ghost.get('thread', 1)))]


def sa_expect_assertion(eng, st, a, ins, name):
    st.ghost['expect'] = 1
    return [(st, None)]


def assert_fail(eng, st, a, ins, name):
    if st.ghost.get('expect'):
        eng.ok('assertion-fires-for-non-owner')
        eng.reached.add('assertion-fires')
        return []
    return models.assert_fail(eng, st, a, ins, name)


# ------------------------------------------------------------------ T02: a mutex
def sa_share_mutex(eng, st, a, ins, name):
    st.ghost['mutex'] = a[0].r
    return [(st, None)]


def mkey(st, p):
    return ('mutex', p.r)


def m_lock(eng, st, a, ins, name):
    p = a[0]
    if not isinstance(p, Ptr):
        eng.alarm(st, 'locks-own-mutex', 'an unknown mutex is locked')
        return []
    bump(st, 'lock')
    h = st.ghost.get(mkey(st, p))
    me = st.ghost.get('thread', 1)
    if h == me:
        eng.alarm(st, 'locks-once', 'the mutex is locked again by the thread that holds it')
        return []
    if h:
        return []        # waits for the other thread, which is not running
    eng.ok('locks-once')
    st.ghost[mkey(st, p)] = me
    return [(st, ZERO)]


def m_trylock(eng, st, a, ins, name):
    p = a[0]
    if not isinstance(p, Ptr):
        eng.alarm(st, 'locks-own-mutex', 'an unknown mutex is locked')
        return []
    bump(st, 'trylock')
    if st.ghost.get(mkey(st, p)):
        return [(st, Lin(16))]
    s = st.copy()
    st.ghost[mkey(st, p)] = st.ghost.get('thread', 1)
    return [(st, ZERO), (s, Lin(16))]


def m_unlock(eng, st, a, ins, name):
    p = a[0]
    bump(st, 'unlock')
    if not isinstance(p, Ptr) or st.ghost.get(mkey(st, p)) != st.ghost.get('thread', 1):
        eng.alarm(st, 'unlocks-once', 'a mutex is unlocked that this thread does not hold')
        return []
    eng.ok('unlocks-once')
    st.ghost[mkey(st, p)] = None
    return [(st, ZERO)]


def m_held(eng, st, a, ins, name):
    return [(st, ONE if st.ghost.get(mkey(st, a[0])) == st.ghost.get('thread', 1) else ZERO)]


def m_store(eng, st, p, v, ins):
    m = st.ghost.get('mutex')
    if m is not None and isinstance(p, Ptr) and p.r == m:
        if st.ghost.get(('mutex', m)) != st.ghost.get('thread', 1):
            eng.alarm(st, 'owner-changes-only-while-held', 'the ownership record is changed while the mutex is not held')
        else:
            eng.ok('owner-changes-only-while-held')


def m_astore(eng, st, p, v, ty, order, ins):
    m_store(eng, st, p, v, ins)
    return [(x, None) for x in eng.store(st, p, v, eng.m.size(ty))]


T02_OPTS = {'on_store': m_store, 'atomic_store': m_astore}
T02_H = {'sa_thread': sa_thread, 'pthread_self': pthread_self, 'sa_expect_assertion': sa_expect_assertion, '__assert_fail': assert_fail, 'sa_share_mutex': sa_share_mutex,
         'sa_held': m_held, 'pthread_mutex_lock': m_lock, 'pthread_mutex_trylock': m_trylock, 'pthread_mutex_unlock': m_unlock}


# ------------------------------------------------------------------ T03: starting threads
def text_at(eng, st, p, limit=200):
    """concrete text at p, or None"""
    out = []
    for i in range(limit):
        r = eng.load(st, eng.padd(p, i), ('i', 8))
        if len(r) != 1:
            return None
        v = r[0][1]
        v = st.n(v) if isinstance(v, Lin) else None
        if v is None or v.t:
            return None
        if v.c == 0:
            return bytes(out).decode('latin-1')
        out.append(v.c)
    return None


def setname(eng, st, a, ins, name):
    bump(st, 'setname')
    me = SELF + st.ghost.get('thread', 1)
    st.ghost['named'] = (st.n(a[0]).c - SELF if isinstance(a[0], Lin) and not st.n(a[0]).t else None, text_at(eng, st, a[1]) if isinstance(a[1], Ptr) else None)
    return [(st, ZERO)]


def named(eng, st, a, ins, name):
    want = text_at(eng, st, a[1])
    t, n = st.ghost.get('named', (None, None))
    return [(st, ONE if t == st.n(a[0]).c and n == want else ZERO)]


T03_H = {'sa_thread': sa_thread, 'pthread_self': pthread_self, 'pthread_setname_np': setname, 'sa_named': named}


# ------------------------------------------------------------------ T01: thread-local keys
# Any number of threads run the library's functions on one shared variable.  Thread-modular: what a thread can do
# to the shared state in one step is recorded as a transition; every access to the shared state is preceded by any
# sequence of recorded transitions; repeated until no function yields a new one.
KEY = 4242
ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')
NOBODY, ME, OTHER = 0, 1, 2
# G = (cells, writers, pub, creating, made): cells {(off,size): value}, writers {off: who}, pub {(word, cell)}
# local: sync = cells whose latest write happens before us


def tl_share(eng, st, a, ins, name):
    p = a[0]
    st.ghost['tl'] = p.r
    cells = {}
    for o, (n, v) in st.mem[p.r].cells.items():
        v = st.n(v) if isinstance(v, Lin) else None
        if v is not None and not v.t:
            cells[(o, n)] = v.c
    st.ghost['G'] = (frozenset(cells.items()), frozenset(), frozenset(), NOBODY, st.ghost.get('made', 0))
    st.ghost['sync'] = frozenset()
    return [(st, None)]


def tl_put(st, G, sync, wrote=()):
    st.ghost['G'] = G
    st.ghost['sync'] = sync


def view(w, mine, post, me_post):
    """label of the viewer after an actor's step: w the actor's pre label, mine the viewer's; None: not this state"""
    if w == NOBODY and mine != NOBODY or w == ME and mine != OTHER or w == OTHER and mine not in (ME, OTHER):
        return None
    if post == w:
        return mine
    return OTHER if post == ME else post if post == NOBODY else None


def successors(rel, G, sync):
    cells, wr, pub, cr, made = G
    for (c0, w0, p0, cr0, m0), (c1, w1, p1, cr1, m1), wrote in rel:
        if c0 != cells or p0 != pub or m0 != made:
            continue
        ncr = view(cr0, cr, cr1, None)
        if ncr is None:
            continue
        d, d0, d1 = dict(wr), dict(w0), dict(w1)
        nw = {}
        for o in set(d) | set(d0) | set(d1):
            if o in wrote:
                x = OTHER if view(d0.get(o, 0), d.get(o, 0), d0.get(o, 0), None) is not None else None
            else:
                x = view(d0.get(o, 0), d.get(o, 0), d1.get(o, 0), None)
            if x is None:
                nw = None
                break
            if x:
                nw[o] = x
        if nw is None:
            continue
        yield (c1, frozenset(nw.items()), p1, ncr, m1), sync - frozenset(wrote)


def interfere(eng, st):
    """the state after any number of steps of other threads"""
    if 'G' not in st.ghost:
        return [st]
    rel = eng.opts['rel']
    seen = {(st.ghost['G'], st.ghost['sync'])}
    work = list(seen)
    while work:
        g = work.pop()
        for n in successors(rel, *g):
            if n not in seen:
                seen.add(n)
                work.append(n)
    out = []
    for G, sync in sorted(seen, key=repr):
        s = st.copy()
        tl_put(s, G, sync)
        out.append(s)
    return out


def act(eng, st, G, sync, wrote=()):
    eng.opts['rel'].add((st.ghost['G'], G, frozenset(wrote)))
    tl_put(st, G, sync)


def at(eng, st, p, n):
    if not isinstance(p, Ptr) or st.ghost.get('tl') != p.r:
        return None
    off = st.n(p.off)
    if off.t:
        eng.taint(st, 'shared access at unknown offset')
        return None
    return off.c


def rd(eng, st, o, n):
    return dict(st.ghost['G'][0]).get((o, n), UNDEF)


def wrt(G, o, n, v):
    c = {k: x for k, x in G[0] if not (k[0] < o + n and o < k[0] + k[1])}
    if v is not None:
        c[(o, n)] = v
    w = dict(G[1])
    w[o] = ME
    return frozenset(c.items()), frozenset(w.items()), frozenset(x for x in G[2] if x[1] != o)


def known(st, G):
    """cells whose latest write is visible to us"""
    return {o for o, w in G[1] if w == ME} | set(st.ghost['sync'])


def racefree(eng, st, o):
    if dict(st.ghost['G'][1]).get(o, NOBODY) == OTHER and o not in st.ghost['sync']:
        eng.alarm(st, 'no-unsynchronised-access', 'shared data written by another thread is accessed without synchronisation')
        return False
    eng.ok('no-unsynchronised-access')
    return True


def tl_plain_load(eng, st, p, ty, ins):
    o = at(eng, st, p, eng.m.size(ty))
    if o is None:
        return None
    out = []
    for s in interfere(eng, st):
        if not racefree(eng, s, o):
            continue
        v = rd(eng, s, o, eng.m.size(ty))
        out.append((s, v if v is UNDEF else Lin(v)))
    return out


def tl_plain_store(eng, st, p, v, n, ins):
    o = at(eng, st, p, n)
    if o is None:
        return None
    v = st.n(v) if isinstance(v, Lin) else None
    if v is None or v.t:
        eng.taint(st, 'unknown value stored in shared data')
    out = []
    for s in interfere(eng, st):
        if not racefree(eng, s, o):
            continue
        G = s.ghost['G']
        c, w, pub = wrt(G, o, n, v.c if v is not None and not v.t else None)
        act(eng, s, (c, w, pub) + G[3:], s.ghost['sync'] - {o}, [o])
        out.append((s, None))
    return out


def acquire(st, o, order):
    if order in ACQ:
        st.ghost['sync'] = st.ghost['sync'] | frozenset(c for w, c in st.ghost['G'][2] if w == o)


def tl_load(eng, st, p, ty, order, ins):
    o = at(eng, st, p, eng.m.size(ty))
    if o is None:
        return [(x, v) for x, v in eng.load(st, p, ty)]
    out = []
    for s in interfere(eng, st):
        v = rd(eng, s, o, eng.m.size(ty))
        acquire(s, o, order)
        out.append((s, v if v is UNDEF else Lin(v)))
    return out


def word_write(eng, s, o, n, v, order, rmw):
    G = s.ghost['G']
    c, w, pub = wrt(G, o, n, v)
    if not rmw:
        pub = frozenset(x for x in pub if x[0] != o)
    if order in REL:
        s2 = known(s, (c, w, pub)) - {o}
        pub = pub | frozenset((o, x) for x in s2 | {o})
    act(eng, s, (c, w, pub) + G[3:], s.ghost['sync'] - {o}, [o])


def concrete(eng, st, v):
    v = st.n(v) if isinstance(v, Lin) else None
    if v is None or v.t:
        eng.taint(st, 'unknown value stored in a shared word')
        return None
    return v.c


def tl_store(eng, st, p, v, ty, order, ins):
    n = eng.m.size(ty)
    o = at(eng, st, p, n)
    if o is None:
        return [(x, None) for x in eng.store(st, p, v, n)]
    out = []
    for s in interfere(eng, st):
        word_write(eng, s, o, n, concrete(eng, s, v), order, False)
        out.append((s, None))
    return out


def tl_cas(eng, st, p, c, v, ins):
    n = eng.m.size(ins.ty)
    o = at(eng, st, p, n)
    if o is None:
        opts = eng.opts
        h = opts.pop('cmpxchg')
        try:
            return eng.cmpxchg(st, ins)
        finally:
            opts['cmpxchg'] = h
    weak, (so, fo) = ins.extra
    out = []
    c = concrete(eng, st, c)
    for s in interfere(eng, st):
        old = rd(eng, s, o, n)
        if old is UNDEF or c is None:
            eng.taint(s, 'undefined shared word compared')
            continue
        if old == c:
            if weak:
                f = s.copy()
                acquire(f, o, fo)
                out.append((f, Agg([Lin(old), ZERO])))
            acquire(s, o, so)
            word_write(eng, s, o, n, concrete(eng, s, v), so, True)
            out.append((s, Agg([Lin(old), ONE])))
        else:
            acquire(s, o, fo)
            out.append((s, Agg([Lin(old), ZERO])))
    return out


def tl_rmw(eng, st, p, v, w, order, ins):
    n = eng.m.size(ins.ty)
    o = at(eng, st, p, n)
    if o is None:
        opts = eng.opts
        h = opts.pop('atomicrmw')
        try:
            return eng.atomicrmw(st, ins)
        finally:
            opts['atomicrmw'] = h
    x = concrete(eng, st, v)
    out = []
    for s in interfere(eng, st):
        old = rd(eng, s, o, n)
        if old is UNDEF or x is None:
            eng.taint(s, 'undefined shared word updated')
            continue
        nv = {'xchg': x, 'add': old + x, 'sub': old - x, 'and': old & x, 'or': old | x, 'xor': old ^ x}.get(w)
        if nv is None:
            eng.taint(s, 'atomic ' + w)
            continue
        acquire(s, o, order)
        word_write(eng, s, o, n, nv & ((1 << 8 * n) - 1), order, True)
        out.append((s, Lin(old)))
    return out


def key_create(eng, st, a, ins, name):
    p = a[0]
    o = at(eng, st, p, 4) if isinstance(p, Ptr) else None
    if 'G' not in st.ghost:
        # a single thread
        if st.ghost.get('made'):
            eng.alarm(st, 'key-created-once', 'a second key is created for the same variable')
            return []
        eng.ok('key-created-once')
        bump(st, 'create')
        out = [(st.copy(), Lin(11))]
        bump(out[0][0], 'create_failed')
        bump(st, 'created')
        st.ghost['made'] = 1
        return out + [(x, ZERO) for x in eng.store(st, p, Lin(KEY), 4)]
    out = []
    for s in interfere(eng, st):
        G = s.ghost['G']
        if G[3] or G[4]:
            eng.alarm(s, 'key-created-once', 'the key is created %s' % ('again' if G[4] else 'while another thread creates it'))
            continue
        eng.ok('key-created-once')
        act(eng, s, G[:3] + (ME, G[4]), s.ghost['sync'])
        for t in interfere(eng, s):
            G = t.ghost['G']
            f = t.copy()
            act(eng, f, G[:3] + (NOBODY, G[4]), f.ghost['sync'])
            bump(f, 'create_failed')
            out.append((f, Lin(11)))
            if o is not None:
                if not racefree(eng, t, o):
                    continue
                c, w, pub = wrt(G, o, 4, KEY)
                act(eng, t, (c, w, pub, NOBODY, 1), t.ghost['sync'] - {o}, [o])
                bump(t, 'created')
                out.append((t, ZERO))
            else:
                act(eng, t, G[:3] + (NOBODY, 1), t.ghost['sync'])
                bump(t, 'created')
                out += [(x, ZERO) for x in eng.store(t, p, Lin(KEY), 4)]
    return out


def key_ok(eng, st, k, what):
    k = st.n(k) if isinstance(k, Lin) else None
    if k is None or k.t or k.c != KEY or st.ghost.get('deleted'):
        eng.alarm(st, 'key-used-only-once-created', 'a key is %s %s' % (what, 'after it was deleted' if st.ghost.get('deleted') else 'that was never created'))
        return False
    eng.ok('key-used-only-once-created')
    return True


def tls(st):
    return ('tls', st.ghost.get('thread', 1))


def getspecific(eng, st, a, ins, name):
    if not key_ok(eng, st, a[0], 'read'):
        return []
    return [(st, st.ghost.get(tls(st), ZERO))]


def setspecific(eng, st, a, ins, name):
    if not key_ok(eng, st, a[0], 'written'):
        return []
    bump(st, 'setspecific')
    st.ghost[tls(st)] = a[1]
    return [(st, ZERO)]


def key_delete(eng, st, a, ins, name):
    if not key_ok(eng, st, a[0], 'deleted'):
        return []
    bump(st, 'delete')
    st.ghost['deleted'] = 1
    return [(st, ZERO)]


def tl_made(eng, st, a, ins, name):
    """has the key been created by now?"""
    return [(s, Lin(s.ghost['G'][4] if 'G' in s.ghost else s.ghost.get('made', 0))) for s in interfere(eng, st)]


T01_OPTS = {'atomic_load': tl_load, 'atomic_store': tl_store, 'cmpxchg': tl_cas, 'atomicrmw': tl_rmw, 'plain_load': tl_plain_load, 'plain_store': tl_plain_store, 'rel_fix': True,
            'UNROLL': 40, 'MAXSTATES': 40000}
T01_H = {'sa_thread': sa_thread, 'pthread_self': pthread_self, 'sa_share_slot': tl_share, 'sa_made': tl_made, 'pthread_key_create': key_create, 'pthread_getspecific': getspecific,
         'pthread_setspecific': setspecific, 'pthread_key_delete': key_delete, 'sched_yield': models.bound_result(0, 0), 'fprintf': models.bound_result(0, 0), 'fwrite': models.bound_result(0, 0)}


# ------------------------------------------------------------------ S02: formatting
# One text per variable argument list: of length sa_format(max): every length up to max, or failure; arbitrary characters.
def vkey(st, p):
    o = st.n(p.off)
    return ('va', p.r, o.c if not o.t else None)


def va_start(eng, st, a, ins, name):
    n = st.ghost.get('va_count', 0) + 1
    st.ghost['va_count'] = n
    k = vkey(st, a[0])
    if st.ghost.get(k, ('ended',))[0] != 'ended':
        eng.alarm(st, 'argument-lists-ended-once', 'an argument list is started again before it is ended')
    st.ghost[k] = ('live', n)
    return [(st, None)]


def va_copy(eng, st, a, ins, name):
    s, d = st.ghost.get(vkey(st, a[1])), vkey(st, a[0])
    if not s or s[0] != 'live':
        eng.alarm(st, 'argument-lists-used-once', 'an argument list that is %s is copied' % ('already used' if s and s[0] == 'used' else 'not started'))
        return []
    if st.ghost.get(d, ('ended',))[0] != 'ended':
        eng.alarm(st, 'argument-lists-ended-once', 'a live argument list is overwritten by a copy')
    st.ghost[d] = s
    return [(st, None)]


def va_end(eng, st, a, ins, name):
    k = vkey(st, a[0])
    if st.ghost.get(k, ('ended',))[0] == 'ended':
        eng.alarm(st, 'argument-lists-ended-once', 'an argument list is ended that is not live')
        return []
    eng.ok('argument-lists-ended-once')
    st.ghost[k] = ('ended',)
    return [(st, None)]


def va_clean(eng, st, a, ins, name):
    if any(isinstance(k, tuple) and k[0] == 'va' and v[0] != 'ended' for k, v in st.ghost.items()):
        eng.alarm(st, 'argument-lists-ended-once', 'an argument list is never ended')
    else:
        eng.ok('argument-lists-ended-once')
    return [(st, None)]


def sa_format(eng, st, a, ins, name):
    """texts of up to a[0] characters (0: of any length, characters not followed); a[1]: the format expected"""
    st.ghost['fmt_max'] = st.n(a[0]).c
    st.ghost['fmt'] = (a[1].r, st.n(a[1].off).c) if isinstance(a[1], Ptr) else None
    return [(st, None)]


def sa_format_long(eng, st, a, ins, name):
    """one text of exactly a[0] characters, none of them null, 94 different ones; formatting succeeds"""
    st.ghost['fmt_long'] = st.ghost['fmt_ok'] = True
    return sa_format(eng, st, a, ins, name)


def text_of(eng, st, org):
    """-> [(state, length, characters or None)] every text the argument list may denote"""
    k = ('text', org)
    if k in st.ghost:
        return [(st,) + st.ghost[k]]
    m = st.ghost.get('fmt_max', 0)
    if st.ghost.get('fmt_long'):
        cs = tuple(Lin(33 + i * 31 % 94) for i in range(m))
        st.ghost[k] = (Lin(m), cs)
        return [(st, Lin(m), cs)]
    out = []
    if m == 0:
        L = sym(new_sym('len', 0, (1 << 31) - 1))
        st.ghost[k] = (L, None)
        return [(st, L, None)]
    for n in range(m + 1):
        s = st.copy()
        cs = tuple(sym(new_sym('char', 0, 255)) for _ in range(n))
        s.ghost[k] = (Lin(n), cs)
        out.append((s, Lin(n), cs))
    return out


def vsnprintf(eng, st, a, ins, name):
    buf, n, fmt, ap = a[0], a[1], a[2], a[3]
    k = vkey(st, ap)
    v = st.ghost.get(k)
    if not v or v[0] != 'live':
        eng.alarm(st, 'argument-lists-used-once', 'an argument list that is %s is formatted' % ('already used' if v and v[0] == 'used' else 'not live'))
        return []
    eng.ok('argument-lists-used-once')
    st.ghost[k] = ('used', v[1])
    bump(st, 'format')
    want = st.ghost.get('fmt')
    if want and (not isinstance(fmt, Ptr) or (fmt.r, st.n(fmt.off)) != (want[0], Lin(want[1]))):
        eng.alarm(st, 'formats-what-was-asked', 'another format is used')
    out = []
    f = st.copy()
    bump(f, 'format_failed')
    n = st.n(n)
    # failure: the buffer holds whatever was written so far
    if st.ghost.get('fmt_ok'):
        pass
    elif n == ZERO:
        out.append((f, Lin((1 << 32) - 1)))
    elif not n.t and n.c < 256:
        if eng.chkptr(f, buf, n, 'formatting') is not None:
            cur = [f]
            for i in range(n.c):
                cur = [y for x in cur for y in eng.store(x, eng.padd(buf, i), UNDEF, 1)]
            out += [(x, Lin((1 << 32) - 1)) for x in cur]
    else:
        out.append((f, Lin((1 << 32) - 1)))
    for s, L, cs in text_of(eng, st, v[1]):
        if n == ZERO:
            out.append((s, L))
            continue
        if cs is None or n.t:
            # characters not followed: the result fits, or is cut
            w = s.copy()
            for x, cnt in ((s, L + 1), (w, n)):
                if not (x.ge(n - L - 1) if x is s else x.ge(L - n)):
                    continue
                if eng.chkptr(x, buf, cnt, 'formatting') is None:
                    continue
                r = x.wr(buf.r)
                r.attr = dict(r.attr)
                r.attr['dirty'] = True
                if r.arr is None:
                    r.fill = 'sym'
                    r.cells = {}
                for y in ([x] if x is w and False else [x]):
                    out.append((y, L))
            continue
        m = min(len(cs), n.c - 1)
        if eng.chkptr(s, buf, m + 1, 'formatting') is None:
            continue
        cur = [s]
        for i in range(m + 1):
            cur = [y for x in cur for y in eng.store(x, eng.padd(buf, i), cs[i] if i < m else ZERO, 1)]
        out += [(x, L) for x in cur]
    return out


def text_len(eng, st, a, ins, name):
    return [(st, st.ghost[('text', 1)][0])] if ('text', 1) in st.ghost else [(st, ZERO)]


def text_char(eng, st, a, ins, name):
    return [(st, st.ghost[('text', 1)][1][st.n(a[0]).c])]


FMT_H = {'llvm.va_start': va_start, 'llvm.va_start.p0': va_start, 'llvm.va_copy': va_copy, 'llvm.va_copy.p0': va_copy, 'llvm.va_end': va_end, 'llvm.va_end.p0': va_end,
         'vsnprintf': vsnprintf, 'sa_va_clean': va_clean, 'sa_format': sa_format, 'sa_format_long': sa_format_long, 'sa_text_len': text_len, 'sa_text_char': text_char}


def fmt_real(eng, st, a, ins, name):
    """from here "%s" formats its argument"""
    st.ghost['fmt_real'] = 1
    st.ghost['fmt_max'] = 4
    if a and st.n(a[0]).c:
        st.ghost['fmt_ok'] = 1
    return [(st, None)]


def string_at(eng, st, p):
    """-> [(state, (characters))] of a terminated string"""
    out = []
    for s, L in models.h_strlen(eng, st, [p], None, 'strlen'):
        L = s.n(L)
        if L.t:
            eng.taint(s, 'text of unknown length')
            continue
        cs = []
        for i in range(L.c):
            r = eng.load(s, eng.padd(p, i), ('i', 8))
            cs.append(r[0][1])
        out.append((s, tuple(cs)))
    return out


def interpolate(eng, st, f, args):
    """-> [(state, characters)] of a format of plain text, %s, %d and %%"""
    if f is None:
        return None
    out = [(st, ())]
    i = n = 0
    while i < len(f):
        if f[i] != '%':
            out = [(s, c + (Lin(ord(f[i])),)) for s, c in out]
            i += 1
            continue
        m = re.match(r'(-?)(\d+|\*)?(?:\.(\d*|\*))?(?:l|ll|z|j)?([sduic%])', f[i + 1:])
        if not m:
            return None
        k, left, width, prec = m.group(4), m.group(1), m.group(2) or '0', m.group(3)
        i += 1 + m.end()
        if k == '%':
            out = [(s, c + (Lin(37),)) for s, c in out]
            continue
        vals = []
        for need in (width == '*', prec == '*', True):
            if not need:
                continue
            if n >= len(args):
                eng.alarm(st, 'formats-what-was-asked', 'fewer arguments than the format names')
                return []
            vals.append(args[n])
            n += 1
        v = vals.pop()
        nums = []
        for x in vals:
            if not isinstance(x, Lin) or st.n(x).t:
                return None
            x = st.n(x).c
            nums.append(x - ((x >= 1 << 31) << 32))
        width = nums.pop(0) if width == '*' else int(width)
        prec = nums.pop(0) if prec == '*' else None if prec is None else int(prec or 0)
        if width < 0:
            left, width = '-', -width
        if prec is not None and prec < 0:
            prec = None

        def pad(cs):
            sp = (Lin(32),) * (width - len(cs))
            return cs + sp if left else sp + cs
        if k == 's':
            out = [(s2, c + pad(cs if prec is None else cs[:prec])) for s, c in out for s2, cs in string_at(eng, s, v)]
        elif k == 'c' and isinstance(v, Lin):
            out = [(s, c + pad((v,))) for s, c in out]
        elif k in 'diu' and prec is None and isinstance(v, Lin) and not st.n(v).t:
            x = st.n(v).c
            if k != 'u':
                x -= (x >= 1 << 31) << 32
            out = [(s, c + pad(tuple(Lin(ord(d)) for d in str(x)))) for s, c in out]
        else:
            return None
    return out


_va_start0, _text_of0 = va_start, text_of


def va_start(eng, st, a, ins, name):
    r = _va_start0(eng, st, a, ins, name)
    args = st.ghost[('vaargs', st.ghost['va_count'])] = tuple(st.ghost.get('va', ()))
    # x86-64: every argument in the overflow area
    rid = eng.new_region(st, 'stack', 8 * len(args) + 8, name='variable arguments')
    cur = [st]
    for i, v in enumerate(args):
        cur = [y for x in cur for y in eng.store(x, Ptr(rid, Lin(8 * i)), v, 8)]
    for o, n, v in ((0, 4, Lin(48)), (4, 4, Lin(176)), (8, 8, Ptr(rid, ZERO))):
        cur = [y for x in cur for y in eng.store(x, eng.padd(a[0], o), v, n)]
    return [(x, None) for x in cur]


def text_of(eng, st, org):
    if st.ghost.get('fmt_real') and ('text', org) not in st.ghost:
        args = st.ghost.get(('vaargs', org), ())
        f = st.ghost.get('fmt_now')
        r = interpolate(eng, st, f, args)
        if r is not None:
            for s, cs in r:
                s.ghost[('text', org)] = (Lin(len(cs)), cs)
            return [(s, Lin(len(cs)), cs) for s, cs in r]
        eng.taint(st, 'format %r' % f)
    return _text_of0(eng, st, org)


_vsnprintf0 = vsnprintf


def vsnprintf(eng, st, a, ins, name):
    st.ghost['fmt_now'] = text_at(eng, st, a[2]) if isinstance(a[2], Ptr) else None
    return _vsnprintf0(eng, st, a, ins, name)


def formats(first):
    def f(eng, st, a, ins, name):
        n = st.ghost.get('va_count', 0) + 1
        st.ghost['va_count'] = n
        st.ghost[('vaargs', n)] = tuple(a[first + 1:])
        k = ('va', 'own', n)
        st.ghost[k] = ('live', n)
        p = Ptr('own', Lin(n))
        out = vsnprintf(eng, st, [a[0], a[1] if first == 2 else Lin(1 << 30), a[first], p], ins, name)
        for s, _ in out:
            s.ghost[k] = ('ended',)
        return out
    return f


FMT_H.update({'snprintf': formats(2), 'sprintf': formats(1)})
FMT_H.update({'llvm.va_start': va_start, 'llvm.va_start.p0': va_start, 'vsnprintf': vsnprintf, 'sa_format_real': fmt_real})


# ------------------------------------------------------------------ P: what is printed to a file
def put(eng, st, fp, cs):
    if not isinstance(fp, Ptr) or fp.r != st.ghost.get('file'):
        eng.alarm(st, 'prints-to-the-given-file', 'the text goes elsewhere')
        return
    st.ghost['out'] = st.ghost.get('out', ()) + tuple(cs)


def sa_file(eng, st, a, ins, name):
    rid = eng.new_region(st, 'stack', 8, name='the file')
    st.ghost['file'] = rid
    return [(st, Ptr(rid, ZERO))]


def fprintf(eng, st, a, ins, name):
    r = interpolate(eng, st, text_at(eng, st, a[1]) if isinstance(a[1], Ptr) else None, a[2:])
    if r is None:
        eng.taint(st, 'printed format')
        return [(st, Lin(0))]
    for s, cs in r:
        put(eng, s, a[0], cs)
    return [(s, Lin(len(cs))) for s, cs in r]


def fputs(eng, st, a, ins, name):
    out = []
    for s, cs in string_at(eng, st, a[0]):
        put(eng, s, a[1], cs)
        out.append((s, Lin(1)))
    return out


def fputc(eng, st, a, ins, name):
    put(eng, st, a[1], (a[0],))
    return [(st, a[0])]


def fwrite(eng, st, a, ins, name):
    n, m = st.n(a[1]), st.n(a[2])
    if n.t or m.t:
        eng.taint(st, 'fwrite of unknown size')
        return [(st, m)]
    if n.c * m.c and eng.chkptr(st, a[0], Lin(n.c * m.c), 'printing') is None:
        return []
    put(eng, st, a[3], [eng.load(st, eng.padd(a[0], i), ('i', 8))[0][1] for i in range(n.c * m.c)])
    return [(st, m)]


def out_clear(eng, st, a, ins, name):
    st.ghost['out'] = ()
    return [(st, None)]


def out_has(eng, st, a, ins, name):
    """position of a text in what was printed, plus one; 0 when absent"""
    res = []
    for s, w in string_at(eng, st, a[0]):
        w = [s.n(c) if isinstance(c, Lin) else c for c in w]
        cs = [s.n(c) if isinstance(c, Lin) else c for c in s.ghost.get('out', ())]
        at = 0
        for i in range(s.n(a[1]).c, len(cs) - len(w) + 1):
            if cs[i:i + len(w)] == w:
                at = i + 1
                break
        res.append((s, Lin(at)))
    return res


def out_line(eng, st, a, ins, name):
    """length of the longest line in what was printed"""
    m = n = 0
    for c in st.ghost.get('out', ()):
        c = st.n(c) if isinstance(c, Lin) else c
        n = 0 if c == Lin(10) else n + 1
        m = max(m, n)
    return [(st, Lin(m))]


def out_len(eng, st, a, ins, name):
    return [(st, Lin(len(st.ghost.get('out', ()))))]


def out_char(eng, st, a, ins, name):
    return [(st, st.ghost['out'][st.n(a[0]).c])]


OUT_H = {'sa_file': sa_file, 'fprintf': fprintf, 'fputs': fputs, 'fputc': fputc, 'putc': fputc, 'fwrite': fwrite, 'sa_out_clear': out_clear, 'sa_out_has': out_has, 'sa_out_longest_line': out_line,
         'sa_out_len': out_len, 'sa_out_char': out_char}

# ------------------------------------------------------------------ O01: shared libraries
def same_ptr(st, p, q):
    return isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r and st.n(p.off) == st.n(q.off)


def sa_expect_path(eng, st, a, ins, name):
    st.ghost['path'] = a[0]
    return [(st, None)]


def check_path(eng, st, p, what):
    w = st.ghost.get('path')
    if w is not None and not same_ptr(st, p, w):
        eng.alarm(st, 'passes-on-the-path', '%s is given something else than the caller\'s path' % what)
    else:
        eng.ok('passes-on-the-path')


def dlopen(eng, st, a, ins, name):
    bump(st, 'open')
    check_path(eng, st, a[0], 'dlopen')
    f = st.copy()
    bump(f, 'open_failed')
    f.ghost['dlerr'] = 1
    rid = eng.new_region(st, 'handle', 1, name='library handle')
    st.ghost['handles'] = st.ghost.get('handles', ()) + (rid,)
    return [(f, ZERO), (st, Ptr(rid, ZERO))]


def live_handle(eng, st, p, what):
    if not isinstance(p, Ptr) or p.r not in st.ghost.get('handles', ()):
        eng.alarm(st, 'handle-is-open', '%s of %s' % (what, 'a missing library' if isinstance(p, Lin) and st.n(p) == ZERO else 'a library that is not open'))
        return False
    eng.ok('handle-is-open')
    return True


def dlclose(eng, st, a, ins, name):
    if not live_handle(eng, st, a[0], 'closing'):
        return []
    bump(st, 'close')
    st.ghost['handles'] = tuple(h for h in st.ghost['handles'] if h != a[0].r)
    return [(st, ZERO)]


def dlsym(eng, st, a, ins, name):
    if not live_handle(eng, st, a[0], 'searching'):
        return []
    bump(st, 'lookup')
    check_path(eng, st, a[1], 'dlsym')
    f = st.copy()
    f.ghost['dlerr'] = 1
    rid = eng.new_region(st, 'sym', 1, name='library symbol')
    st.ghost['found'] = Ptr(rid, ZERO)
    return [(f, ZERO), (st, Ptr(rid, ZERO))]


def sa_found(eng, st, a, ins, name):
    return [(st, st.ghost.get('found', ZERO))]


def new_text(eng, st, maxlen, what):
    """-> [(state, pointer)] every terminated text of up to maxlen characters"""
    out = []
    exact = st.ghost.get('longtext')
    for n in (exact,) if exact else range(maxlen + 1):
        s = st.copy()
        rid = eng.new_region(s, 'sym', n + 1, name=what)
        s.ghost['systext'] = tuple(Lin(33 + i * 31 % 94) if exact else sym(new_sym('char', 1, 255)) for i in range(n))
        cur = [s]
        for i in range(n + 1):
            cur = [y for x in cur for y in eng.store(x, Ptr(rid, Lin(i)), s.ghost['systext'][i] if i < n else ZERO, 1)]
        out += [(x, Ptr(rid, ZERO)) for x in cur]
    return out


def sa_sys_long(eng, st, a, ins, name):
    """the text is exactly a[0] characters long"""
    st.ghost['longtext'] = st.n(a[0]).c
    return [(st, None)]


def dlerror(eng, st, a, ins, name):
    bump(st, 'dlerror')
    if not st.ghost.get('dlerr'):
        return [(st, ZERO)]
    st.ghost['dlerr'] = 0
    return new_text(eng, st, 3, 'error text')


def sys_len(eng, st, a, ins, name):
    return [(st, Lin(len(st.ghost.get('systext', ()))))]


def sys_char(eng, st, a, ins, name):
    return [(st, st.ghost['systext'][st.n(a[0]).c])]


SYS_H = {'sa_expect_path': sa_expect_path, 'sa_sys_long': sa_sys_long, 'sa_sys_len': sys_len, 'sa_sys_char': sys_char}
O01_H = {**FMT_H, **SYS_H, 'dlopen': dlopen, 'dlclose': dlclose, 'dlsym': dlsym, 'dlerror': dlerror, 'sa_found': sa_found}


# ------------------------------------------------------------------ O02: files
MODES = [k | p for k in (0o010000, 0o020000, 0o040000, 0o060000, 0o100000, 0o120000, 0o140000) for p in (0, 0o644, 0o7777)]


def xstat(fn):
    def f(eng, st, a, ins, name):
        a = a[1:] if name.startswith('__') else a
        bump(st, 'stat')
        check_path(eng, st, a[0], name)
        if eng.chkptr(st, a[1], 144, name) is None:
            return []
        z = st.copy()
        z.ghost['kind'] = -1
        out = [(z, Lin((1 << 32) - 1))]
        for m in MODES:
            s = st.copy()
            s.ghost['kind'] = m & 0o170000
            p = a[1]
            cur = [s]
            for o, n, v in ((0, 8, None), (8, 8, None), (16, 8, None), (24, 4, m), (28, 4, None), (32, 4, None), (40, 8, None), (48, 8, None)):
                cur = [y for x in cur for y in eng.store(x, eng.padd(p, o), Lin(v) if v is not None else sym(new_sym('st', 0, (1 << 8 * n) - 1)), n)]
            out += [(x, ZERO) for x in cur]
        return out
    return f


def sa_kind(eng, st, a, ins, name):
    return [(st, Lin(st.ghost.get('kind', -2) & 0xffffffff))]


def sa_expect_mode(eng, st, a, ins, name):
    st.ghost['mode'] = a[0]
    return [(st, None)]


def mkdir(eng, st, a, ins, name):
    bump(st, 'mkdir')
    check_path(eng, st, a[0], name)
    w = st.ghost.get('mode')
    if w is not None:
        if st.n(w) == st.n(a[1]):
            eng.ok('passes-on-the-mode')
        else:
            eng.alarm(st, 'passes-on-the-mode', 'mkdir is given another mode')
    z = st.copy()
    bump(st, 'made')
    return [(st, ZERO), (z, Lin((1 << 32) - 1))]


O02_H = {**SYS_H, 'stat': xstat('stat'), 'lstat': xstat('lstat'), '__xstat': xstat('stat'), '__lxstat': xstat('lstat'), 'sa_kind': sa_kind, 'sa_expect_mode': sa_expect_mode, 'mkdir': mkdir}


# ------------------------------------------------------------------ O04: error text
def strerror_r(eng, st, a, ins, name):
    """the GNU form: its own text, or text written to the buffer"""
    code, buf, n = a
    bump(st, 'strerror')
    st.ghost['code'] = code
    n = st.n(n)
    if n.t:
        eng.taint(st, 'strerror_r with unknown size')
        return []
    out = []
    if n.c:
        if eng.chkptr(st, buf, n, 'strerror_r') is None:
            return []
    for s, p in new_text(eng, st.copy(), 3, 'message'):
        out.append((s, p))
    for s, p in new_text(eng, st, 3, 'message'):
        cs = s.ghost['systext']
        if not n.c:
            out.append((s, buf))
            continue
        m = min(len(cs), n.c - 1)
        cur = [s]
        for i in range(m + 1):
            cur = [y for x in cur for y in eng.store(x, eng.padd(buf, i), cs[i] if i < m else ZERO, 1)]
        bump(cur[0], 'written')
        out += [(x, buf) for x in cur]
    return out


def sa_code(eng, st, a, ins, name):
    return [(st, st.ghost.get('code', ZERO))]


O04_H = {**FMT_H, **SYS_H, 'strerror_r': strerror_r, '__xpg_strerror_r': None, 'sa_code': sa_code}
