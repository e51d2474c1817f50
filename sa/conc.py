"""Shared-memory rules: atomic steps of other threads are accounted for by giving every read of a shared
atomic word an arbitrary admissible value, and by taking objects away the moment we stop owning a reference."""
from lin import *
from engine import Ptr, UNDEF, Agg
import models
from models import bump, cstr

ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')


# ------------------------------------------------------------------ R03: shared counts
def sa_share(eng, st, a, ins, name):
    """from here other threads hold references too; we hold a[1] of them"""
    p = a[0]
    r = st.wr(p.r)
    r.attr = dict(r.attr)
    r.attr['shared'] = True
    st.ghost[('ours', p.r)] = st.n(a[1]).c
    st.ghost['rmw'] = 0
    st.ghost['fence'] = ()
    return [(st, None)]


def shared(st, p):
    return isinstance(p, Ptr) and p.r in st.mem and st.mem[p.r].attr.get('shared')


def sa_ours(eng, st, a, ins, name):
    p = a[0]
    return [(st, Lin(st.ghost.get(('ours', p.r), 0) if isinstance(p, Ptr) else 0))]


def c_load(eng, st, p, ty, order, ins):
    if not shared(st, p):
        return [(x, v) for x, v in eng.load(st, p, ty)]
    if eng.chkptr(st, p, eng.m.size(ty), 'read') is None:
        return []
    k = max(1, st.ghost[('ours', p.r)])
    return [(st, sym(new_sym('count', k, 1 << 62)))]


def c_store(eng, st, p, v, ty, order, ins):
    if shared(st, p):
        eng.alarm(st, 'count-changes-only-by-atomic-step', 'the shared count is overwritten by a plain atomic store')
        return []
    return [(x, None) for x in eng.store(st, p, v, eng.m.size(ty))]


def on_store(eng, st, p, v, ins):
    if shared(st, p):
        eng.alarm(st, 'no-unsynchronised-write', 'a shared object is written without synchronisation')


def step(eng, st, p, old, delta, order):
    """the count of a shared object went old -> old+delta"""
    rid = p.r
    if delta not in (1, -1):
        eng.alarm(st, 'count-changes-by-one', 'an atomic step changes the count by %s' % delta)
        return []
    eng.ok('count-changes-by-one')
    st.ghost['rmw'] += 1
    st.ghost['ev:rmw'] = st.ghost.get('ev:rmw', 0) + 1
    if delta == 1:
        st.ghost[('ours', rid)] += 1
        return [st]
    ours = st.ghost[('ours', rid)]
    if ours < 1:
        eng.alarm(st, 'count-changes-by-one', 'a reference that is not held is dropped')
        return []
    st.ghost[('ours', rid)] = ours - 1
    if order not in REL and 'rel' not in st.ghost['fence']:
        eng.alarm(st, 'release-ordering', 'the dropping step has %s ordering: uses of the object may move past it' % order)
    else:
        eng.ok('release-ordering')
    out = []
    z = st.copy()
    if ours == 1 and z.eq(old - 1):
        r = z.wr(rid)
        r.attr = dict(r.attr)
        r.attr.pop('shared')
        r.attr['acq'] = order in ACQ
        r.cells = dict(r.cells)
        off = z.n(p.off)
        eng.write_cells(z, r.cells, off.c, 8, ZERO)
        z.ghost['ev:last'] = z.ghost.get('ev:last', 0) + 1
        out.append(z)
    if st.ge(old - 2):
        if ours == 1:
            # the other holders may destroy it at any moment
            del st.mem[rid]
        out.append(st)
    return out


def c_rmw(eng, st, p, v, w, order, ins):
    if not shared(st, p):
        opts = eng.opts
        h = opts.pop('atomicrmw')
        try:
            return eng.atomicrmw(st, ins)
        finally:
            opts['atomicrmw'] = h
    n = eng.m.size(ins.ty)
    if eng.chkptr(st, p, n, 'atomic update') is None:
        return []
    bits = 8 * n
    k = st.ghost[('ours', p.r)]
    if w not in ('add', 'sub') or not isinstance(v, Lin) or st.n(v).t:
        eng.alarm(st, 'count-changes-by-one', 'an atomic step replaces the count instead of counting (%s)' % w)
        return []
    c = st.n(v).c
    if c >= 1 << (bits - 1):
        c -= 1 << bits
    old = sym(new_sym('count', max(k, 1), 1 << 62))
    return [(s, s.n(old)) for s in step(eng, st, p, old, c if w == 'add' else -c, order)]


def c_cas(eng, st, p, c, v, ins):
    if not shared(st, p):
        opts = eng.opts
        h = opts.pop('cmpxchg')
        try:
            return eng.cmpxchg(st, ins)
        finally:
            opts['cmpxchg'] = h
    n = eng.m.size(ins.ty)
    if eng.chkptr(st, p, n, 'atomic update') is None:
        return []
    k = max(1, st.ghost[('ours', p.r)])
    out = []
    f = st.copy()
    out.append((f, Agg([sym(new_sym('count', k, 1 << 62)), ZERO])))
    if isinstance(c, Lin) and isinstance(v, Lin):
        d = st.n(v - c)
        if st.ge(c - k):
            if d.t:
                eng.alarm(st, 'count-changes-by-one', 'the count is replaced by an unrelated value')
            else:
                out += [(s, Agg([s.n(c), ONE])) for s in step(eng, st, p, c, d.c, ins.extra[1][0])]
    return out


def c_fence(eng, st, ins):
    o = str(ins.extra) + str(ins.a)
    f = st.ghost.get('fence', ())
    if any(x in o for x in ('release', 'acq_rel', 'seq_cst')):
        f += ('rel',)
    st.ghost['fence'] = f
    if any(x in o for x in ('acquire', 'acq_rel', 'seq_cst')):
        for rid, r in list(st.mem.items()):
            if 'acq' in r.attr:
                r = st.wr(rid)
                r.attr = dict(r.attr)
                r.attr['acq'] = True


def c_free(eng, st, a, ins, name):
    p = a[0]
    if isinstance(p, Ptr) and p.r in st.mem:
        at = st.mem[p.r].attr
        if at.get('shared'):
            eng.alarm(st, 'destroyed-by-last-release', 'the object is destroyed although the atomic step did not show it was the last reference')
            return []
        if 'acq' in at:
            if not at['acq']:
                eng.alarm(st, 'acquire-before-destroy', 'the object is destroyed without acquiring what other threads did to it')
            else:
                eng.ok('acquire-before-destroy')
    return models.free(('heap-new',))(eng, st, a, ins, name)


R03_OPTS = {'atomic_load': c_load, 'atomic_store': c_store, 'on_store': on_store, 'atomicrmw': c_rmw, 'cmpxchg': c_cas, 'fence': c_fence}
R03_H = {'sa_share': sa_share, 'sa_ours': sa_ours, '_ZdlPv': c_free, '_ZdlPvm': c_free}


# ------------------------------------------------------------------ R04: the tagged slot
# ghost: slot=(rid), held = None | value Lin/Ptr (untagged content), ours[rid]
def sa_slot(eng, st, a, ins, name):
    """the word becomes shared; it holds null, one of two unknown objects, or the object a[1]"""
    p = a[0]
    st.ghost['slot'] = p.r
    st.ghost['held'] = None
    if 'X' not in st.ghost:
        for k in 'XY':
            rid = eng.new_region(st, 'sym', 4, fill='sym', name='object in the slot', align=16)
            del st.mem[rid]
            st.ghost[k] = rid
            st.ghost[('ours', rid)] = 0
    st.ghost['other'] = a[1].r if isinstance(a[1], Ptr) else None
    return [(st, None)]


def sa_owned(eng, st, a, ins, name):
    """a counted object we hold a[0] references to"""
    k = st.n(a[0]).c
    rid = eng.new_region(st, 'sym', 4, fill='sym', name='counted object', align=16)
    st.ghost[('ours', rid)] = k
    return [(st, Ptr(rid, ZERO))]


def owned_addref(eng, st, a, ins, name):
    p = a[0]
    if not models.rid_live(eng, st, p, 'AddRef'):
        return []
    if st.ghost.get('held') is not None:
        need_acq(eng, st)
    st.ghost['rel'] = False
    st.ghost[('ours', p.r)] = st.ghost[('ours', p.r)] + 1
    return [(st, None)]


def owned_release(eng, st, a, ins, name):
    p = a[0]
    if not models.rid_live(eng, st, p, 'Release'):
        return []
    if st.ghost.get('held') is not None:
        eng.alarm(st, 'no-release-while-held', 'a reference is dropped (running arbitrary destructors) while the slot is held')
    else:
        eng.ok('no-release-while-held')
    k = st.ghost[('ours', p.r)] - 1
    if k < 0:
        eng.alarm(st, 'reference-owned', 'a reference that is not owned is dropped')
        return []
    st.ghost[('ours', p.r)] = k
    if k == 0:
        del st.mem[p.r]
    return [(st, None)]


def isslot(st, p):
    return isinstance(p, Ptr) and p.r == st.ghost.get('slot') and st.ghost.get('slot') is not None


def contents(st, tags=(0, 1)):
    v = [None, st.ghost['X'], st.ghost['Y']]
    if st.ghost['other'] is not None:
        v.append(st.ghost['other'])
    for x in v:
        for t in tags:
            yield x, t


def word(x, t):
    return Lin(t) if x is None else Ptr(x, Lin(t))


def asword(eng, st, v):
    """value -> (rid or None, tag) or None"""
    if isinstance(v, Lin):
        v = st.n(v)
        if not v.t:
            return (None, v.c) if v.c in (0, 1) else None
        r = eng.rid_of_addr(v)
        if r is None:
            return None
        rid, off = r
    elif isinstance(v, Ptr):
        rid, off = v.r, st.n(v.off)
    else:
        return None
    off = st.n(off)
    if off.t or off.c not in (0, 1):
        return None
    return (rid, off.c)


def cast_to(eng, st, v, ty):
    if ty[0] == 'i' and isinstance(v, Ptr):
        return eng.addr_sym(st, v.r) + v.off
    return v


def s_read(eng, st, ty):
    """arbitrary admissible content of the slot"""
    held = st.ghost['held']
    if held is not None:
        return [(st, cast_to(eng, st, word(held[0], 1), ty))]
    out = []
    for x, t in contents(st):
        s = st.copy()
        out.append((s, cast_to(eng, s, word(x, t), ty)))
    return out


def s_load(eng, st, p, ty, order, ins):
    if not isslot(st, p):
        return eng.load(st, p, ty)
    return s_read(eng, st, ty)


def s_take(eng, st, x, order):
    st.ghost['acq'] = None if order in ACQ else order
    st.ghost['rel'] = False
    st.ghost['held'] = (x,)
    st.ghost['ev:take'] = st.ghost.get('ev:take', 0) + 1
    if x is not None:
        if x not in st.mem:
            rr = models.Region('sym', Lin(4), fill='sym', name='object in the slot')
            st.mem[x] = rr
            st.own.add(x)
        st.ghost[('ours', x)] = st.ghost[('ours', x)] + 1      # the slot's reference is ours to pass on


def need_acq(eng, st):
    o = st.ghost.get('acq')
    if o:
        eng.alarm(st, 'acquire-ordering', 'the slot is taken with %s ordering' % o)
        st.ghost['acq'] = None
    else:
        eng.ok('acquire-ordering')


def s_fence(eng, st, ins):
    if st.ghost.get('held') is not None:
        if any(x in ACQ for x in ins.extra):
            st.ghost['acq'] = None
        if any(x in REL for x in ins.extra):
            st.ghost['rel'] = True


def s_give(eng, st, v, order):
    w = asword(eng, st, v)
    if w is None:
        eng.alarm(st, 'slot-content', 'the slot is given back with an unrecognised value')
        return []
    x, t = w
    if t:
        eng.alarm(st, 'slot-content', 'the slot is left marked')
        return []
    need_acq(eng, st)
    if order not in REL and not st.ghost.get('rel'):
        eng.alarm(st, 'release-ordering', 'the slot is given back with %s ordering' % order)
    else:
        eng.ok('release-ordering')
    st.ghost['held'] = None
    st.ghost['ev:give'] = st.ghost.get('ev:give', 0) + 1
    if x is not None:
        k = st.ghost.get(('ours', x), 0) - 1
        if k < 0 or x not in st.mem:
            eng.alarm(st, 'retained-before-visible', 'the slot publishes an object without a reference of its own')
            return []
        eng.ok('retained-before-visible')
        st.ghost[('ours', x)] = k
        if k == 0:
            del st.mem[x]
    eng.ok('slot-content')
    return [st]


def s_store(eng, st, p, v, ty, order, ins):
    if not isslot(st, p):
        return [(x, None) for x in eng.store(st, p, v, eng.m.size(ty))]
    if st.ghost['held'] is None:
        eng.alarm(st, 'exclusive-access', 'the slot is written while it is not held')
        return []
    eng.ok('exclusive-access')
    return [(s, None) for s in s_give(eng, st, v, order)]


def s_plain(eng, st, p, v, ins):
    if isslot(st, p):
        eng.alarm(st, 'exclusive-access', 'the slot is written non-atomically')


def s_cas(eng, st, p, c, v, ins):
    if not isslot(st, p):
        opts = eng.opts
        h = opts.pop('cmpxchg')
        try:
            return eng.cmpxchg(st, ins)
        finally:
            opts['cmpxchg'] = h
    out = []
    ce, ve = asword(eng, st, c), asword(eng, st, v)
    if st.ghost['held'] is not None:
        if ce == (st.ghost['held'][0], 1):
            if ins.extra[0]:
                z = st.copy()
                out.append((z, Agg([cast_to(eng, z, word(*ce), ins.ty), ZERO])))
            out += [(s, Agg([cast_to(eng, s, word(*ce), ins.ty), ONE])) for s in s_give(eng, st, v, ins.extra[1][0])]
        else:
            eng.alarm(st, 'exclusive-access', 'compare-exchange on a slot that is already held here: never succeeds')
        return out
    if ce is None or ve is None:
        eng.taint(st, 'compare-exchange with unrecognised values')
        return [(s, Agg([x, ZERO])) for s, x in s_read(eng, st, ins.ty)]
    for x, t in contents(st):
        s = st.copy()
        if (x, t) != ce or ins.extra[0]:
            out.append((s, Agg([cast_to(eng, s, word(x, t), ins.ty), ZERO])))
    if ce in list(contents(st)):
        if ce[1]:
            eng.alarm(st, 'exclusive-access', 'the slot is taken although somebody else holds it')
        elif ve != (ce[0], 1):
            eng.alarm(st, 'exclusive-access', 'the slot is changed without being held')
        else:
            eng.ok('exclusive-access')
            s_take(eng, st, ce[0], ins.extra[1][0])
            out.append((st, Agg([cast_to(eng, st, word(*ce), ins.ty), ONE])))
    return out


def s_rmw(eng, st, p, v, w, order, ins):
    if not isslot(st, p):
        opts = eng.opts
        h = opts.pop('atomicrmw')
        try:
            return eng.atomicrmw(st, ins)
        finally:
            opts['atomicrmw'] = h
    held = st.ghost['held']
    if held is not None:
        old = cast_to(eng, st, word(held[0], 1), ins.ty)
        if w == 'xchg':
            return [(s, old) for s in s_give(eng, st, v, order)]
        if w == 'sub' and v == ONE or w == 'and' and isinstance(v, Lin) and v.c == (1 << 64) - 2:
            return [(s, old) for s in s_give(eng, st, word(held[0], 0), order)]
        if w == 'or' and v == ONE:
            return [(st, old)]
        eng.alarm(st, 'slot-content', 'atomic %s on the held slot' % w)
        return []
    if w == 'or' and v == ONE:
        out = []
        for x, t in contents(st):
            s = st.copy()
            if not t:
                s_take(eng, s, x, order)
            out.append((s, cast_to(eng, s, word(x, t), ins.ty)))
        return out
    eng.alarm(st, 'exclusive-access', 'the slot is changed by an atomic %s while it is not held' % w)
    return []


def sa_held(eng, st, a, ins, name):
    return [(st, ONE if st.ghost.get('held') is not None else ZERO)]


R04_OPTS = {'atomic_load': s_load, 'atomic_store': s_store, 'on_store': s_plain, 'atomicrmw': s_rmw, 'cmpxchg': s_cas, 'fence': s_fence, 'UNROLL': 2}
R04_H = {'sa_slot': sa_slot, 'sa_owned': sa_owned, 'sa_ours': sa_ours, 'sa_held': sa_held,
         '_ZN7Counted6AddRefEv': owned_addref, '_ZN7Counted7ReleaseEv': owned_release, 'sched_yield': models.bound_result(0, 0)}
