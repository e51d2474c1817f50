"""Allocator policies with identity."""
from lin import *
from engine import Ptr, UNDEF, Obj
import models
from models import bump


def pol_malloc(eng, st, a, ins, name):
    ident, n = st.n(a[0]), st.n(a[1])
    if st.ghost.get('pending_overflow'):
        pass
    z = st.copy()
    out = []
    if not st.ghost.get('malloc_ok'):
        bump(z, 'alloc-failed')
        out.append((z, ZERO))
    if st.ge(Lin(1 << 46) - n):
        rid = eng.new_region(st, 'heap-pol', n, name='policy block of %r bytes' % n)
        st.mem[rid].attr = {'owner': ident}
        st.ghost['pol_last'] = ident
        wit(eng, st, rid)
        bump(st, 'alloc')
        out.append((st, Ptr(rid, ZERO)))
    return out


def wit(eng, st, rid):
    w = st.ghost.get('wit')
    if w is not None:
        r = st.wr(rid)
        if r.size.t or r.size.c >= w[1]:
            r.arr = (w[1], w[0], {})


def pol_free(eng, st, a, ins, name):
    p = a[1]
    if isinstance(p, Ptr) and p.r in st.mem:
        own = st.mem[p.r].attr.get('owner')
        if own is None:
            eng.alarm(st, 'policy-owns-memory', 'memory that did not come from the policy is passed to it')
            return []
        if not st.cons.entails_eq(own - st.n(a[0])):
            eng.alarm(st, 'policy-owns-memory', 'memory is returned to a different policy object')
            return []
        eng.ok('policy-owns-memory')
    return models.free(('heap-pol',))(eng, st, [p], ins, name)


def sa_witness(eng, st, a, ins, name):
    models.rigid(st, a[0])
    st.ghost['wit'] = (st.n(a[0]), st.n(a[1]).c)
    return [(st, None)]


def ev(n):
    def f(eng, st, a, ins, name):
        bump(st, n)
        return [(st, None)]
    return f


def wmalloc(kind, mayfail):
    base = models.alloc(kind, mayfail)

    def f(eng, st, a, ins, name):
        out = base(eng, st, a, ins, name)
        for s, v in out:
            if isinstance(v, Ptr):
                wit(eng, s, v.r)
        return out
    return f


def wcalloc(eng, st, a, ins, name):
    out = models.calloc(eng, st, a, ins, name)
    for s, v in out:
        if isinstance(v, Ptr):
            wit(eng, s, v.r)
    return out


def payload_is_hash(eng, st, rid, d):
    """payload of an untracked live slot: its token equals the hash stored beside it"""
    if not isinstance(d, tuple):
        return Obj('Obj', 'live', sym(new_sym('tok', 0, 1 << 62)))
    r = st.mem[rid]
    for mi, mo, mn, mv in r.attr.get('lastv', ()):
        if mo == 0 and mn == 4 and mi == d[0]:
            return Obj('Obj', 'live', mv)
    h = sym(new_sym('hash', 2, (1 << 32) - 1))
    r = st.wr(rid)
    r.attr = dict(r.attr)
    r.attr['lastv'] = r.attr.get('lastv', ())[-3:] + ((d[0], 0, 4, h),)
    return Obj('Obj', 'live', h)


def sa_selfhash(eng, st, a, ins, name):
    r = st.wr(a[0].r)
    r.attr = dict(r.attr)
    r.attr['objgen'] = payload_is_hash
    return [(st, None)]


def sa_lastowner(eng, st, a, ins, name):
    return [(st, st.ghost.get('pol_last', Lin(0)))]


H = {'sa_lastowner': sa_lastowner, 'sa_selfhash': sa_selfhash, 'pol_malloc': pol_malloc, 'pol_free': pol_free, 'sa_witness': sa_witness, 'ev_oom': ev('oom'), 'ev_overflow': ev('overflow'),
     'malloc': wmalloc('heap-malloc', True), 'calloc': wcalloc, '_Znwm': wmalloc('heap-new', False), '_Znam': wmalloc('heap-new[]', False),
     'fprintf': models.bound_result(0, 100), 'fwrite': models.bound_result(0, 100), 'fputs': models.bound_result(0, 0)}
