"""Abstract interpreter for the IR subset of ir.py.

Domain: finite sets (powerset completion) of abstract states; a state pairs a discrete part
(typestate of every region and payload object, pointer targets, event ghosts) with a convex
polyhedron over the integer slots.  Transfer functions follow the IR; states meeting at a
block are merged when one covers the other, loop heads are generalised and widened, so every
loop reaches a fixpoint.  Nothing is executed and no solver is asked.

Every obligation (pointer validity, bounds, typestate, harness assertion) is counted with
the source line it belongs to.  An obligation that is refuted in a state that never went
through a generalisation or an unmodelled operation is a violation; refuted only in
generalised states it is 'undecided'.
"""
import sys
from lin import *
from lin import stats as lstats
import ir as IR

sys.setrecursionlimit(20000)


class Ptr:
    __slots__ = ('r', 'off')

    def __init__(self, r, off):
        self.r = r
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.r == self.r and o.off == self.off

    def __hash__(self):
        return hash((self.r, self.off))

    def __repr__(self):
        return '&R%s+%r' % (self.r, self.off)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'fn:' + self.name


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Agg) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'agg%r' % (self.v,)


class Obj:
    """payload object cell. st: 'live' | 'moved'"""
    __slots__ = ('cls', 'st', 'tok')

    def __init__(self, cls, st, tok):
        self.cls = cls
        self.st = st
        self.tok = tok

    def __eq__(self, o):
        return isinstance(o, Obj) and (o.cls, o.st, o.tok) == (self.cls, self.st, self.tok)

    def __hash__(self):
        return hash((self.cls, self.st, self.tok))

    def __repr__(self):
        return '%s<%s,%r>' % (self.cls, self.st, self.tok)


class Term:
    """opaque non-integer value (floats), identified by a key"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Term) and o.k == self.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'term%r' % (self.k,)


MEMORY_ORDER = {'global': 0, 'heap': 2, 'stack': 3}


class Region:
    __slots__ = ('kind', 'size', 'cells', 'fill', 'arr', 'align', 'name', 'gen', 'ro', 'attr')

    def __init__(self, kind, size, fill='undef', align=16, name='', ro=False):
        self.kind = kind          # stack heap-malloc heap-new heap-new[] global sym
        self.size = size          # Lin
        self.cells = {}           # const off -> (size, value)
        self.fill = fill          # undef | zero | sym
        self.arr = None           # None | (stride, k Lin, wcells {off:(size,val)})
        self.align = align
        self.name = name
        self.gen = None           # generator for non-witness elements
        self.ro = ro
        self.attr = {}

    def copy(self):
        r = Region.__new__(Region)
        r.kind = self.kind
        r.size = self.size
        r.cells = dict(self.cells)
        r.fill = self.fill
        r.arr = None if self.arr is None else (self.arr[0], self.arr[1], dict(self.arr[2]))
        r.align = self.align
        r.name = self.name
        r.gen = self.gen
        r.ro = self.ro
        r.attr = self.attr
        return r


class State:
    __slots__ = ('env', 'mem', 'cons', 'ghost', 'lossy', 'trace', 'part', 'own')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.cons = Cons()
        self.ghost = {}
        self.lossy = None
        self.trace = None
        self.part = {}
        self.own = set()

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.cons = self.cons
        s.ghost = dict(self.ghost)
        s.lossy = self.lossy
        s.trace = self.trace
        s.part = dict(self.part)
        s.own = set()
        self.own = set()
        return s

    def wr(self, rid):
        """region for writing"""
        if rid not in self.own:
            self.mem[rid] = self.mem[rid].copy()
            self.own.add(rid)
        return self.mem[rid]

    # constraint helpers: return True if still possible (in place)
    def ge(self, l):
        c = self.cons.add_ge(l)
        if c is None:
            return False
        self.cons = c
        return True

    def eq(self, l):
        c = self.cons.add_eq(l)
        if c is None:
            return False
        self.cons = c
        return True

    def n(self, v):
        if isinstance(v, Lin):
            return self.cons.norm(v)
        if isinstance(v, Ptr):
            o = self.cons.norm(v.off)
            return v if o is v.off else Ptr(v.r, o)
        return v


class Stop(Exception):
    pass


def fvalue(k):
    """the number a floating-point constant stands for, or None"""
    import struct
    if isinstance(k, tuple) and len(k) == 3 and k[0] == 'f' and isinstance(k[2], int) and k[1] in (32, 64):
        return struct.unpack('<f', struct.pack('<I', k[2]))[0] if k[1] == 32 else struct.unpack('<d', struct.pack('<Q', k[2]))[0]
    return None


class Engine:
    UNROLL = 3
    MAXVISIT = 40
    MAXSTATES = 4000

    def __init__(self, mod, handlers, opts=None):
        self.m = mod
        self.h = handlers            # demangled-name resolver: fn(engine, name) -> handler or None
        self.opts = opts or {}
        self.next_r = 1
        self.next_part = 1
        self.rname = {}
        self.globals = {}
        self.memo = {}
        self.loopsyms = set()
        self.partsym = {}
        self.partcons = {}
        self.alarms = {}             # key -> dict
        self.oblig = {}              # (rule, loc) -> [checked, failed]
        self.reached = set()
        self.stack = []              # call chain [(fn, callsite loc)]
        self.funcs_seen = {}
        self.unmodelled = {}
        self.cur = None
        self.nstates = 0
        self.njoins = 0
        self.hcache = {}
        self.events = []
        self.deadline = None
        self.notes = []
        self.addr = {}
        self.bf = {}

    # ---------------------------------------------------------------- reporting
    def loc(self, ins=None):
        ins = ins or self.cur
        if ins is None or ins.dbg is None:
            return ('?', 0)
        r = self.m.loc(ins.dbg)
        return r or ('?', 0)

    def best_loc(self):
        """innermost frame located in the code under analysis"""
        l = self.loc()
        if self.opts.get('root') and l[0] and l[0].startswith(self.opts['root']):
            return l
        for fn, cl in reversed(self.stack):
            if cl and cl[0] and cl[0].startswith(self.opts.get('root', '/')):
                return cl
        return l

    def alarm(self, st, rule, msg):
        l = self.best_loc()
        key = (rule, l)
        chain = [f for f, _ in self.stack]
        lossy = st.lossy
        o = self.oblig.setdefault(key, [0, 0])
        o[0] += 1
        o[1] += 1
        a = self.alarms.get(key)
        if a is None or (a['lossy'] and not lossy):
            tr = []
            t = st.trace
            while t is not None and len(tr) < 400:
                tr.append(t[1])
                t = t[0]
            self.alarms[key] = {'rule': rule, 'loc': l, 'msg': msg, 'chain': chain, 'lossy': lossy, 'trace': tr[::-1], 'cons': st.cons.show()[:30]}

    def ok(self, rule):
        key = (rule, self.best_loc())
        o = self.oblig.setdefault(key, [0, 0])
        o[0] += 1

    def taint(self, st, why):
        if st.lossy is None:
            st.lossy = why
        self.unmodelled[why] = self.unmodelled.get(why, 0) + 1

    # ---------------------------------------------------------------- regions
    def new_region(self, st, kind, size, **kw):
        rid = self.next_r
        self.next_r += 1
        r = Region(kind, size if isinstance(size, Lin) else Lin(size), **kw)
        st.mem[rid] = r
        st.own.add(rid)
        self.rname[rid] = r.name or kind
        return rid

    def addr_sym(self, st, rid):
        """address of a region as an integer: align*s, non-zero"""
        a = self.addr.get(rid)
        if a is None:
            al = st.mem[rid].align if rid in st.mem else 16
            s = new_sym('addr%d' % rid, 1, (2**47) // al)
            a = (al, s)
            self.addr[rid] = a
        return Lin(0, ((a[1], a[0]),))

    def rid_of_addr(self, lin):
        for s, k in lin.t:
            for rid, (al, ss) in self.addr.items():
                if ss == s and k == al:
                    return rid, lin - Lin(0, ((s, k),))
        return None

    def fsym(self, st, key, lins, make):
        """the symbol standing for a function of `lins`; symbols that a loop generalisation renames must not keep their results"""
        if not any(x in self.loopsyms for l in lins for x, _ in l.t):
            q = self.memo.get(key)
            if q is None:
                q = self.memo[key] = make()
            return q
        d = st.ghost.get('fnm') or {}
        q = d.get(key)
        if q is None:
            q = make()
            st.ghost['fnm'] = {**d, key: q}
            self.loopsyms.update(q if isinstance(q, tuple) else (q,))
        return q

    def fresh(self, name, w):
        return sym(new_sym(name, 0, (1 << w) - 1))

    # ---------------------------------------------------------------- integer helpers
    # every helper returns a list of (state, value); the first may reuse `st`
    def fit(self, st, l, w):
        M = 1 << w
        l = st.cons.norm(l)
        if not l.t:
            return [(st, Lin(l.c % M))]
        lo, hi = st.cons.interval(l)
        if lo is not None and hi is not None and lo >= 0 and hi < M:
            return [(st, l)]
        lo, hi = st.cons.bounds(l)
        if lo is not None and hi is not None and lo >= 0 and hi < M:
            return [(st, l)]
        if lo is not None and hi is not None:
            if hi < lo:
                return []
            k0 = lo // M
            k1 = hi // M
            if self.opts.get('wrapany', 0) > w:
                return [(st, self.fresh('wrapped', w))]      # a value of this width, no more is known
            if k1 - k0 <= 3:
                out = []
                for k in range(k0, k1 + 1):
                    s = st.copy()
                    v = l - k * M
                    if s.ge(v) and s.ge(Lin(M - 1) - v):
                        out.append((s, s.cons.norm(v)))
                return out
        key = ('fit', l, w)
        q = self.fsym(st, key, (l,), lambda: new_sym('wrap'))
        v = l - Lin(0, ((q, M),))
        if (lo is None or st.ge(sym(q) - lo // M)) and (hi is None or st.ge(Lin(hi // M) - sym(q))) and st.ge(v) and st.ge(Lin(M - 1) - v):
            return [(st, st.cons.norm(v))]
        return []

    def signed(self, st, l, w):
        H = 1 << (w - 1)
        l = st.cons.norm(l)
        if not l.t:
            return [(st, Lin(l.c if l.c < H else l.c - 2 * H))]
        if st.cons.entails_ge(Lin(H - 1) - l):
            return [(st, l)]
        if st.cons.entails_ge(l - H):
            return [(st, l - 2 * H)]
        a = st
        b = st.copy()
        out = []
        if a.ge(Lin(H - 1) - l):
            out.append((a, a.cons.norm(l)))
        if b.ge(l - H):
            out.append((b, b.cons.norm(l - 2 * H)))
        return out

    def split(self, st, l, c):
        """l = c*q + r, 0<=r<c -> (state, q, r) or None; exact"""
        l = st.cons.norm(l)
        if c == 1:
            return (st, l, ZERO)
        if not l.t:
            return (st, Lin(l.c // c), Lin(l.c % c))
        hi = Lin(l.c // c * c, tuple((s, k) for s, k in l.t if k % c == 0))
        lo = l - hi
        if not lo.t:
            return (st, hi.divexact(c), lo)
        if lo.content() % c == 0:
            pass
        a, b = st.cons.interval(lo)
        if a is None or b is None or a < 0 or b >= c:
            # also split big coefficients c*m + rest
            a, b = st.cons.bounds(lo)
        if a is not None and b is not None:
            q0 = a // c
            if b // c == q0:
                return (st, hi.divexact(c) + q0, lo - q0 * c)
        key = ('div', l, c)
        q = self.fsym(st, key, (l,), lambda: new_sym('q'))
        a, b = st.cons.interval(l)
        Q = sym(q)
        if a is not None and not st.ge(Q - a // c) or b is not None and not st.ge(Lin(b // c) - Q):
            return None
        r = l - Q.scale(c)
        if not (st.ge(r) and st.ge(Lin(c - 1) - r)):
            return None
        return (st, st.cons.norm(Q), st.cons.norm(r))

    def mulnc(self, st, a, b):
        """full (unwrapped) product of two non-negative non-constant values"""
        if a.t > b.t or (a.t == b.t and a.c > b.c):
            a, b = b, a
        key = ('mul', a, b)
        la, ha = st.cons.bounds(a)
        lb, hb = st.cons.bounds(b)
        p = self.fsym(st, key, (a, b), lambda: new_sym('prod', 0, None))
        P = sym(p)
        ok = True
        if la is not None and lb is not None:
            ok = ok and st.ge(P - b.scale(la) - a.scale(lb) + la * lb)
        if ha is not None and hb is not None and ok:
            ok = ok and st.ge(P - b.scale(ha) - a.scale(hb) + ha * hb)
            ok = ok and st.ge(Lin(ha * hb) - P)
        if ha is not None and lb is not None and ok:
            ok = ok and st.ge(b.scale(ha) + a.scale(lb) - ha * lb - P)
        if la is not None and hb is not None and ok:
            ok = ok and st.ge(b.scale(la) + a.scale(hb) - la * hb - P)
        facts = st.ghost.get('prods', ())
        if (p, a, b) not in facts:
            st.ghost['prods'] = facts + ((p, a, b),)
        # divisions already taken of a wrapped product
        return (st, st.cons.norm(P)) if ok else None

    def udivmod(self, st, a, b):
        """-> list of (st, q, r); caller has checked b != 0"""
        a = st.cons.norm(a)
        b = st.cons.norm(b)
        if not b.t:
            r = self.split(st, a, b.c)
            return [r] if r else []
        key = ('udiv', a, b)
        m = self.fsym(st, key, (a, b), lambda: (new_sym('quot', 0, None), new_sym('rem', 0, None)))
        q, r = sym(m[0]), sym(m[1])
        if not st.ge(a - q):
            return []
        if not st.ge(b - r - 1):
            return []
        if not st.ge(a - r):
            return []
        if not a.t:
            # constant dividend: q*b <= a  with q,b >= 1 or q == 0
            pass
        P = self.mulnc(st, st.cons.norm(q), b)
        if P is None:
            return []
        st, p = P
        if not st.eq(p + r - a):
            return []
        # record MAX/b style divisions so that products with b can be related to them
        f = st.ghost.get('divs', ())
        st.ghost['divs'] = f + ((a, b, m[0]),) if (a, b, m[0]) not in f else f
        return self.relate_prod(st, st.cons.norm(q), st.cons.norm(r))

    def relate_prod(self, st, q, r):
        return [(st, q, r)]

    # bit partition domain -------------------------------------------------
    def bf_parts(self, st, w):
        return st.ghost.get(('bf', w))

    def bf_match(self, st, l, parts, w):
        """set of partition indices summing to l, or None"""
        l = st.cons.norm(l)
        M1 = (1 << w) - 1
        P = [st.cons.norm(p) for p in parts]
        if not l.t and l.c == 0:
            return frozenset()
        if not l.t and l.c == M1:
            return frozenset(i for i, p in enumerate(P) if p.t or p.c)
        # candidates: simple symbols
        simple = {}
        comp = []
        for i, p in enumerate(P):
            if not p.t and p.c == 0:
                continue
            if len(p.t) == 1 and p.c == 0 and p.t[0][1] == 1:
                simple[p.t[0][0]] = i
            else:
                comp.append(i)
        import itertools
        for n in range(len(comp) + 1):
            if n > 3:
                break
            for cs in itertools.combinations(comp, n):
                rest = l
                for c in cs:
                    rest = rest - P[c]
                if rest.c == 0 and all(k == 1 and s in simple for s, k in rest.t):
                    return frozenset([simple[s] for s, _ in rest.t]) | frozenset(cs)
        return None

    def bf_add(self, st, l, w):
        """refine the partition by l; returns (st, index set) or None"""
        M1 = (1 << w) - 1
        key = ('bf', w)
        parts = st.ghost.get(key)
        if parts is None:
            parts = (Lin(M1),)
        m = self.bf_match(st, l, parts, w)
        if m is not None and parts is not None and st.ghost.get(key) is not None:
            return st, parts, m
        if len(parts) > 32:
            return None
        np = []
        idx = set()
        tot = ZERO
        for p in parts:
            p = st.cons.norm(p)
            if not p.t and p.c == 0:
                np.append(p)
                continue
            a = sym(new_sym('bits', 0, M1))
            b = p - a
            if not st.ge(b):
                return None
            idx.add(len(np))
            np.append(a)
            np.append(b)
            tot = tot + a
        if not st.eq(tot - l):
            return None
        np = tuple(st.cons.norm(p) for p in np)
        st.ghost[key] = np
        return st, np, frozenset(idx)

    def bitop(self, st, op, a, b, w):
        M1 = (1 << w) - 1
        r = self.bf_add(st, a, w)
        if r is None:
            return None
        r2 = self.bf_add(r[0], b, w)
        if r2 is None:
            return None
        st, parts, ib = r2
        ia = self.bf_match(st, a, parts, w)
        ib = self.bf_match(st, b, parts, w)
        if ia is None or ib is None:
            return None
        s = ia & ib if op == 'and' else ia | ib if op == 'or' else ia ^ ib
        t = ZERO
        for i in s:
            t = t + parts[i]
        return st, st.cons.norm(t)

    # mask with a constant ------------------------------------------------
    def andc(self, st, a, mask, w):
        """a & mask -> (st, lin) or None"""
        runs = []
        i = 0
        while i < w:
            if mask >> i & 1:
                j = i
                while j < w and mask >> j & 1:
                    j += 1
                runs.append((i, j))
                i = j
            else:
                i += 1
        if len(runs) > 8:
            return self.bitop(st, 'and', a, Lin(mask), w)
        tot = ZERO
        for lo, hi in runs:
            r = self.split(st, a, 1 << lo)
            if r is None:
                return None
            st, q, _ = r
            if hi < w or True:
                if hi >= w:
                    tot = tot + q.scale(1 << lo)
                    continue
                r = self.split(st, q, 1 << (hi - lo))
                if r is None:
                    return None
                st, _, m = r
                tot = tot + m.scale(1 << lo)
        return st, st.cons.norm(tot)

    # ---------------------------------------------------------------- memory
    def chkptr(self, st, p, n, what, rule='memory-safety'):
        """validity of an access of n bytes at p -> (st) or None (path abandoned)"""
        if isinstance(p, Lin):
            p = st.cons.norm(p)
            if p.t:
                r = self.rid_of_addr(p)
                if r:
                    return self.chkptr(st, Ptr(r[0], r[1]), n, what, rule)
            self.alarm(st, rule, '%s through %s' % (what, 'a null pointer' if p == ZERO else 'an invalid pointer %r' % p))
            return None
        if p is UNDEF:
            self.alarm(st, rule, '%s through an uninitialised pointer' % what)
            return None
        if not isinstance(p, Ptr):
            self.taint(st, 'pointer value %s' % type(p).__name__)
            return None
        r = st.mem.get(p.r)
        if r is None:
            self.alarm(st, rule, '%s of memory that is no longer valid (%s)' % (what, self.rname.get(p.r)))
            return None
        off = st.cons.norm(p.off)
        n = n if isinstance(n, Lin) else Lin(n)
        ok1 = st.cons.entails_ge(off)
        room = r.size - off - n
        ok2 = st.cons.entails_ge(room)
        if ok1 and ok2:
            self.ok(rule)
        else:
            self.alarm(st, rule, '%s out of bounds of %s (offset %r, %r bytes, size %r)' % (what, r.name or r.kind, off, n, st.cons.norm(r.size)))
            if not st.ge(off) or not st.ge(room):
                return None
        return st

    def locate(self, st, p, n):
        """split an access: -> list of (st, kind, data): ('c', off) const cell; ('w', off) witness element; ('o', idx, off) other element; ('?',)"""
        r = st.mem[p.r]
        off = st.cons.norm(p.off)
        if r.arr is None:
            if not off.t:
                return [(st, 'c', off.c)]
            if not self.make_array(st, p.r, off):
                return [(st, '?', off)]
            r = st.mem[p.r]
        stride, k, w = r.arr
        c = off.c % stride
        rest = Lin(off.c - c, off.t)
        if rest.content() % stride and rest.t:
            sp = self.split(st, off, stride)
            if sp is None:
                return []
            st, idx, rem = sp
            rem = st.cons.norm(rem)
            if rem.t:
                lo, hi = st.cons.bounds(rem)
                if lo is None or hi is None or hi - lo > 64:
                    return [(st, '?', off)]
                out = []
                for v in range(lo, hi + 1):
                    s = st.copy()
                    if s.eq(rem - v):
                        out += self.locate(s, Ptr(p.r, s.cons.norm(off)), n)
                return out
            c = rem.c
            idx = st.cons.norm(idx)
        else:
            idx = rest.divexact(stride)
        if k is None:
            return [(st, 'o', (idx, c))]
        d = st.cons.norm(idx - k)
        if not d.t:
            return [(st, 'w', c)] if d.c == 0 else [(st, 'o', (idx, c))]
        out = []
        e = st.copy()
        lt = st.copy()
        if lt.ge(-d - 1):
            out.append((lt, 'o', (lt.cons.norm(idx), c)))
        gt = st.copy()
        if gt.ge(d - 1):
            out.append((gt, 'o', (gt.cons.norm(idx), c)))
        if e.eq(d):
            out.append((e, 'w', c))
        return out

    def make_array(self, st, rid, off=None, stride=None, k=None):
        r = st.wr(rid)
        if stride is None:
            stride = abs(off.content())
            if stride == 0:
                return False
            if r.attr.get('stride'):
                stride = r.attr['stride']
        if r.cells and not r.attr.get('bytes'):
            # keep element contents only when a single pattern covers everything
            if not r.size.t and r.size.c <= 4096 and not r.attr.get('noconv'):
                return self.array_from_cells(st, rid, stride)
        if k is None:
            k = sym(new_sym('k%d' % rid, 0, 2**62))
        r.arr = (stride, k, {})
        for o, (n, v) in list(r.cells.items()):
            pass
        r.cells = {}
        return True

    def array_from_cells(self, st, rid, stride):
        """constant-size plain region indexed symbolically: element k is one of the concrete ones -> keep cells as generator table"""
        r = st.wr(rid)
        r.attr = dict(r.attr)
        r.attr['table'] = dict(r.cells)
        r.attr['tstride'] = stride
        return False

    def extract(self, st, v, size, off, n):
        """bytes [off,off+n) of integer value v of `size` bytes"""
        if isinstance(v, Lin):
            r = self.split(st, v, 1 << (8 * off))
            if r is None:
                return None
            st, q, _ = r
            if off + n < size:
                r = self.split(st, q, 1 << (8 * n))
                if r is None:
                    return None
                st, _, q = r
            return st, q
        return st, UNDEF if v is UNDEF else None

    def read_cells(self, st, r, cells, off, n, ty, fill):
        """-> (st, value, newcell) ; newcell to be stored (materialised)"""
        c = cells.get(off)
        if c is not None and c[0] == n:
            return st, c[1], None
        parts = []
        over = [(o, s, v) for o, (s, v) in cells.items() if o < off + n and o + s > off]
        if not over:
            if fill == 'undef':
                return st, UNDEF, None
            if fill == 'zero':
                return st, self.zero(ty), None
            v = self.havoc(ty)
            return st, v, (n, v)
        for o, s, v in over:
            if o <= off and o + s >= off + n:
                if isinstance(v, Obj):
                    self.taint(st, 'raw read of payload object')
                    return st, self.havoc(ty), None
                if isinstance(v, (Lin,)):
                    e = self.extract(st, v, s, off - o, n)
                    if e is None:
                        return None
                    return e[0], e[1], None
                if v is UNDEF:
                    return st, UNDEF, None
                if isinstance(v, Term):
                    return st, Term(('bytes', v.k, off - o, n)), None
                self.taint(st, 'partial read of pointer')
                return st, self.havoc(ty), None
        # assemble from smaller pieces
        over.sort()
        pos = off
        tot = ZERO
        good = True
        for o, s, v in over:
            if o < off or o + s > off + n:
                good = False
                break
            while pos < o:
                if fill == 'zero':
                    pos += 1
                    continue
                good = False
                break
            if not isinstance(v, Lin):
                good = False
                break
            tot = tot + v.scale(1 << (8 * (o - off)))
            pos = o + s
        if pos < off + n and fill != 'zero':
            good = False
        if good:
            return st, st.cons.norm(tot), None
        if any(v is UNDEF for _, _, v in over):
            return st, UNDEF, None
        self.taint(st, 'mixed-size memory read')
        return st, self.havoc(ty), None

    def write_cells(self, st, cells, off, n, v):
        for o in list(cells):
            s, ov = cells[o]
            if o < off + n and o + s > off:
                if o >= off and o + s <= off + n:
                    if isinstance(ov, Obj) and not isinstance(v, Obj):
                        self.alarm(st, 'object-typestate', 'raw overwrite of a live %s object' % ov.cls)
                    del cells[o]
                    continue
                # partial overlap: keep the outside bytes
                del cells[o]
                if isinstance(ov, Lin):
                    if o < off:
                        e = self.extract(st, ov, s, 0, off - o)
                        if e is None:
                            return False
                        cells[o] = (off - o, e[1])
                    if o + s > off + n:
                        e = self.extract(st, ov, s, off + n - o, o + s - off - n)
                        if e is None:
                            return False
                        cells[off + n] = (o + s - off - n, e[1])
                elif ov is UNDEF:
                    if o < off:
                        cells[o] = (off - o, UNDEF)
                    if o + s > off + n:
                        cells[off + n] = (o + s - off - n, UNDEF)
                else:
                    if isinstance(ov, Obj):
                        self.alarm(st, 'object-typestate', 'raw overwrite of part of a live %s object' % ov.cls)
                    self.taint(st, 'partial overwrite')
        cells[off] = (n, v)
        return True

    def zero(self, ty):
        ty = self.m.resolve(ty)
        if ty[0] in ('i', 'ptr'):
            return ZERO
        if ty[0] == 'f':
            return Term(('f', ty[1], 0))
        if ty[0] in ('struct',):
            return Agg([self.zero(t) for t in ty[1]])
        if ty[0] in ('arr', 'vec'):
            return Agg([self.zero(ty[2])] * ty[1])
        return UNDEF

    def havoc(self, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'i':
            return self.fresh('v', ty[1])
        if ty[0] == 'ptr':
            return UNDEF
        if ty[0] == 'f':
            return Term(('fsym', ty[1], new_sym('f')))
        if ty[0] == 'struct':
            return Agg([self.havoc(t) for t in ty[1]])
        return UNDEF

    def load(self, st, p, ty, what='read'):
        """-> list of (st, val)"""
        n = self.m.size(ty)
        rt = self.m.resolve(ty)
        if rt[0] in ('struct', 'arr') and n <= 64:
            outs = [(st, [])]
            cnt = len(rt[1]) if rt[0] == 'struct' else rt[1]
            for i in range(cnt):
                o, ft = self.m.field(rt, i)
                nx = []
                for s, vs in outs:
                    for s2, v in self.load(s, self.padd(p, o), ft, what):
                        nx.append((s2, vs + [v]))
                outs = nx
            return [(s, Agg(vs)) for s, vs in outs]
        if isinstance(p, Lin) and p.t:
            r = self.rid_of_addr(st.cons.norm(p))
            if r:
                p = Ptr(r[0], r[1])
        if self.chkptr(st, p, n, what) is None:
            return []
        out = []
        for s, kind, d in self.locate(st, p, n):
            r = s.mem[p.r]
            if kind == 'c':
                if r.attr.get('bytes') is not None and d not in r.cells:
                    b = r.attr['bytes'][d:d + n]
                    out.append((s, Lin(int.from_bytes(b, 'little'))))
                    continue
                cells = r.cells
                g = r.attr.get('lazy')
                if g is not None and d not in cells:
                    s = g(self, s, p.r, d, n, ty) or s
                    r = s.mem[p.r]
                    cells = r.cells
                res = self.read_cells(s, r, cells, d, n, ty, r.fill)
                if res is None:
                    continue
                s, v, nc = res
                if nc:
                    s.wr(p.r).cells[d] = nc
                out.append((s, s.n(v)))
            elif kind == 'w':
                w = r.arr[2]
                if d not in w and r.gen is not None:
                    res = r.gen(self, s, p.r, r.arr[1], d, n, ty, True)
                    for s2, v in res:
                        if v is not None:
                            s2.wr(p.r).arr[2][d] = (n, v)
                        out.append((s2, s2.n(v)))
                    continue
                res = self.read_cells(s, r, w, d, n, ty, r.fill)
                if res is None:
                    continue
                s, v, nc = res
                if nc:
                    s.wr(p.r).arr[2][d] = nc
                out.append((s, s.n(v)))
            elif kind == 'o':
                if r.gen is not None:
                    for s2, v in r.gen(self, s, p.r, d[0], d[1], n, ty, False):
                        out.append((s2, s2.n(v)))
                elif r.fill == 'zero' and not r.attr.get('dirty'):
                    out.append((s, self.zero(ty)))
                else:
                    v = None
                    for mi, mo, mn, mv in r.attr.get('lastv', ()):
                        if mo == d[1] and mn == n and mi == d[0]:
                            v = mv
                    if v is None:
                        v = self.havoc(ty)
                        if v is UNDEF:
                            self.taint(s, 'pointer read from an untracked element')
                        else:
                            x = s.wr(p.r)
                            x.attr = dict(x.attr)
                            x.attr['lastv'] = r.attr.get('lastv', ())[-3:] + ((d[0], d[1], n, v),)
                    out.append((s, v))
            else:
                t = r.attr.get('table') or r.cells
                if not s.mem[p.r].size.t and s.mem[p.r].size.c <= 512:
                    # enumerate concrete offsets
                    lo, hi = s.cons.bounds(d)
                    g = d.content()
                    lo = max(lo if lo is not None else 0, 0)
                    hi = min(hi if hi is not None else 1 << 30, s.mem[p.r].size.c - n)
                    cand = [o for o in range(lo, hi + 1) if g == 0 or (o - d.c) % g == 0]
                    if len(cand) <= 80:
                        for o in cand:
                            s2 = s.copy()
                            if s2.eq(d - o):
                                out += self.load(s2, Ptr(p.r, Lin(o)), ty, what)
                        continue
                if r.attr.get('bytes') is not None and n == 1:
                    b = r.attr['bytes']
                    out.append((s, sym(new_sym('ch', min(b), max(b)))))
                    s.lossy = s.lossy or 'string table'
                    continue
                self.taint(s, 'symbolic offset into plain region')
                out.append((s, self.havoc(ty)))
        return out

    def store(self, st, p, v, n, what='write'):
        """-> list of st"""
        if isinstance(p, Lin) and p.t:
            r = self.rid_of_addr(st.cons.norm(p))
            if r:
                p = Ptr(r[0], r[1])
        if self.chkptr(st, p, n, what) is None:
            return []
        if st.mem[p.r].ro:
            self.alarm(st, 'memory-safety', 'write to read-only memory')
            return []
        out = []
        for s, kind, d in self.locate(st, p, n):
            if kind == 'c':
                r = s.wr(p.r)
                if r.attr.get('bytes') is not None:
                    b = r.attr['bytes']
                    r.attr = {k: x for k, x in r.attr.items() if k != 'bytes'}
                    for i, c in enumerate(b):
                        r.cells.setdefault(i, (1, Lin(c)))
                if self.write_cells(s, r.cells, d, n, v):
                    out.append(s)
            elif kind == 'w':
                r = s.wr(p.r)
                if r.gen is not None and n > 1 and any(False for _ in ()):
                    pass
                if self.write_cells(s, r.arr[2], d, n, v):
                    out.append(s)
            elif kind == 'o':
                r = s.wr(p.r)
                if not r.attr.get('dirty'):
                    r.attr = dict(r.attr)
                    r.attr['dirty'] = True
                old = r.attr.get('lastv', ())
                keep = tuple(e for e in old if e[1] >= d[1] + n or e[1] + e[2] <= d[1] or s.cons.entails_ge(e[0] - d[0] - 1) or s.cons.entails_ge(d[0] - e[0] - 1))
                r.attr = dict(r.attr)
                r.attr['lastv'] = keep[-3:] + ((d[0], d[1], n, v),)
                h = r.attr.get('onwrite')
                if h is not None:
                    out += h(self, s, p.r, d[0], d[1], n, v)
                else:
                    out.append(s)
            else:
                r = s.wr(p.r)
                if not r.size.t and r.size.c <= 512:
                    lo, hi = s.cons.bounds(d)
                    g = d.content()
                    lo = max(lo if lo is not None else 0, 0)
                    hi = min(hi if hi is not None else 1 << 30, r.size.c - n)
                    cand = [o for o in range(lo, hi + 1) if g == 0 or (o - d.c) % g == 0]
                    if len(cand) <= 80:
                        for o in cand:
                            s2 = s.copy()
                            if s2.eq(d - o):
                                out += self.store(s2, Ptr(p.r, Lin(o)), v, n, what)
                        continue
                self.taint(s, 'symbolic store into plain region')
                r = s.wr(p.r)
                r.cells = {}
                r.fill = 'sym'
                out.append(s)
        return out

    def padd(self, p, o):
        if isinstance(p, Ptr):
            return Ptr(p.r, p.off + o)
        if isinstance(p, Lin):
            return p + o
        return p

    def memcpy(self, st, d, s, n, what='memcpy'):
        """-> list of st"""
        n = st.cons.norm(n)
        if n == ZERO:
            return [st]
        if n.t and not st.cons.entails_ge(n - 1):
            z = st.copy()
            out = []
            if z.eq(n):
                out.append(z)
            if st.ge(n - 1):
                out += self.memcpy(st, d, s, st.cons.norm(n), what)
            return out
        if self.chkptr(st, s, n, what + ' source') is None or self.chkptr(st, d, n, what + ' destination') is None:
            return []
        if st.mem[d.r].ro:
            self.alarm(st, 'memory-safety', 'write to read-only memory')
            return []
        so = st.cons.norm(s.off)
        do = st.cons.norm(d.off)
        sr = st.mem[s.r]
        dr = st.mem[d.r]
        if not n.t and not so.t and not do.t and sr.arr is None and dr.arr is None:
            src = {}
            for o, (z, v) in sr.cells.items():
                if o < so.c + n.c and o + z > so.c:
                    if o >= so.c and o + z <= so.c + n.c:
                        src[o] = (z, v)
                    else:
                        if isinstance(v, Lin):
                            a = max(o, so.c)
                            b = min(o + z, so.c + n.c)
                            e = self.extract(st, v, z, a - o, b - a)
                            if e is None:
                                return []
                            src[a] = (b - a, e[1])
                        else:
                            self.taint(st, 'partial copy of a cell')
            if sr.attr.get('bytes') is not None:
                for i, c in enumerate(sr.attr['bytes'][so.c:so.c + n.c]):
                    src.setdefault(so.c + i, (1, Lin(c)))
            r = st.wr(d.r)
            for o in list(r.cells):
                z, v = r.cells[o]
                if o < do.c + n.c and o + z > do.c:
                    if not self.write_cells(st, r.cells, max(o, do.c), min(o + z, do.c + n.c) - max(o, do.c), UNDEF):
                        return []
            for o in [o for o, (z, v) in r.cells.items() if do.c <= o < do.c + n.c]:
                del r.cells[o]
            if sr.fill == 'sym':
                # materialise what is missing so both copies agree
                pos = so.c
                have = sorted(src)
                if not have:
                    if n.c <= 64 and sr.attr.get('lazy') is None:
                        w = st.wr(s.r)
                        step = 8 if n.c % 8 == 0 else 4 if n.c % 4 == 0 else 1
                        for o in range(so.c, so.c + n.c, step):
                            v = self.fresh('m', 8 * step)
                            w.cells[o] = (step, v)
                            src[o] = (step, v)
                elif len(have) < n.c:
                    pass
            elif sr.fill == 'zero':
                cov = set()
                for o, (z, v) in src.items():
                    cov.update(range(o, o + z))
                r = st.wr(d.r)
                for o in range(so.c, so.c + n.c):
                    if o not in cov:
                        src[o] = (1, ZERO)
            r = st.wr(d.r)
            for o, c in src.items():
                r.cells[o - so.c + do.c] = c
            return [st]
        # symbolic copy
        if dr.arr is None and (do.t or n.t):
            if not self.make_array(st, d.r, None, stride=self.copy_stride(st, sr, n, do)):
                self.taint(st, 'symbolic memcpy into a plain region')
                r = st.wr(d.r)
                r.cells = {}
                r.fill = 'sym'
                return [st]
            dr = st.mem[d.r]
        elif dr.arr is None:
            # constant destination, symbolic source position
            out = []
            if n.c <= 64:
                outs = [st]
                for i in range(n.c):
                    nx = []
                    for x in outs:
                        for y, v in self.load(x, Ptr(s.r, so + i), ('i', 8), what):
                            nx += self.store(y, Ptr(d.r, do + i), v, 1, what)
                    outs = nx
                return outs
            self.taint(st, 'memcpy from symbolic position')
            return [st]
        stride, k, w = dr.arr
        # is the witness element inside [do, do+n)?
        out = []
        ko = k.scale(stride)
        inside = st.copy()
        before = st.copy()
        after = st
        r = before.wr(d.r)
        if before.ge(do - ko - stride):
            out.append(before)
        if after.ge(ko - do - n):
            out.append(after)
        if inside.ge(ko - do) and inside.ge(do + n - ko - stride):
            cur = [inside]
            lay = None
            if sr.arr is not None and sr.arr[0] == stride:
                lay = [(o, z) for o, (z, v) in sr.arr[2].items()]
            if not lay:
                lay = [(i, 1) for i in range(stride)] if stride <= 8 else None
            if lay is None:
                self.taint(inside, 'memcpy of untracked elements')
                inside.wr(d.r).arr[2].clear()
                out.append(inside)
            else:
                for o, z in lay:
                    nx = []
                    for x in cur:
                        for y, v in self.load(x, Ptr(s.r, so + ko + o - do), ('i', 8 * z), what):
                            nx += self.store(y, Ptr(d.r, ko + o), v, z, what)
                    cur = nx
                out += cur
        for x in out:
            r = x.wr(d.r)
            r.attr = dict(r.attr)
            r.attr['dirty'] = True
            r.attr.pop('lastv', None)
        return out

    def copy_stride(self, st, sr, n, do):
        if sr.arr is not None:
            return sr.arr[0]
        g = 0
        from math import gcd
        for s, k in list(n.t) + list(do.t):
            g = gcd(g, abs(k))
        return g or 1

    # ---------------------------------------------------------------- globals
    def global_ptr(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs or name in self.m.decls:
            return Fn(name)
        rid = self.globals.get(name)
        if rid is None:
            rid = self.next_r
            self.next_r += 1
            self.globals[name] = rid
            self.rname[rid] = '@' + name
        if rid not in st.mem:
            ty, init, isconst, words = self.m.globals[name]
            r = Region('global', Lin(self.m.size(ty)), name='@' + name, ro=isconst, fill='zero' if init is not None else 'sym')
            al = self.m.align(ty)
            r.align = max(al, 1)
            st.mem[rid] = r
            st.own.add(rid)
            if init is not None:
                if init[0] == 'str':
                    r.attr = {'bytes': init[1]}
                else:
                    self.init_global(st, r, 0, ty, init)
        return Ptr(rid, ZERO)

    def init_global(self, st, r, off, ty, v):
        ty = self.m.resolve(ty)
        if v[0] == 'zero' or v[0] == 'undef':
            return
        if v[0] == 'agg':
            for i, (ft, fv) in enumerate(v[1]):
                o, _ = self.m.field(ty, i)
                self.init_global(st, r, off + o, ft, fv)
            return
        if v[0] == 'str':
            for i, b in enumerate(v[1]):
                r.cells[off + i] = (1, Lin(b))
            return
        r.cells[off] = (self.m.size(ty), self.operand(st, ty, v))

    # ---------------------------------------------------------------- operands
    def operand(self, st, ty, v):
        k = v[0]
        if k == 'l':
            x = st.env.get(v[1], UNDEF)
            return st.n(x)
        if k == 'int':
            w = ty[1] if ty[0] == 'i' else 64
            return Lin(v[1] % (1 << w))
        if k == 'null':
            return ZERO
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'flt':
            return self.fconst(ty, v[1])
        if k == 'agg':
            return Agg([self.operand(st, t, x) for t, x in v[1]])
        if k == 'cexpr':
            op = v[1]
            if op == 'gep':
                base = self.operand(st, v[3][0][0], v[3][0][1])
                off = self.gep_const(v[2], v[3][1:])
                return self.padd(base, off)
            if op in ('bitcast', 'addrspacecast'):
                return self.operand(st, v[2], v[3])
            if op == 'ptrtoint':
                p = self.operand(st, v[2], v[3])
                if isinstance(p, Ptr):
                    return self.addr_sym(st, p.r) + p.off
                if isinstance(p, Fn):
                    return p
                return p
            if op == 'inttoptr':
                return self.operand(st, v[2], v[3])
        return UNDEF

    def fconst(self, ty, txt):
        import struct
        if txt.startswith('0x'):
            if txt[2] in 'KLMHR':
                return Term(('f', ty[1], txt))
            bits = int(txt, 16)
            d = struct.unpack('<d', struct.pack('<Q', bits))[0]
        else:
            d = float(txt)
        if ty[1] == 32:
            b = struct.unpack('<I', struct.pack('<f', d))[0]
        else:
            b = struct.unpack('<Q', struct.pack('<d', d))[0]
        return Term(('f', ty[1], b))

    def gep_const(self, bt, idx):
        off = 0
        ty = bt
        for i, (t, v) in enumerate(idx):
            x = v[1] if v[0] == 'int' else 0
            if i == 0:
                off += x * self.m.size(ty)
            else:
                o, ty2 = self.m.field(ty, x)
                off += o
                ty = ty2
        return off

    # ---------------------------------------------------------------- calls
    def handler(self, name):
        if name in self.hcache:
            return self.hcache[name]
        h = self.h(self, name)
        self.hcache[name] = h
        return h

    def call(self, st, name, args, ins=None, rty=None):
        """-> list of (st, ret)"""
        name = self.m.aliases.get(name, name)
        h = self.handler(name)
        if h is not None:
            return h(self, st, args, ins, name)
        f = self.m.funcs.get(name)
        if f is None:
            self.unmodelled['call ' + name] = self.unmodelled.get('call ' + name, 0) + 1
            st.lossy = st.lossy or ('unmodelled call ' + name)
            d = self.m.decls.get(name)
            ret = rty or (d.ret if d else IR.VOID)
            v = self.havoc(ret) if ret != IR.VOID else None
            if ret == IR.PTR:
                rid = self.new_region(st, 'sym', sym(new_sym('usize', 0, 2**40)), fill='sym', name='result of ' + name)
                v = Ptr(rid, ZERO)
            return [(st, v)]
        depth = sum(1 for x, _ in self.stack if x == name)
        if depth > self.opts.get('recursion', 6):
            self.taint(st, 'recursion in ' + name)
            st.lossy = st.lossy or 'recursion'
            return []
        return self.eval_function(f, args, st)

    def eval_function(self, f, args, st):
        site = self.loc() if self.cur is not None else None
        saved_cur = self.cur
        saved_env = st.env
        saved_part = st.part
        self.stack.append((f.name, site))
        l = self.m.loc(f.dbg) if f.dbg else None
        if f.name not in self.funcs_seen:
            sp = self.m.meta.get(f.dbg) if f.dbg else None
            self.funcs_seen[f.name] = None
            if sp:
                import re
                mm = re.search(r'file: !(\d+)', sp)
                ln = re.search(r'\bline: (\d+)', sp)
                if mm:
                    fm = self.m.meta.get(mm.group(1), '')
                    fn = re.search(r'filename: "([^"]*)"', fm)
                    if fn:
                        self.funcs_seen[f.name] = (fn.group(1), int(ln.group(1)) if ln else 0)
        st.env = {}
        st.part = {}
        wm = self.next_r
        ws = len(NAME)
        for (ty, pn, attrs), v in zip(f.params, args):
            bv = [a for a in attrs if isinstance(a, tuple) and a[0] == 'byval']
            if bv and isinstance(v, Ptr):
                n = self.m.size(bv[0][1])
                rid = self.new_region(st, 'stack', n, name='byval argument of ' + f.name)
                r = self.memcpy(st, Ptr(rid, ZERO), v, Lin(n))
                if not r:
                    self.stack.pop()
                    return []
                st = r[0]
                v = Ptr(rid, ZERO)
            st.env[pn] = v
        if f.var:
            st.ghost['va'] = tuple(args[len(f.params):])
        rets = self.run_blocks(f, st, wm)
        out = []
        for s, v in rets:
            # release stack regions of this invocation
            for rid in [r for r in s.mem if r >= wm and s.mem[r].kind == 'stack' and s.mem[r].attr.get('frame', wm) == wm]:
                reg = s.mem[rid]
                self.scope_end(s, rid, reg)
                del s.mem[rid]
            s.env = saved_env
            s.part = saved_part
            out.append((s, v))
        if len(out) > 1:
            for s, _ in out:
                s.env = dict(saved_env)
                s.part = dict(saved_part)
        elif out:
            out[0][0].env = dict(saved_env)
            out[0][0].part = dict(saved_part)
        self.stack.pop()
        self.cur = saved_cur
        out = self.merge_rets(out)
        if len(out) > self.MERGE:
            out = self.join_rets(out, wm, ws)
        return out

    def scope_end(self, st, rid, reg):
        for o, (n, v) in reg.cells.items():
            if isinstance(v, Obj):
                self.alarm(st, 'object-typestate', '%s object left undestroyed when its storage (%s) goes away' % (v.cls, reg.name))
                return
        if reg.arr:
            for o, (n, v) in reg.arr[2].items():
                if isinstance(v, Obj):
                    self.alarm(st, 'object-typestate', '%s element left undestroyed when its storage (%s) goes away' % (v.cls, reg.name))
                    return

    MERGE = 4

    def signature(self, st, sl):
        """where array positions stand relative to the tracked element"""
        out = []
        for path, kind, d, v in sl:
            if kind != 'P':
                out.append(None)
                continue
            r = st.mem.get(d[1] if d[0] == 'o' else self.canon.get(d[1]))
            if r is None or not r.arr or r.arr[1] is None:
                out.append(None)
                continue
            x = v - r.arr[1].scale(r.arr[0])
            c = st.cons
            out.append('<' if c.entails_ge(-x - 1) else '>' if c.entails_ge(x - r.arr[0]) else '=' if c.entails_ge(x) and c.entails_ge(-x + r.arr[0] - 1) else '?')
        # elements read earlier, likewise
        for rid in sorted(st.mem):
            r = st.mem[rid]
            if r.arr and isinstance(r.arr[1], Lin) and r.arr[1].t and 'lastv' in r.attr:
                for e in r.attr['lastv']:
                    x = e[0] - r.arr[1]
                    out.append('<' if st.cons.entails_ge(-x - 1) else '>' if st.cons.entails_ge(x - 1) else '?')
        return tuple(out)

    def join_rets(self, out, wm, ws):
        """join generalised results of the same shape"""
        groups = {}
        res = []
        for s, v in out:
            if s.lossy is None or isinstance(v, list):
                res.append((s, v))
                continue
            env, s.env = s.env, {'': v}
            sl = self.slots(s, {''}, wm)
            s.env = env
            k = (tuple((p, k, d) for p, k, d, _ in sl), self.signature(s, sl))
            groups.setdefault(k, []).append((s, v, [x for _, _, _, x in sl], sl))
        for g in groups.values():
            if len(g) <= 2:
                res.extend((s, v) for s, v, _, _ in g)
                continue
            self.njoins += 1
            vals, cons = self.join_n([x for _, _, x, _ in g], [s.cons for s, _, _, _ in g])
            s, v, _, sl = g[0]
            r = s.copy()
            env = r.env
            r.env = {'': v}
            r.cons = cons
            self.rebuild(r, sl, vals, {''}, wm)
            kn = None
            for s2, _, _, _ in g:
                kn = self.known(s2) if kn is None else kn & self.known(s2)
            self.forget(r, frozenset(x for x in kn if self.older(x, ws)))
            v = r.env['']
            r.env = env
            res.append((r, v))
        return res

    def join_n(self, vs, cs):
        from math import gcd
        keys = {}
        vals = []
        params = set()
        thetas = [{} for _ in cs]
        for col in zip(*vs):
            ns = [c.norm(v) for c, v in zip(cs, col)]
            if all(x == ns[0] for x in ns):
                vals.append(ns[0])
                continue
            if all(v == col[0] for v in col):
                vals.append(col[0])
                continue
            g = 0
            for x in ns:
                for _, k in x.t:
                    g = gcd(g, abs(k))
                g = gcd(g, abs(x.c - ns[0].c))
            g = g or 1
            c = ns[0].c % g
            key = tuple(Lin((x.c - c) // g, tuple((y, k // g) for y, k in x.t)) for x in ns)
            p = keys.get(key)
            if p is None:
                p = keys[key] = new_sym('j', None, None)
                self.loopsyms.add(p)
                params.add(p)
                for th, x in zip(thetas, key):
                    th[p] = x
            vals.append(Lin(c, ((p, g),)))
        cons = cs[0]
        for c in cs[1:]:
            cons = self.weak_join(cons, c)
        cons = self.templates_n(cons, vals, [v for v in vals if any(x in params for x in v.syms())], params, list(zip(cs, thetas)))
        return vals, cons

    def merge_rets(self, out):
        if len(out) <= 1:
            return out
        seen = {}
        res = []
        for s, v in out:
            k = (self.exact_key(s, None), s.n(v) if not isinstance(v, list) else None)
            o = seen.get(k)
            if o is None:
                seen[k] = [s]
                res.append((s, v))
                continue
            if not self.absorb(seen[k], s):
                seen[k].append(s)
                res.append((s, v))
        return res

    def absorb(self, lst, s):
        """s has the same non-numeric content as the states of lst"""
        for o in lst:
            if self.absorb1(o, s):
                self.meet_known(o, s)
                return True
        return False

    def meet_known(self, o, s):
        for rid in list(o.mem):
            a = o.mem[rid].attr
            if 'last' not in a and 'lastv' not in a:
                continue
            b = s.mem[rid].attr if rid in s.mem else {}
            if a.get('last') == b.get('last') and a.get('lastv') == b.get('lastv'):
                continue
            x = o.wr(rid)
            x.attr = dict(a)
            if 'last' in a and a['last'] != b.get('last'):
                x.attr.pop('last')
            if 'lastv' in a:
                x.attr['lastv'] = tuple(e for e in a['lastv'] if e in b.get('lastv', ()))

    def absorb1(self, o, s):
        if True:
            if o.cons is s.cons or o.cons.key() == s.cons.key():
                return True
            if o.cons.eqs == s.cons.eqs:
                # o covers s ?
                if all(s.cons.entails_ge(l) for l in o.cons.ine) and all(self.bnd_in(o.cons, s.cons, x) for x in o.cons.bnd):
                    return True
                j = self.hull2(o.cons, s.cons)
                if j is not None:
                    o.cons = j
                    return True
        return False

    def bnd_in(self, a, b, x):
        la, ha = a.b(x)
        lb, hb = b.b(x)
        return (la is None or (lb is not None and lb >= la)) and (ha is None or (hb is not None and hb <= ha))

    def hull2(self, a, b):
        """exact union of two polyhedra differing in one complementary pair"""
        d1 = a.ine - b.ine
        d2 = b.ine - a.ine
        if len(d1) == 1 and len(d2) == 1 and a.bnd == b.bnd:
            x = next(iter(d1))
            y = next(iter(d2))
            if x + y == Lin(-1) or (x + y).t == () and (x + y).c >= -1:
                return Cons(a.eqs, a.bnd, a.ine & b.ine)
        if not d1 and not d2:
            df = [s for s in set(a.bnd) | set(b.bnd) if a.b(s) != b.b(s)]
            if len(df) == 1:
                s = df[0]
                (l1, h1), (l2, h2) = a.b(s), b.b(s)
                if l1 is not None and l2 is not None and l1 > l2:
                    l1, h1, l2, h2 = l2, h2, l1, h1
                if None in (l1, h1, l2) or l2 <= h1 + 1:
                    if l1 is None or l2 is None or h1 is None:
                        return None
                    nb = dict(a.bnd)
                    nb[s] = (l1, None if h2 is None else max(h1, h2))
                    return Cons(a.eqs, nb, a.ine)
        return None

    def exact_key(self, s, live):
        env = frozenset((k, s.n(v)) for k, v in s.env.items() if live is None or k in live)
        mem = []
        for rid, r in s.mem.items():
            if r.kind == 'global' and r.ro:
                continue
            cells = frozenset((o, n, s.n(v)) for o, (n, v) in r.cells.items())
            arr = None
            if r.arr:
                arr = (r.arr[0], s.n(r.arr[1]) if r.arr[1] is not None else None, frozenset((o, n, s.n(v)) for o, (n, v) in r.arr[2].items()), bool(r.attr.get('dirty')))
            mem.append((rid, cells, arr, s.n(r.size), r.fill))
        gh = frozenset((k, self.gnorm(s, v)) for k, v in s.ghost.items() if k not in ('prods', 'divs', 'fnm'))
        return (env, frozenset(mem), gh, s.lossy is None, frozenset(s.part.items()))

    def gnorm(self, s, v):
        if isinstance(v, tuple):
            return tuple(self.gnorm(s, x) for x in v)
        return s.n(v)

    # ---------------------------------------------------------------- block fixpoint
    def run_blocks(self, f, st, wm):
        import heapq, time
        rets = []
        pend = {}          # block -> list of states
        heap = []
        inq = set()
        hdr = {}           # header -> key -> table

        def push(bn, s):
            pend.setdefault(bn, []).append(s)
            if bn not in inq:
                inq.add(bn)
                heapq.heappush(heap, (f.rpo[bn], bn))
        push(f.order[0], st)
        total = 0
        while heap:
            _, bn = heapq.heappop(heap)
            inq.discard(bn)
            states = pend.pop(bn, [])
            b = f.blocks[bn]
            if len(states) > 1 and bn not in f.headers:
                states = self.dedupe(states, f.livein[bn])
            for s in states:
                total += 1
                self.nstates += 1
                if total > self.MAXSTATES or (self.deadline and time.time() > self.deadline):
                    self.notes.append('state budget exceeded in %s' % f.name)
                    self.unmodelled['state budget in ' + f.name] = 1
                    return rets
                if bn in f.headers:
                    s = self.at_header(f, bn, s, hdr, wm)
                    if s is None:
                        continue
                for s2, tgt, rv in self.run_block(f, b, s, wm):
                    if tgt is None:
                        rets.append((s2, rv))
                        continue
                    # phi evaluation
                    tb = f.blocks[tgt]
                    if tb.phis:
                        vals = {}
                        for p in tb.phis:
                            for v, pred in p.a:
                                if pred == bn:
                                    vals[p.dest] = self.operand(s2, p.ty, v)
                                    break
                        s2.env.update(vals)
                    live = f.livein[tgt]
                    s2.env = {k: v for k, v in s2.env.items() if k in live}
                    if tgt in f.headers and f.rpo[tgt] > f.rpo[bn]:
                        s2.part[tgt] = self.next_part
                        self.partsym[self.next_part] = len(NAME)
                        self.partcons[self.next_part] = s2.cons
                        self.next_part += 1
                    push(tgt, s2)
        return rets

    def dedupe(self, states, live):
        groups = {}
        out = []
        for s in states:
            k = self.exact_key(s, live)
            g = groups.setdefault(k, [])
            if g and self.absorb(g, s):
                self.njoins += 1
                continue
            g.append(s)
            out.append(s)
        return out

    # ---- loop heads
    def slots(self, st, live, wm):
        """ordered slots [(path, value)], canonical over regions created in this invocation"""
        canon = {}
        order = []
        out = []
        queue = []

        def see(rid):
            if rid >= wm:
                if rid not in canon:
                    canon[rid] = len(canon)
                    queue.append(rid)
                return ('n', canon[rid])
            return ('o', rid)

        def val(path, v):
            v = st.n(v)
            if isinstance(v, Ptr):
                out.append((path, 'P', see(v.r), v.off))
            elif isinstance(v, Lin):
                out.append((path, 'L', None, v))
            elif isinstance(v, Obj):
                out.append((path, 'O', (v.cls, v.st), v.tok if isinstance(v.tok, Lin) else ZERO))
            elif isinstance(v, Agg):
                for i, x in enumerate(v.v):
                    val(path + (i,), x)
            elif isinstance(v, Fn):
                out.append((path, 'F', v.name, ZERO))
            elif isinstance(v, Term):
                out.append((path, 'T', v.k if v.k[0] == 'f' else None, ZERO))
            else:
                out.append((path, 'U', None, ZERO))
        for k in sorted(st.env):
            if k in live:
                val(('e', k), st.env[k])

        def region(rid, tag):
            r = st.mem.get(rid)
            if r is None:
                out.append((('r', tag, 'gone'), 'G', None, ZERO))
                return
            if r.kind == 'global' and r.ro:
                return
            out.append((('r', tag, 'size'), 'L', None, st.n(r.size)))
            for o in sorted(r.cells):
                n, v = r.cells[o]
                path = ('r', tag, 'c', o, n)
                v = st.n(v)
                if n == 1 and isinstance(v, Lin) and not v.t and v.c in (0, 1):
                    out.append((path, 'C', v.c, ZERO))
                else:
                    val(path, v)
            if r.arr:
                out.append((('r', tag, 'k'), 'L', r.arr[0], st.n(r.arr[1]) if r.arr[1] is not None else ZERO))
                for o in sorted(r.arr[2]):
                    n, v = r.arr[2][o]
                    path = ('r', tag, 'w', o, n)
                    v = st.n(v)
                    if isinstance(v, Lin) and not v.t and v.c in (0, 1):
                        out.append((path, 'C', v.c, ZERO))
                    else:
                        val(path, v)
        for rid in sorted(r for r in st.mem if r < wm):
            region(rid, ('o', rid))
        for k in sorted(st.ghost, key=repr):
            if k in ('prods', 'divs', 'fnm'):
                continue
            v = st.ghost[k]
            if isinstance(v, (Lin, Ptr)):
                val(('g', repr(k)), v)
            else:
                out.append((('g', repr(k)), 'K', self.gnorm(st, v) if isinstance(v, tuple) else v, ZERO))
        qi = 0
        while qi < len(queue):
            region(queue[qi], ('n', canon[queue[qi]]))
            qi += 1
        # unreachable new regions (leaks, unreferenced allocas)
        rest = [r for r in sorted(st.mem) if r >= wm and r not in canon and not (st.mem[r].kind == 'global')]
        for rid in rest:
            r = st.mem[rid]
            if r.kind == 'stack' and r.attr.get('frame', wm) != wm:
                continue
            see(rid)
        while qi < len(queue):
            region(queue[qi], ('n', canon[queue[qi]]))
            qi += 1
        self.canon = {n: r for r, n in canon.items()}
        return out

    def at_header(self, f, bn, s, hdr, wm):
        live = f.livein[bn]
        sl = self.slots(s, live, wm)
        key = (tuple((p, k, d) for p, k, d, _ in sl), s.part.get(bn))
        T = hdr.setdefault(bn, {}).setdefault(key, {'exact': [], 'J': None, 'n': 0, 'det': 0, 'last': None})
        vals = [v for _, _, _, v in sl]
        kn = self.known(s)
        for ev, ec, el, ek in T['exact']:
            if ek <= kn and (el is None or s.lossy is not None):
                if ev == vals and self.covers_plain(ec, s.cons):
                    return None
        J = T['J']
        if J is not None and J['kn'] <= kn:
            th = self.match(J, vals, s.cons)
            if th is not None and self.covers(J, th, s.cons):
                return None
        # deterministic concrete loop: no numeric information was learned since the last visit
        if T['last'] is not None and T['last'][0] is s.cons and T['det'] < 600 and all(a is b or not (a - b).t for a, b in zip(vals, T['last'][1])):
            T['det'] += 1
            T['last'] = (s.cons, vals)
            T['exact'].append((vals, s.cons, s.lossy, kn))
            return s
        T['last'] = (s.cons, vals)
        T['n'] += 1
        if T['n'] > self.MAXVISIT:
            self.unmodelled['loop not stabilised in ' + f.name] = 1
            self.notes.append('loop at %s:%s not stabilised' % (f.name, bn))
            return None
        if T['n'] <= self.UNROLL:
            if self.opts.get('dbg'):
                print('HDR', f.name, bn, 'exact', T['n'], vals, s.cons.show())
            T['exact'].append((vals, s.cons, s.lossy, kn))
            return s
        self.njoins += 1
        if J is None:
            ev, ec, el, ek = T['exact'][-1]
            J = self.generalise(ev, ec, vals, s.cons, s)
            w = self.partsym.get(s.part.get(bn), 0)
            J['kn'] = frozenset(x for x in ek & kn if self.older(x, w))
        else:
            k0 = J['kn']
            J = self.widen(J, vals, s.cons, s)
            J['kn'] = k0 & kn
        ec = self.partcons.get(s.part.get(bn))
        if ec is not None:
            J['cons'] = self.restrict(J['cons'], ec)
        T['J'] = J
        if self.opts.get('dbg'):
            print('HDR', f.name, bn, 'visit', T['n'], vals, s.cons.show(), '\n    J', J['vals'], J['cons'].show())
        # build the joined state on s's shape
        r = s.copy()
        r.cons = J['cons']
        r.lossy = s.lossy or ('loop generalisation at %s' % f.name)
        self.rebuild(r, sl, J['vals'], live, wm)
        self.forget(r, J['kn'])
        return r

    def restrict(self, c, e):
        """what held of the symbols when the loop was entered still holds: symbols do not change"""
        for x, (lo, hi) in e.bnd.items():
            if c.bnd.get(x) == (lo, hi):
                continue
            if lo is not None:
                r = c.add_ge(sym(x) - lo)
                c = c if r is None else r
            if hi is not None:
                r = c.add_ge(Lin(hi) - sym(x))
                c = c if r is None else r
        for l in e.ine:
            if l not in c.ine:
                r = c.add_ge(l)
                c = c if r is None else r
        return c

    def older(self, x, w):
        """the remembered fact only speaks about symbols that existed before the loop was entered"""
        if isinstance(x, Lin):
            return all(y < w for y, _ in x.t)
        if isinstance(x, Ptr):
            return self.older(x.off, w)
        if isinstance(x, Obj):
            return self.older(x.tok, w)
        if isinstance(x, tuple):
            return all(self.older(y, w) for y in x)
        return True

    def known(self, st):
        """what the state remembers about elements it does not track"""
        return frozenset((rid, k, x) for rid, r in st.mem.items() for k in ('last', 'lastv') if k in r.attr for x in (r.attr[k] if k == 'lastv' else (r.attr[k],)))

    def forget(self, st, keep=frozenset()):
        """drop what is remembered in terms of symbols that the generalisation has renamed"""
        st.ghost.pop('fnm', None)
        for rid in list(st.mem):
            if 'last' in st.mem[rid].attr or 'lastv' in st.mem[rid].attr:
                x = st.wr(rid)
                x.attr = dict(x.attr)
                l = x.attr.pop('last', None)
                if l is not None and (rid, 'last', l) in keep:
                    x.attr['last'] = l
                l = tuple(e for e in x.attr.pop('lastv', ()) if (rid, 'lastv', e) in keep)
                if l:
                    x.attr['lastv'] = l

    def rebuild(self, st, sl, vals, live, wm):
        """write slot values back"""
        mp = {}
        for (path, kind, d, _), v in zip(sl, vals):
            mp[path] = (kind, d, v)
        canon = {}
        queue = []

        def see(rid):
            if rid >= wm and rid not in canon:
                canon[rid] = len(canon)
                queue.append(rid)

        def val(path, v):
            v0 = v
            if isinstance(v, Agg):
                return Agg([val(path + (i,), x) for i, x in enumerate(v.v)])
            if isinstance(v, Ptr):
                see(v.r)
            m = mp.get(path)
            if m is None:
                return v
            kind, d, nv = m
            if kind == 'P':
                return Ptr(v.r, nv)
            if kind == 'L':
                return nv
            if kind == 'O':
                return Obj(v.cls, v.st, nv)
            if kind == 'T' and d is None:
                return Term(('fsym', 0, new_sym('f')))
            return v
        for k in sorted(st.env):
            if k in live:
                st.env[k] = val(('e', k), st.env[k])

        def region(rid, tag):
            if rid not in st.mem:
                return
            r0 = st.mem[rid]
            if r0.kind == 'global' and r0.ro:
                return
            r = st.wr(rid)
            m = mp.get(('r', tag, 'size'))
            if m:
                r.size = m[2]
            for o in sorted(r.cells):
                n, v = r.cells[o]
                path = ('r', tag, 'c', o, n)
                if path in mp and mp[path][0] == 'C':
                    continue
                r.cells[o] = (n, val(path, v))
            if r.arr:
                stride, k, w = r.arr
                m = mp.get(('r', tag, 'k'))
                if m and k is not None:
                    k = m[2]
                for o in sorted(w):
                    n, v = w[o]
                    path = ('r', tag, 'w', o, n)
                    if path in mp and mp[path][0] == 'C':
                        continue
                    w[o] = (n, val(path, v))
                r.arr = (stride, k, w)
        for rid in sorted(r for r in st.mem if r < wm):
            region(rid, ('o', rid))
        for k in sorted(st.ghost, key=repr):
            v = st.ghost[k]
            if isinstance(v, (Lin, Ptr)):
                st.ghost[k] = val(('g', repr(k)), v)
        qi = 0
        while qi < len(queue):
            region(queue[qi], ('n', canon[queue[qi]]))
            qi += 1
        rest = [r for r in sorted(st.mem) if r >= wm and r not in canon and not (st.mem[r].kind == 'global')]
        for rid in rest:
            r = st.mem[rid]
            if r.kind == 'stack' and r.attr.get('frame', wm) != wm:
                continue
            see(rid)
        while qi < len(queue):
            region(queue[qi], ('n', canon[queue[qi]]))
            qi += 1
        # product facts mention pre-join symbols; keep (symbols keep their meaning)

    def covers_plain(self, a, b):
        if a is b:
            return True
        for s, e in a.eqs.items():
            if not b.entails_eq(sym(s) - e):
                return False
        for l in a.ine:
            if not b.entails_ge(l):
                return False
        for s, (lo, hi) in a.bnd.items():
            if lo is not None and not b.entails_ge(sym(s) - lo):
                return False
            if hi is not None and not b.entails_ge(Lin(hi) - sym(s)):
                return False
        return True

    def match(self, J, vals, cons):
        """solve the parameters of J against concrete slot values; None on mismatch; returns (theta, bad slot indexes)"""
        theta = {}
        bad = []
        pend = list(enumerate(zip(J['vals'], vals)))
        prog = True
        while pend and prog:
            prog = False
            nx = []
            for i, (jv, v) in pend:
                free = [(s, k) for s, k in jv.t if s in J['params'] and s not in theta]
                jj = jv.subst(theta) if theta else jv
                if not free:
                    if not (cons.norm(jj) == cons.norm(v) or cons.entails_eq(jj - v)):
                        bad.append(i)
                    prog = True
                elif len(free) == 1:
                    s, k = free[0]
                    rest = cons.norm(v - (jj - Lin(0, ((s, k),))))
                    if rest.c % k == 0 and all(c % k == 0 for _, c in rest.t):
                        theta[s] = Lin(rest.c // k, tuple((x, c // k) for x, c in rest.t))
                    else:
                        bad.append(i)
                    prog = True
                else:
                    nx.append((i, (jv, v)))
            pend = nx
        bad += [i for i, _ in pend]
        if bad:
            J['_bad'] = bad
            J['_theta'] = theta
            return None
        return theta

    def covers(self, J, theta, cons):
        return not self.failing(J, theta, cons)

    def sub(self, l, theta, params):
        return l.subst(theta)

    def failing(self, J, theta, cons):
        bad = []
        c = J['cons']
        for l in c.ine:
            if not cons.entails_ge(l.subst(theta)):
                bad.append(('i', l))
        for s, (lo, hi) in c.bnd.items():
            x = sym(s).subst(theta)
            if lo is not None and not cons.entails_ge(x - lo):
                bad.append(('lo', s))
            if hi is not None and not cons.entails_ge(Lin(hi) - x):
                bad.append(('hi', s))
        for s in J['params']:
            # base bounds of parameters
            x = sym(s).subst(theta)
            if LO[s] is not None and not cons.entails_ge(x - LO[s]):
                bad.append(('plo', s))
            if HI[s] is not None and not cons.entails_ge(Lin(HI[s]) - x):
                bad.append(('phi', s))
        for s, e in c.eqs.items():
            if not cons.entails_eq(sym(s).subst(theta) - e.subst(theta)):
                bad.append(('e', s))
        return bad

    def generalise(self, av, ac, bv, bc, st):
        params = set()
        diffs = {}
        vals = []
        fresh = []        # (param, lin in A terms, lin in B terms)
        for i, (a, b) in enumerate(zip(av, bv)):
            if a == b:
                vals.append(a)
                continue
            if bc.norm(a) == bc.norm(b):
                vals.append(a)
                continue
            d = bc.norm(b) - bc.norm(a)
            if not d.t:
                # constant difference: share one counter
                c = diffs.get('const')
                if c is None:
                    p = new_sym('it', None, None)
                    self.loopsyms.add(p)
                    c = diffs['const'] = p
                    params.add(p)
                    fresh.append((p, ZERO, ONE))
                vals.append(a + Lin(0, ((c, d.c),)))
            else:
                # the primitive part of the difference is shared: an offset stays a multiple of its stride
                from math import gcd
                g = abs(d.c)
                for _, k in d.t:
                    g = gcd(g, abs(k))
                if d.t[0][1] < 0:
                    g = -g
                key = Lin(d.c // g, tuple((s_, k // g) for s_, k in d.t))
                p = diffs.get(key)
                if p is None:
                    p = new_sym('g', None, None)
                    self.loopsyms.add(p)
                    diffs[key] = p
                    params.add(p)
                    fresh.append((p, ZERO, key))
                vals.append(a + Lin(0, ((p, g),)))
        ta = {p: x for p, x, _ in fresh}
        tb = {p: y for p, _, y in fresh}
        cons = self.weak_join(ac, bc)
        cons = self.templates(cons, vals, [(i, v) for i, v in enumerate(vals) if any(s in params for s in v.syms())], params, ac, ta, bc, tb)
        return {'vals': vals, 'params': params, 'cons': cons}

    def weak_join(self, a, b):
        """constraints over pre-existing symbols valid in both"""
        eqs = {}
        lost = []
        for s, e in a.eqs.items():
            if b.eqs.get(s) == e or b.entails_eq(sym(s) - e):
                eqs[s] = e
            else:
                lost.append(s)
        r = Cons(eqs, {}, frozenset())
        ine = set()
        for l in a.ine:
            if l in b.ine or b.entails_ge(l):
                ine.add(l)
        for l in b.ine:
            if l not in ine and a.entails_ge(l):
                ine.add(l)
        bnd = {}
        for s in set(a.bnd) | set(b.bnd) | set(lost) | set(b.eqs):
            if s in eqs:
                continue
            la, ha = a.bounds(sym(s))
            lb, hb = b.bounds(sym(s))
            lo = None if la is None or lb is None else min(la, lb)
            hi = None if ha is None or hb is None else max(ha, hb)
            if (lo, hi) != (LO[s], HI[s]):
                bnd[s] = (lo, hi)
        # inequalities may mention symbols solved in eqs: renormalise
        r = Cons(eqs, bnd, frozenset())
        for l in ine:
            x = r.force_ge(l)
            if x is not None:
                r = x
        return r

    def templates(self, cons, vals, chg, params, ac, ta, bc, tb):
        return self.templates_n(cons, vals, [v for _, v in chg], params, [(ac, ta), (bc, tb)])

    def templates_n(self, cons, vals, chg, params, sides):
        """add bounds for changed slots that hold on every side (constraints, values of the parameters)"""
        def both_lo(l):
            m = None
            for c, t in sides:
                a = c.bounds(l.subst(t))[0]
                if a is None:
                    return None
                m = a if m is None else min(m, a)
            return m
        exprs = []
        for v in chg:
            if v not in exprs:
                exprs.append(v)
        for p in sorted(params):
            if sym(p) not in exprs:
                exprs.append(sym(p))
        # candidate partners: symbols connected to the difference in either side
        ys = []
        seen = set()
        def addsyms(c, l):
            for x in c.ine:
                if any(s in l for s, _ in x.t):
                    for s, k in x.t:
                        if s not in seen and s not in params:
                            seen.add(s)
                            ys.append((s, abs(k)))
        base = set()
        for v in exprs:
            for c, t in sides:
                base |= set(v.subst(t).syms())
        newc = []
        for c, t in sides[1:]:
            for x in c.ine:
                if x not in sides[0][0].ine:
                    newc.append(x)
        for x in newc:
            for s, k in x.t:
                if s not in seen and s not in params:
                    seen.add(s)
                    ys.append((s, abs(k)))
        nb = [s for c, t in sides[1:] for s in c.bnd if c.bnd.get(s) != sides[0][0].bnd.get(s)]
        for s in nb:
            if s not in seen and s not in params:
                seen.add(s)
                ys.append((s, 1))
        slotsyms = set(x for v in vals for x in v.syms())
        # a symbol one side has solved is as much changed as one it has bounded
        if len(sides) == 2:
            for s in sorted(set(sides[0][0].eqs) ^ set(sides[1][0].eqs)):
                if s not in seen and s not in params and s in slotsyms:
                    seen.add(s)
                    ys.append((s, 1))
        for s in sorted(RIGID):
            if s not in seen and s not in params and s in slotsyms:
                seen.add(s)
                ys.insert(0, (s, 1))
        for c, t in reversed(sides):
            addsyms(c, base)
        ys = ys[:14 if len(sides) == 2 else 4]
        cand = []
        for v in exprs:
            lo = both_lo(v)
            if lo is not None:
                cand.append(v - lo)
            hi = both_lo(-v)
            if hi is not None:
                cand.append(-v - hi)
            ks = {1} | {abs(k) for _, k in v.t if len(v.t) == 1 or True}
            for y, ky in ys:
                for m in ({1, ky} | {k for k in ks if k > 1 and k <= 4096}):
                    for sg in (1, -1):
                        e = Lin(0, ((y, m),)) - v
                        e = e if sg > 0 else -e
                        lo = both_lo(e)
                        if lo is not None:
                            cand.append(e - lo)
        for i in range(len(exprs)):
            for j in range(len(exprs)):
                if i != j and len(exprs) <= 8:
                    e = exprs[i] - exprs[j]
                    if not e.t:
                        continue
                    lo = both_lo(e)
                    if lo is not None:
                        cand.append(e - lo)
        for l in cand:
            if abs(l.c) > 1 << 30 and len(l.t) > 1:
                iv = cons.interval(l)[0]
                if iv is not None and iv >= 0:
                    continue
            r = cons.force_ge(l)
            if r is not None:
                cons = r
        return cons

    def widen(self, J, vals, cons, st):
        th = self.match(J, vals, cons)
        if th is None:
            bad = J['_bad']
            theta = dict(J['_theta'])
            nv = list(J['vals'])
            params = set(J['params'])
            fr = []
            groups = {}
            for i in bad:
                jv = nv[i]
                # congruence shared by both shapes
                from math import gcd
                g = 0
                for _, k in jv.t + vals[i].t:
                    g = gcd(g, abs(k))
                g = gcd(g, abs(jv.c - vals[i].c)) or 1
                gk = (jv, vals[i])
                if gk in groups:
                    nv[i] = groups[gk]
                    continue
                p = new_sym('s', None, None)
                self.loopsyms.add(p)
                params.add(p)
                c = jv.c % g
                nv[i] = Lin(c, ((p, g),))
                groups[gk] = nv[i]
                xa = Lin((jv.c - c) // g, tuple((s, k // g) for s, k in jv.t))
                xb = Lin((vals[i].c - c) // g, tuple((s, k // g) for s, k in vals[i].t))
                fr.append((p, xa, xb, i))
            # unresolved parameters of J that no slot determines any more: drop
            tb = dict(theta)
            for p, xa, xb, i in fr:
                tb[p] = xb
            ta = {p: xa for p, xa, xb, i in fr}
            for p in J['params']:
                ta.setdefault(p, sym(p))
            used = set(s for v in nv for s in v.syms())
            undet = [p for p in J['params'] if p not in tb]
            base = self.prune({'vals': nv, 'params': params, 'cons': J['cons']}, tb, cons, undet)
            c2 = self.templates(base, nv, [(i, nv[i]) for _, _, _, i in fr], {p for p, _, _, _ in fr}, J['cons'], ta, cons, tb)
            params = {p for p in params if p not in undet}
            return {'vals': nv, 'params': params, 'cons': c2}
        fm = J.get('fm', 0)
        c = self.prune(J, th, cons, [], fm < 4)
        return {'vals': J['vals'], 'params': J['params'], 'cons': c, 'fm': fm + 1}

    def prune(self, J, theta, cons, undet, derive=False):
        """constraints of J that survive the new state; derive: also those J only implies, by adding up two of its own"""
        c = J['cons']
        eqs = {}
        lost = []
        und = set(undet)
        for s, e in c.eqs.items():
            if s in und or any(x in und for x in e.syms()):
                continue
            if cons.entails_eq(sym(s).subst(theta) - e.subst(theta)):
                eqs[s] = e
        r = Cons(eqs, {}, frozenset())
        bnd = {}
        for s, (lo, hi) in c.bnd.items():
            if s in und or s in eqs:
                continue
            x = sym(s).subst(theta)
            if lo is not None and not cons.entails_ge(x - lo):
                lo = LO[s]
                if lo is None and s in J['params'] and cons.entails_ge(x):
                    lo = 0 if (c.bnd[s][0] or 0) >= 0 else None
            if hi is not None and not cons.entails_ge(Lin(hi) - x):
                hi = HI[s]
            if (lo, hi) != (LO[s], HI[s]):
                bnd[s] = (lo, hi)
        r = Cons(eqs, bnd, frozenset())
        gone = []
        for l in c.ine:
            if any(x in und for x in l.syms()):
                continue
            if cons.entails_ge(l.subst(theta)):
                x = r.force_ge(l)
                if x is not None:
                    r = x
            elif derive and any(x in J['params'] for x in l.syms()):
                gone.append(l)
        for l in gone:
            for m in c.ine:
                if m is l or any(x in und for x in m.syms()):
                    continue
                k = dict(m.t)
                if not any(k.get(s) == -q and s not in J['params'] for s, q in l.t):
                    continue
                e = l + m
                if any(x in J['params'] for x in e.syms()) and len(e.t) <= 2 and not r.entails_ge(e) and cons.entails_ge(e.subst(theta)):
                    x = r.force_ge(e)
                    if x is not None:
                        r = x
        return r

    # ---------------------------------------------------------------- instructions
    def run_block(self, f, b, st, wm):
        """yields (state, successor or None, return value)"""
        work = [(st, 0)]
        out = []
        while work:
            s, i = work.pop()
            if len(work) > self.MAXSTATES:
                self.unmodelled['state budget in ' + f.name] = 1
                return out
            ins = b.ins[i]
            self.cur = ins
            op = ins.op
            if op == 'br':
                if len(ins.a) == 1:
                    out.append((s, ins.a[0], None))
                    continue
                c = self.operand(s, ('i', 1), ins.a[0])
                for s2, v in self.truth(s, c):
                    s2.trace = (s2.trace, (self.loc(ins), v))
                    out.append((s2, ins.a[1] if v else ins.a[2], None))
                continue
            if op == 'switch':
                out += self.switch(s, ins)
                continue
            if op == 'ret':
                v = None
                if ins.a:
                    v = self.operand(s, ins.ty, ins.a[0])
                out.append((s, None, v))
                continue
            if op == 'unreachable':
                continue
            res = self.step(s, ins, wm)
            for s2, v in res:
                if ins.dest is not None:
                    s2.env[ins.dest] = v
                work.append((s2, i + 1))
        return out

    def truth(self, s, c):
        if isinstance(c, Lin):
            c = s.cons.norm(c)
            if not c.t:
                return [(s, c.c & 1)]
            t = s.copy()
            o = []
            if s.eq(c):
                o.append((s, 0))
            if t.eq(c - 1):
                o.append((t, 1))
            return o
        if c is UNDEF:
            self.alarm(s, 'uninitialised-value', 'branch on an uninitialised value')
            return []
        if isinstance(c, (Ptr, Fn)):
            return [(s, 1)]
        self.taint(s, 'branch on ' + type(c).__name__)
        t = s.copy()
        return [(s, 0), (t, 1)]

    def switch(self, s, ins):
        ty, vo, d, cases = ins.a
        v = self.operand(s, ty, vo)
        if v is UNDEF:
            self.alarm(s, 'uninitialised-value', 'switch on an uninitialised value')
            return []
        if not isinstance(v, Lin):
            self.taint(s, 'switch')
            return []
        out = []
        cur = [s]
        w = ty[1]
        for c, tgt in cases:
            nx = []
            c = c % (1 << w)
            for x in cur:
                dd = x.cons.norm(v - c)
                if not dd.t:
                    if dd.c == 0:
                        out.append((x, tgt, None))
                    else:
                        nx.append(x)
                    continue
                e = x.copy()
                if e.eq(dd):
                    out.append((e, tgt, None))
                lt = x.copy()
                if lt.ge(-dd - 1):
                    nx.append(lt)
                if x.ge(dd - 1):
                    nx.append(x)
            cur = nx
        for x in cur:
            out.append((x, d, None))
        return out

    def step(self, s, ins, wm):
        """-> list of (state, value)"""
        op = ins.op
        if op == 'load':
            p = self.operand(s, IR.PTR, ins.a[0])
            order, vol = ins.extra
            h = self.opts.get('atomic_load')
            if order and h:
                return h(self, s, p, ins.ty, order, ins)
            h = self.opts.get('plain_load')
            if h:
                r = h(self, s, p, ins.ty, ins)
                if r is not None:
                    return r
            res = self.load(s, p, ins.ty)
            out = []
            for x, v in res:
                if isinstance(v, Obj):
                    self.taint(x, 'raw load of payload')
                    v = UNDEF
                t0 = self.m.resolve(ins.ty)[0]
                if t0 == 'f' and isinstance(v, Lin):
                    v = self.int2f(x, v, self.m.resolve(ins.ty)[1])
                elif t0 == 'i' and isinstance(v, Term):
                    v = self.f2int(x, v, self.m.resolve(ins.ty)[1])
                elif t0 == 'i' and isinstance(v, Ptr):
                    v = self.addr_sym(x, v.r) + v.off
                elif t0 == 'ptr' and isinstance(v, Lin) and v.t:
                    r = self.rid_of_addr(x.cons.norm(v))
                    if r:
                        v = Ptr(r[0], r[1])
                out.append((x, v))
            return out
        if op == 'store':
            v = self.operand(s, ins.ty, ins.a[0])
            p = self.operand(s, IR.PTR, ins.a[1])
            order, vol = ins.extra
            h = self.opts.get('atomic_store')
            if order and h:
                return h(self, s, p, v, ins.ty, order, ins)
            h = self.opts.get('plain_store')
            if h:
                r = h(self, s, p, v, self.m.size(ins.ty), ins)
                if r is not None:
                    return r
            hw = self.opts.get('on_store')
            if hw:
                hw(self, s, p, v, ins)
            if isinstance(v, Agg):
                rt = self.m.resolve(ins.ty)
                cur = [s]
                for i, x in enumerate(v.v):
                    o, ft = self.m.field(rt, i)
                    nx = []
                    for y in cur:
                        nx += self.store(y, self.padd(p, o), x, self.m.size(ft))
                    cur = nx
                return [(x, None) for x in cur]
            return [(x, None) for x in self.store(s, p, v, self.m.size(ins.ty))]
        if op == 'alloca':
            n = self.m.size(ins.ty)
            cnt = ins.a[0]
            size = Lin(n)
            if cnt is not None:
                c = self.operand(s, ('i', 64), cnt)
                size = c.scale(n) if isinstance(c, Lin) else Lin(n)
            rid = self.new_region(s, 'stack', size, name='local in ' + ins.fn, align=ins.extra or 16)
            s.mem[rid].attr = {'frame': wm}
            return [(s, Ptr(rid, ZERO))]
        if op == 'getelementptr':
            return self.gep(s, ins)
        if op == 'icmp':
            return self.icmp(s, ins.extra, self.operand(s, ins.ty, ins.a[0]), self.operand(s, ins.ty, ins.a[1]), ins.ty)
        if op in IR.BIN:
            a = self.operand(s, ins.ty, ins.a[0])
            b = self.operand(s, ins.ty, ins.a[1])
            return self.binop(s, op, a, b, ins)
        if op in IR.CAST:
            return self.cast(s, ins)
        if op == 'call':
            return self.do_call(s, ins)
        if op == 'select':
            c = self.operand(s, ('i', 1), ins.a[0])
            out = []
            for x, v in self.truth(s, c):
                out.append((x, self.operand(x, ins.ty, ins.a[1] if v else ins.a[2])))
            return out
        if op == 'extractvalue':
            v = self.operand(s, ins.ty, ins.a[0])
            for i in ins.extra:
                v = v.v[i] if isinstance(v, Agg) else UNDEF
            return [(s, v)]
        if op == 'insertvalue':
            v = self.operand(s, ins.ty, ins.a[0])
            e = self.operand(s, ('i', 64), ins.a[1])
            rt = self.m.resolve(ins.ty)
            n = len(rt[1]) if rt[0] == 'struct' else rt[1]

            def put(v, idx, rt):
                if not isinstance(v, Agg):
                    n = len(rt[1]) if rt[0] == 'struct' else rt[1]
                    v = Agg([UNDEF] * n)
                l = list(v.v)
                if len(idx) == 1:
                    l[idx[0]] = e
                else:
                    l[idx[0]] = put(l[idx[0]], idx[1:], self.m.resolve(self.m.field(rt, idx[0])[1]))
                return Agg(l)
            return [(s, put(v, ins.extra, rt))]
        if op == 'freeze':
            v = self.operand(s, ins.ty, ins.a[0])
            return [(s, self.havoc(ins.ty) if v is UNDEF else v)]
        if op == 'fneg':
            v = self.operand(s, ins.ty, ins.a[0])
            return [(s, Term(('fneg', getattr(v, 'k', None))))]
        if op == 'fcmp':
            return self.fcmp(s, ins.extra, self.operand(s, ins.ty, ins.a[0]), self.operand(s, ins.ty, ins.a[1]), ins.ty)
        if op == 'atomicrmw':
            return self.atomicrmw(s, ins)
        if op == 'cmpxchg':
            return self.cmpxchg(s, ins)
        if op == 'fence':
            h = self.opts.get('fence')
            if h:
                h(self, s, ins)
            return [(s, None)]
        self.taint(s, 'instruction ' + op)
        return [(s, self.havoc(ins.ty) if ins.ty else UNDEF)]

    def gep(self, s, ins):
        base = self.operand(s, ins.a[0][0], ins.a[0][1])
        ty = ins.ty
        off = ZERO
        cur = [(s, ZERO)]
        for i, (it, iv) in enumerate(ins.a[1:]):
            if i == 0:
                sz = self.m.size(ty)
            else:
                rt = self.m.resolve(ty)
                if rt[0] == 'struct':
                    o, ty = self.m.field(rt, iv[1])
                    cur = [(x, o0 + o) for x, o0 in cur]
                    continue
                ty = rt[2]
                sz = self.m.size(ty)
            nx = []
            for x, o0 in cur:
                v = self.operand(x, it, iv)
                if v is UNDEF:
                    self.alarm(x, 'uninitialised-value', 'uninitialised index')
                    continue
                if not isinstance(v, Lin):
                    self.taint(x, 'gep index')
                    continue
                if it[1] < 64:
                    for y, sv in self.signed(x, v, it[1]):
                        nx.append((y, o0 + sv.scale(sz)))
                else:
                    # 64-bit index: negative values arise as wrapped numbers
                    if not v.t and v.c >= 1 << 63:
                        v = Lin(v.c - (1 << 64))
                        nx.append((x, o0 + v.scale(sz)))
                    elif v.t and not x.cons.entails_ge(Lin((1 << 63) - 1) - v):
                        for y, sv in self.signed(x, v, 64):
                            nx.append((y, o0 + sv.scale(sz)))
                    else:
                        nx.append((x, o0 + v.scale(sz)))
            cur = nx
        out = []
        for x, o in cur:
            if isinstance(base, Ptr):
                out.append((x, Ptr(base.r, x.cons.norm(base.off + o))))
            elif isinstance(base, Lin):
                out.append((x, x.cons.norm(base + o)))
            elif base is UNDEF:
                out.append((x, UNDEF))
            else:
                out.append((x, base if o == ZERO else UNDEF))
        return out

    def do_call(self, s, ins):
        callee, args = ins.a
        vals = [self.operand(s, t, v) for t, v, _ in args]
        if callee[0] == 'asm':
            self.taint(s, 'inline asm')
            return [(s, self.havoc(ins.ty) if ins.ty != IR.VOID else None)]
        if callee[0] == 'g':
            return self.call(s, callee[1], vals, ins, ins.ty)
        f = self.operand(s, IR.PTR, callee)
        if isinstance(f, Fn):
            return self.call(s, f.name, vals, ins, ins.ty)
        h = self.opts.get('indirect')
        if h:
            r = h(self, s, f, vals, ins)
            if r is not None:
                return r
        if f is UNDEF:
            self.alarm(s, 'memory-safety', 'call through an uninitialised function pointer')
            return []
        if isinstance(f, Lin) and f == ZERO:
            self.alarm(s, 'memory-safety', 'call through a null function pointer')
            return []
        self.taint(s, 'indirect call')
        return [(s, self.havoc(ins.ty) if ins.ty != IR.VOID else None)]

    # ---- compares
    def asint(self, s, v):
        if isinstance(v, Ptr):
            return self.addr_sym(s, v.r) + v.off
        return v

    def icmp(self, s, pred, a, b, ty):
        T, F = ONE, ZERO
        if a is UNDEF or b is UNDEF:
            return [(s, UNDEF)]
        if isinstance(a, (Fn, Term, Agg)) or isinstance(b, (Fn, Term, Agg)):
            if isinstance(a, Fn) or isinstance(b, Fn):
                e = a == b
                if pred in ('eq', 'ne'):
                    return [(s, T if e == (pred == 'eq') else F)]
            self.taint(s, 'icmp operand')
            t = s.copy()
            return [(s, T), (t, F)]
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r:
                return self.cmp_lin(s, pred, a.off, b.off)
            if pred in ('eq', 'ne'):
                # distinct live regions never alias; one past the end may coincide: excluded
                return [(s, F if pred == 'eq' else T)]
            # one layout of memory: static objects, then the heap, then the stack, growing as x86-64 Linux has it
            less = self.region_order(s, a.r, b.r)
            if less is not None:
                return [(s, T if less == (pred[1] == 'l') else F)]
            self.taint(s, 'ordering of unrelated pointers')
            t = s.copy()
            return [(s, T), (t, F)]
        if isinstance(a, Ptr) and isinstance(b, Lin) and b == ZERO or isinstance(b, Ptr) and isinstance(a, Lin) and a == ZERO:
            if pred in ('eq', 'ne'):
                return [(s, F if pred == 'eq' else T)]
        a = self.asint(s, a)
        b = self.asint(s, b)
        w = 64 if ty == IR.PTR else ty[1]
        if pred in ('slt', 'sgt', 'sle', 'sge'):
            out = []
            for x, sa in self.signed(s, a, w):
                for y, sb in self.signed(x, b, w):
                    out += self.cmp_lin(y, 'u' + pred[1:], sa, sb)
            return out
        if w == 64 and pred not in ('eq', 'ne') and a.t and b.t:
            ra, rb = (self.rid_of_addr(s.cons.norm(x)) for x in (a, b))
            if ra and rb and ra[0] != rb[0]:
                less = self.region_order(s, ra[0], rb[0])
                if less is not None and all(s.cons.entails_ge(o) and s.cons.entails_ge(s.mem[r].size - o) for r, o in (ra, rb)):
                    return [(s, T if less == (pred[1] == 'l') else F)]
        return self.cmp_lin(s, pred, a, b)

    def region_order(self, s, a, b):
        oa, ob = (MEMORY_ORDER.get(s.mem[r].kind.split('-')[0]) if isinstance(r, int) and r in s.mem else None for r in (a, b))
        if oa is None or ob is None:
            return None
        return oa < ob if oa != ob else a > b if oa == 3 else a < b

    def cmp_lin(self, s, pred, a, b):
        T, F = ONE, ZERO
        d = s.cons.norm(a - b)
        if not d.t:
            c = d.c
            r = {'eq': c == 0, 'ne': c != 0, 'ult': c < 0, 'ugt': c > 0, 'ule': c <= 0, 'uge': c >= 0}[pred]
            return [(s, T if r else F)]
        if pred in ('eq', 'ne'):
            out = []
            g = d.content()
            if d.c % g == 0:
                e = s.copy()
                if e.eq(d):
                    out.append((e, T if pred == 'eq' else F))
            lt = s.copy()
            if lt.ge(-d - 1):
                out.append((lt, F if pred == 'eq' else T))
            if s.ge(d - 1):
                out.append((s, F if pred == 'eq' else T))
            return out
        if pred == 'ult':
            yes, no = -d - 1, d
        elif pred == 'ugt':
            yes, no = d - 1, -d
        elif pred == 'ule':
            yes, no = -d, d - 1
        else:
            yes, no = d, -d - 1
        out = []
        y = s.copy()
        if y.ge(yes):
            out.append((y, T))
        if s.ge(no):
            out.append((s, F))
        return out

    def fcmp(self, s, pred, a, b, ty):
        h = self.opts.get('fcmp')
        if h:
            r = h(self, s, pred, a, b, ty)
            if r is not None:
                return r
        ka = getattr(a, 'k', None)
        kb = getattr(b, 'k', None)
        x, y = fvalue(ka), fvalue(kb)
        if x is not None and y is not None:
            nan = x != x or y != y
            if pred in ('true', 'false'):
                r = pred == 'true'
            elif pred in ('ord', 'uno'):
                r = nan == (pred == 'uno')
            elif nan:
                r = pred[0] == 'u'
            else:
                r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
            return [(s, ONE if r else ZERO)]
        key = ('fcmp', pred, ka, kb)
        v = s.ghost.get(key)
        if v is not None:
            return [(s, Lin(v))]
        t = s.copy()
        s.ghost[key] = 1
        t.ghost[key] = 0
        return [(s, ONE), (t, ZERO)]

    # ---- arithmetic
    def binop(self, s, op, a, b, ins):
        ty = self.m.resolve(ins.ty)
        if ty[0] == 'f':
            return [(s, Term((op, ty[1], getattr(a, 'k', None), getattr(b, 'k', None))))]
        if ty[0] != 'i':
            self.taint(s, 'vector op')
            return [(s, UNDEF)]
        w = ty[1]
        M = 1 << w
        if a is UNDEF or b is UNDEF:
            return [(s, UNDEF)]
        a = self.asint(s, a)
        b = self.asint(s, b)
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            if op == 'and' and isinstance(a, Fn) and isinstance(b, Lin) and b == ONE:
                return [(s, ZERO)]        # functions are aligned
            if isinstance(a, Fn) or isinstance(b, Fn):
                self.taint(s, 'arithmetic on a function address')
            else:
                self.taint(s, 'binop operand')
            return [(s, self.fresh('v', w))]
        if op in ('add', 'sub', 'mul') and 'nsw' in ins.extra and self.opts.get('nsw'):
            return self.nsw(s, op, a, b, w)
        if op == 'add':
            return self.fit(s, a + b, w)
        if op == 'sub':
            return self.fit(s, a - b, w)
        if op == 'mul':
            if not a.t or not b.t:
                c, l = (a.c, b) if not a.t else (b.c, a)
                if c == 0:
                    return [(s, ZERO)]
                if w > 1 and c >= M >> 1:
                    # negative constant
                    return self.fit(s, l.scale(c - M), w)
                return self.fit(s, l.scale(c), w)
            # pointer scaled by flag etc.
            r = self.mulnc(s, a, b)
            if r is None:
                return []
            return self.fit(r[0], r[1], w)
        if op in ('udiv', 'urem'):
            if not s.cons.entails_ge(b - 1):
                z = s.copy()
                if z.eq(b):
                    self.alarm(z, 'division-by-zero', 'division by zero')
                if not s.ge(b - 1):
                    return []
            return [(x, q if op == 'udiv' else r) for x, q, r in self.udivmod(s, a, b)]
        if op in ('sdiv', 'srem'):
            out = []
            for x, sa in self.signed(s, a, w):
                for y, sb in self.signed(x, b, w):
                    na = not y.cons.entails_ge(sa)
                    nb = not y.cons.entails_ge(sb)
                    A = -sa if na else sa
                    B = -sb if nb else sb
                    if not y.cons.entails_ge(B - 1):
                        z = y.copy()
                        if z.eq(B):
                            self.alarm(z, 'division-by-zero', 'division by zero')
                        if not y.ge(B - 1):
                            continue
                    for z, q, r in self.udivmod(y, A, B):
                        if op == 'sdiv':
                            v = -q if na != nb else q
                        else:
                            v = -r if na else r
                        out += self.fit(z, v, w)
            return out
        if op == 'shl':
            if b.t:
                return self.shift_var(s, op, a, b, w, ins)
            if b.c >= w:
                self.alarm(s, 'shift-range', 'shift amount %d out of range' % b.c)
                return []
            return self.fit(s, a.scale(1 << b.c), w)
        if op == 'lshr':
            if b.t:
                return self.shift_var(s, op, a, b, w, ins)
            if b.c >= w:
                self.alarm(s, 'shift-range', 'shift amount %d out of range' % b.c)
                return []
            r = self.split(s, a, 1 << b.c)
            return [(r[0], r[1])] if r else []
        if op == 'ashr':
            if b.t:
                return self.shift_var(s, op, a, b, w, ins)
            out = []
            for x, sa in self.signed(s, a, w):
                r = self.split(x, sa, 1 << b.c)
                if r:
                    out += self.fit(r[0], r[1], w)
            return out
        if op in ('and', 'or', 'xor'):
            return self.bitwise(s, op, a, b, w)
        self.taint(s, 'binop ' + op)
        return [(s, self.fresh('v', w))]

    def nsw(self, s, op, a, b, w):
        out = []
        for x, sa in self.signed(s, a, w):
            for y, sb in self.signed(x, b, w):
                if op == 'mul' and sa.t and sb.t:
                    na = not y.cons.entails_ge(sa)
                    nb = not y.cons.entails_ge(sb)
                    r = self.mulnc(y, -sa if na else sa, -sb if nb else sb)
                    if r is None:
                        continue
                    y, p = r
                    v = -p if na != nb else p
                else:
                    v = sa + sb if op == 'add' else sa - sb if op == 'sub' else (sa.scale(sb.c) if not sb.t else sb.scale(sa.c))
                H = 1 << (w - 1)
                over = y.copy()
                bad = False
                if over.ge(v - H):
                    bad = True
                under = y.copy()
                if under.ge(-v - H - 1):
                    bad = True
                if bad:
                    self.alarm(y, 'signed-overflow', 'signed %s may overflow' % op)
                else:
                    self.ok('signed-overflow')
                if y.ge(Lin(H - 1) - v) and y.ge(v + H):
                    out += self.fit(y, v, w)
        return out

    def shift_var(self, s, op, a, b, w, ins):
        lo, hi = s.cons.bounds(b)
        if hi is None or hi >= w:
            z = s.copy()
            if z.ge(b - w):
                self.alarm(z, 'shift-range', 'shift amount may reach the operand width')
            if not s.ge(Lin(w - 1) - b):
                return []
            lo, hi = s.cons.bounds(b)
        out = []
        for k in range(lo, hi + 1):
            x = s.copy()
            if x.eq(b - k):
                out += self.binop(x, op, x.cons.norm(a), Lin(k), ins)
        return out

    def bitwise(self, s, op, a, b, w):
        M1 = (1 << w) - 1
        if not a.t and not b.t:
            r = a.c & b.c if op == 'and' else a.c | b.c if op == 'or' else a.c ^ b.c
            return [(s, Lin(r))]
        if a == b:
            return [(s, ZERO if op == 'xor' else a)]
        if not a.t:
            a, b = b, a
        if not b.t:
            c = b.c
            if c == 0:
                return [(s, ZERO if op == 'and' else a)]
            if c == M1:
                return [(s, a if op == 'and' else b if op == 'or' else Lin(M1) - a)]
            if s.ghost.get(('bf', w)) is not None and self.bf_match(s, a, s.ghost[('bf', w)], w) is not None and op == 'and':
                pass
            r = self.andc(s, a, c, w)
            if r is None:
                return []
            s, n = r
            if op == 'and':
                return [(s, n)]
            if op == 'or':
                return [(s, s.cons.norm(a - n + c))]
            return [(s, s.cons.norm(a + c - n.scale(2)))]
        # isolating / clearing the lowest set bit
        d = s.cons.norm(a - b)
        if op == 'and' and not d.t and abs(d.c) == 1:
            x = a if d.c == 1 else b          # x & (x-1)
            return self.clear_low(s, x, w)
        sm = s.cons.norm(a + b)
        if op == 'and' and not sm.t and sm.c == M1 + 1:
            return self.lowbit(s, a, b, w)
        # x & (2^k - 1) with a declared power of two
        if op == 'and':
            for p in s.ghost.get('pow2', ()):
                p = s.cons.norm(p)
                for x, m in ((a, b), (b, a)):
                    if s.cons.norm(m - p + 1) == ZERO:
                        return self.mod_pow2(s, x, p, w)
        if self.opts.get('wrapany'):
            return [(s, self.fresh('bits', w))]
        r = self.bitop(s, op, a, b, w)
        if r is None:
            self.taint(s, 'bit operation')
            return [(s, self.fresh('v', w))]
        return [r]

    def mod_pow2(self, s, x, p, w):
        """x & (p-1), p a power of two (symbolic)"""
        out = []
        lt = s.copy()
        if lt.ge(p - x - 1):
            out.append((lt, lt.cons.norm(x)))
        if s.ge(x - p):
            # x == p  ->  0 ; beyond: remainder
            e = s.copy()
            if e.eq(x - p):
                out.append((e, ZERO))
            if s.ge(x - p - 1):
                key = ('modp', s.cons.norm(x), p)
                m = self.fsym(s, key, (key[1], p), lambda: new_sym('mod', 0, (1 << w) - 1))
                if s.ge(p - 1 - sym(m)):
                    out.append((s, s.cons.norm(sym(m))))
        return out

    def clear_low(self, s, x, w):
        """x & (x-1)  (x>=1): 0 iff x is a power of two"""
        out = []
        if any(s.cons.norm(x - p) == ZERO for p in s.ghost.get('pow2', ())):
            return [(s, ZERO)]
        z = s.copy()
        if z.eq(x):
            out.append((z, ZERO))
        if not s.ge(x - 1):
            return out
        lo, hi = s.cons.bounds(x)
        for i in range(w):
            if lo is not None and (1 << i) < lo or hi is not None and (1 << i) > hi:
                continue
            e = s.copy()
            if e.eq(x - (1 << i)):
                out.append((e, ZERO))
        # not a power of two: result in [1, x-1]; represented between consecutive powers
        key = ('clr', x, w)
        for i in range(1, w):
            if hi is not None and (1 << i) + 1 > hi or lo is not None and (2 << i) - 1 < lo:
                continue
            e = s.copy()
            if e.ge(x - (1 << i) - 1) and e.ge(Lin((2 << i) - 1) - x):
                m = self.fsym(e, key + (i,), (x,), lambda: new_sym('clr', 1 << i, (2 << i) - 1))
                if e.ge(x - 1 - sym(m)):
                    out.append((e, sym(m)))
        return out

    def lowbit(self, s, a, b, w):
        out = []
        z = s.copy()
        if z.eq(a):
            out.append((z, ZERO))
        for i in range(w):
            e = s.copy()
            q = sym(new_sym('odd', 0, (1 << (w - 1 - i)) - 1))
            if e.eq(a - q.scale(2 << i) - (1 << i)):
                out.append((e, Lin(1 << i)))
        return out

    def cast(self, s, ins):
        v = self.operand(s, ins.extra, ins.a[0])
        op = ins.op
        st = self.m.resolve(ins.extra)
        dt = self.m.resolve(ins.ty)
        if v is UNDEF:
            return [(s, UNDEF)]
        if op == 'zext':
            return [(s, v)]
        if op == 'sext':
            if not isinstance(v, Lin):
                return [(s, v)]
            out = []
            for x, sv in self.signed(s, v, st[1]):
                out += self.fit(x, sv, dt[1])
            return out
        if op == 'trunc':
            v = self.asint(s, v)
            if isinstance(v, Fn):
                self.taint(s, 'trunc of function address')
                return [(s, self.fresh('v', dt[1]))]
            if not isinstance(v, Lin):
                self.taint(s, 'trunc operand')
                return [(s, self.fresh('v', dt[1]))]
            r = self.split(s, v, 1 << dt[1])
            return [(r[0], r[2])] if r else []
        if op == 'ptrtoint':
            return [(s, self.asint(s, v))]
        if op == 'inttoptr':
            if isinstance(v, Lin) and v.t:
                r = self.rid_of_addr(s.cons.norm(v))
                if r:
                    return [(s, Ptr(r[0], r[1]))]
            return [(s, v)]
        if op in ('bitcast', 'addrspacecast'):
            if st[0] == 'f' and dt[0] == 'i':
                return [(s, self.f2int(s, v, dt[1]))]
            if st[0] == 'i' and dt[0] == 'f':
                return [(s, self.int2f(s, v, dt[1]))]
            return [(s, v)]
        if op in ('fptrunc', 'fpext'):
            return [(s, Term((op, dt[1], getattr(v, 'k', None))))]
        if op in ('uitofp', 'sitofp'):
            return [(s, Term((op, dt[1], v)))]
        if op in ('fptoui', 'fptosi'):
            key = (op, getattr(v, 'k', None), dt[1])
            m = self.memo.get(key)
            if m is None:
                m = self.memo[key] = new_sym('fti', 0, (1 << dt[1]) - 1)
            return [(s, sym(m))]
        self.taint(s, op)
        return [(s, self.havoc(ins.ty))]

    def f2int(self, s, v, w):
        if isinstance(v, Term):
            if v.k[0] == 'f' and isinstance(v.k[2], int):
                return Lin(v.k[2])
            if v.k[0] == 'bits':
                return v.k[2]
            key = ('f2i', v.k)
            m = self.memo.get(key)
            if m is None:
                m = self.memo[key] = new_sym('fbits', 0, (1 << w) - 1)
            return sym(m)
        return v

    def int2f(self, s, v, w):
        if isinstance(v, Lin):
            v = s.cons.norm(v)
            if not v.t:
                return Term(('f', w, v.c))
            return Term(('bits', w, v))
        return v

    # ---- atomics (sequential default)
    def atomicrmw(self, s, ins):
        w, order = ins.extra
        p = self.operand(s, IR.PTR, ins.a[0])
        v = self.operand(s, ins.ty, ins.a[1])
        h = self.opts.get('atomicrmw')
        if h:
            return h(self, s, p, v, w, order, ins)
        out = []
        for x, old in self.load(s, p, ins.ty, 'atomic update'):
            bits = ins.ty[1] if ins.ty[0] == 'i' else 64
            if w == 'xchg':
                nv = [(x, v)]
            elif w in ('add', 'sub'):
                nv = self.fit(x, old + v if w == 'add' else old - v, bits) if isinstance(old, Lin) else [(x, UNDEF)]
            elif w in ('and', 'or', 'xor'):
                nv = self.bitwise(x, w, self.asint(x, old), self.asint(x, v), bits)
            else:
                self.taint(x, 'atomicrmw ' + w)
                nv = [(x, self.havoc(ins.ty))]
            for y, z in nv:
                for t in self.store(y, p, z, self.m.size(ins.ty), 'atomic update'):
                    out.append((t, t.n(old)))
        return out

    def cmpxchg(self, s, ins):
        p = self.operand(s, IR.PTR, ins.a[0])
        c = self.operand(s, ins.ty, ins.a[1])
        v = self.operand(s, ins.ty, ins.a[2])
        h = self.opts.get('cmpxchg')
        if h:
            return h(self, s, p, c, v, ins)
        out = []
        for x, old in self.load(s, p, ins.ty, 'atomic update'):
            for y, e in self.icmp(x, 'eq', old, c, ins.ty):
                if e == ONE:
                    if ins.extra[0]:
                        z = y.copy()
                        out.append((z, Agg([z.n(old), ZERO])))      # weak: spurious failure
                    for t in self.store(y, p, v, self.m.size(ins.ty), 'atomic update'):
                        out.append((t, Agg([t.n(old), ONE])))
                else:
                    out.append((y, Agg([y.n(old), ZERO])))
        return out
