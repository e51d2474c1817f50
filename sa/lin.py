"""Linear-inequality domain over integer symbols (convex polyhedra with integer tightening).

A `Cons` is one polyhedron: solved equalities, per-symbol bounds and linear inequalities.
Emptiness, entailment and bounds are decided by projection (Fourier-Motzkin elimination) on
the connected component of the question.  Elimination that grows too large gives up in the
conservative direction ("not empty") and is counted.
"""
from math import gcd
from array import array

LO = []      # base bounds per symbol
HI = []
NAME = []
stats = {'fm': 0, 'fm_giveup': 0, 'cache': 0}
FM_CAP = 700


RIGID = set()      # symbols never replaced by constants (witness indexes): keeps them common to all states


def new_sym(name, lo=None, hi=None):
    LO.append(lo)
    HI.append(hi)
    NAME.append('%s#%d' % (name, len(NAME)))
    return len(NAME) - 1


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        s = ''
        for x, k in self.t:
            s += (' + ' if s and k > 0 else ' - ' if s else '-' if k < 0 else '') + ('%d*' % abs(k) if abs(k) != 1 else '') + NAME[x]
        if self.c or not s:
            s += (' + %d' % self.c if s and self.c >= 0 else ' - %d' % -self.c if s else '%d' % self.c)
        return s

    def isconst(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, tuple((s, c * k) for s, c in self.t))

    def coef(self, s):
        for x, k in self.t:
            if x == s:
                return k
        return 0

    def syms(self):
        return [s for s, _ in self.t]

    def content(self):
        g = 0
        for _, k in self.t:
            g = gcd(g, k)
        return g

    def divexact(self, k):
        return Lin(self.c // k, tuple((s, c // k) for s, c in self.t))

    def subst(self, m):
        """m: sym -> Lin"""
        hit = False
        for s, _ in self.t:
            if s in m:
                hit = True
                break
        if not hit:
            return self
        c = self.c
        d = {}
        for s, k in self.t:
            r = m.get(s)
            if r is None:
                d[s] = d.get(s, 0) + k
            else:
                c += r.c * k
                for s2, k2 in r.t:
                    d[s2] = d.get(s2, 0) + k * k2
        return Lin(c, tuple(sorted((s, k) for s, k in d.items() if k)))


def const(c):
    return Lin(c)


def sym(s):
    return Lin(0, ((s, 1),))


ZERO = Lin(0)
ONE = Lin(1)

_fmcache = {}


_lib = None


def _load():
    """the same elimination compiled; the interpreted one is used when it cannot be built or its arithmetic overflows"""
    global _lib, _out
    import ctypes, os, subprocess, hashlib
    here = os.path.dirname(os.path.abspath(__file__))
    src = os.path.join(here, 'fm.cpp')
    try:
        h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
        d = os.path.join(os.path.dirname(here), '.build')
        so = os.path.join(d, 'fm-%s.so' % h)
        if not os.path.exists(so):
            os.makedirs(d, exist_ok=True)
            tmp = '%s.%d' % (so, os.getpid())
            subprocess.run(['g++', '-O2', '-shared', '-fPIC', '-o', tmp, src], check=True, capture_output=True, timeout=120)
            os.replace(tmp, so)
        _lib = ctypes.CDLL(so).fm_run
        P = ctypes.POINTER(ctypes.c_int64)
        _lib.argtypes = [ctypes.c_void_p, ctypes.c_int64, ctypes.c_int64, ctypes.c_int64, ctypes.c_void_p]
        _lib.restype = ctypes.c_int
        _out = (ctypes.c_int64 * 4)()
        _lib._addr = ctypes.addressof(_out)
    except Exception:
        _lib = False


def _native(cons, keep):
    """None: use the interpreted version; else (status, lo, hi)"""
    if _lib is None:
        _load()
    if not _lib:
        return None
    flat = []
    for l in cons:
        flat.append(len(l.t))
        flat.append(l.c)
        for x in l.t:
            flat.extend(x)
    try:
        a = array('q', flat)
    except OverflowError:
        return None
    r = _lib(a.buffer_info()[0], len(cons), keep, FM_CAP, _lib._addr)
    if r == 2:
        return None
    return r, (_out[1] if _out[0] else None) if r != 1 else 0, (_out[3] if _out[2] else None) if r != 1 else 0


def fm_empty(cons):
    """cons: iterable of Lin (each >= 0). True if the integer relaxation is empty."""
    key = frozenset(cons)
    r = _fmcache.get(key)
    if r is not None:
        stats['cache'] += 1
        return r
    stats['fm'] += 1
    r = _native(key, -1)
    if r is not None:
        r = r[0] == 1
    else:
        r = _fm(list(key), None) is None
    if len(_fmcache) > 400000:
        _fmcache.clear()
    _fmcache[key] = r
    return r


def _norm(t, c):
    """normalise sum t + c >= 0 by the content of t"""
    g = 0
    for _, k in t:
        g = gcd(g, k)
        if g == 1:
            return t, c
    if g > 1:
        return tuple((s, k // g) for s, k in t), c // g      # floor
    return t, c


def _fm(cons, keep):
    """eliminate every symbol but `keep`; None when empty, else list of (t, c) left"""
    cur = {}
    for l in cons:
        t, c = _norm(l.t, l.c)
        if not t:
            if c < 0:
                return None
            continue
        o = cur.get(t)
        if o is None or c < o:
            cur[t] = c
    lob, hib = {}, {}
    for t, c in cur.items():
        if len(t) == 1:
            s, k = t[0]
            if k > 0:
                lob[s] = -(c // k)
            else:
                hib[s] = c // (-k)
    # constraints implied by the bounds alone carry nothing
    for t in [t for t in cur if len(t) > 1]:
        m = cur[t]
        for s, k in t:
            x = (lob if k > 0 else hib).get(s)
            if x is None:
                m = None
                break
            m += k * x
        if m is not None and m >= 0:
            del cur[t]
    while True:
        # opposite-constraint check
        for t, c in cur.items():
            nt = tuple((s, -k) for s, k in t)
            o = cur.get(nt)
            if o is not None and o + c < 0:
                return None
        pos = {}
        neg = {}
        for t, c in cur.items():
            for s, k in t:
                if s == keep:
                    continue
                (pos if k > 0 else neg).setdefault(s, []).append((t, c, k))
        allv = set(pos) | set(neg)
        if not allv:
            break
        # pick the variable with the least growth
        best = None
        for s in allv:
            p = len(pos.get(s, ()))
            n = len(neg.get(s, ()))
            cost = p * n - p - n
            if best is None or cost < best[0] or (cost == best[0] and s > best[1]):
                best = (cost, s)
        v = best[1]
        P = pos.get(v, [])
        N = neg.get(v, [])
        for t, c, _ in P:
            cur.pop(t, None)
        for t, c, _ in N:
            cur.pop(t, None)
        if len(P) * len(N) + len(cur) > FM_CAP:
            stats['fm_giveup'] += 1
            return list(cur.items())      # projection over-approximated: drop constraints on v
        for t1, c1, k1 in P:
            for t2, c2, k2 in N:
                g = gcd(k1, -k2)
                m1 = -k2 // g
                m2 = k1 // g
                d = {}
                for s, k in t1:
                    d[s] = k * m1
                for s, k in t2:
                    x = d.get(s, 0) + k * m2
                    if x:
                        d[s] = x
                    else:
                        d.pop(s, None)
                c = c1 * m1 + c2 * m2
                if not d:
                    if c < 0:
                        return None
                    continue
                t, c = _norm(tuple(sorted(d.items())), c)
                if len(t) == 1:
                    s, k = t[0]
                    if k > 0:
                        x = -(c // k)
                        if x > lob.get(s, x - 1):
                            lob[s] = x
                        if x > hib.get(s, x):
                            return None
                    else:
                        x = c // (-k)
                        if x < hib.get(s, x + 1):
                            hib[s] = x
                        if x < lob.get(s, x):
                            return None
                else:
                    m = c
                    for s, k in t:
                        x = (lob if k > 0 else hib).get(s)
                        if x is None:
                            break
                        m += k * x
                    else:
                        if m >= 0:
                            continue
                o = cur.get(t)
                if o is None or c < o:
                    cur[t] = c
    return list(cur.items())


class Cons:
    """immutable polyhedron"""
    __slots__ = ('eqs', 'bnd', 'ine')

    def __init__(self, eqs=None, bnd=None, ine=frozenset()):
        self.eqs = eqs or {}
        self.bnd = bnd or {}
        self.ine = ine

    def key(self):
        return (frozenset(self.eqs.items()), frozenset(self.bnd.items()), self.ine)

    def norm(self, l):
        return l.subst(self.eqs) if self.eqs and l.t else l

    def b(self, s):
        r = self.bnd.get(s)
        if r is None:
            return (LO[s], HI[s])
        return r

    def interval(self, l):
        lo = hi = l.c
        for s, k in l.t:
            a, b = self.b(s)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    def slice(self, syms):
        seen = set(syms)
        out = []
        rest = list(self.ine)
        ch = True
        while ch:
            ch = False
            nr = []
            for l in rest:
                if any(s in seen for s, _ in l.t):
                    out.append(l)
                    for s, _ in l.t:
                        if s not in seen:
                            seen.add(s)
                            ch = True
                else:
                    nr.append(l)
            rest = nr
        for s in seen:
            a, b = self.b(s)
            if a is not None:
                out.append(Lin(-a, ((s, 1),)))
            if b is not None:
                out.append(Lin(b, ((s, -1),)))
        return out

    def empty_with(self, l):
        """is self and l>=0 empty (l normalised)"""
        if not l.t:
            return l.c < 0
        lo, hi = self.interval(l)
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
        sl = self.slice(l.syms())
        sl.append(l)
        return fm_empty(sl)

    def entails_ge(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c >= 0
        lo, hi = self.interval(l)
        if lo is not None and lo >= 0:
            return True
        return self.empty_with(Lin(-l.c - 1, tuple((s, -k) for s, k in l.t)))

    def entails_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        g = l.content()
        if l.c % g:
            return False
        return self.entails_ge(l) and self.entails_ge(-l)

    def possible_ge(self, l):
        return not self.empty_with(self.norm(l))

    def add_ge(self, l):
        """None when empty"""
        l = self.norm(l)
        if not l.t:
            return self if l.c >= 0 else None
        t, c = _norm(l.t, l.c)
        l = Lin(c, t)
        lo, hi = self.interval(l)
        if lo is not None and lo >= 0:
            return self
        if hi is not None:
            if hi < 0:
                return None
            if hi == 0:
                # every symbol pinned to the bound that maximises l
                r = self
                for s, k in l.t:
                    a, b = self.b(s)
                    if a == b:
                        continue
                    r = r.add_eq(Lin(-(b if k > 0 else a), ((s, 1),)))
                    if r is None:
                        return None
                return r
        if l in self.ine:
            return self
        if self.empty_with(l):
            return None
        n = -l
        if n in self.ine:
            return self.add_eq(l)
        if len(t) == 1:
            s, k = t[0]
            a, b = self.b(s)
            if k > 0:      # k==1 after norm
                a = -c if a is None else max(a, -c)
            else:
                b = c if b is None else min(b, c)
            if a is not None and a == b:
                return self.add_eq(Lin(-a, ((s, 1),)))
            nb = dict(self.bnd)
            nb[s] = (a, b)
            return Cons(self.eqs, nb, self.ine)
        # keep only the tightest among parallel constraints
        ine = self.ine
        for o in ine:
            if o.t == t:
                if o.c <= c:
                    return self
                ine = ine - {o}
                break
        r = Cons(self.eqs, self.bnd, ine | {l})
        # implied equality?
        if self.empty_with(Lin(l.c - 1, l.t)):
            return r.add_eq(l)
        return r

    def force_ge(self, l):
        """add_ge, but a relation between symbols is recorded even when the bounds already imply it (bounds may be widened later)"""
        l = self.norm(l)
        if len(l.t) < 2:
            return self.add_ge(l)
        t, c = _norm(l.t, l.c)
        l = Lin(c, t)
        lo, hi = self.interval(l)
        if lo is None or lo < 0:
            return self.add_ge(l)
        for o in self.ine:
            if o.t == t:
                return self
        return Cons(self.eqs, self.bnd, self.ine | {l})

    def add_eq(self, l):
        l = self.norm(l)
        if not l.t:
            return self if l.c == 0 else None
        g = l.content()
        if l.c % g:
            return None
        if g > 1:
            l = l.divexact(g)
        if RIGID and len(l.t) == 1 and l.t[0][0] in RIGID:
            y, k = l.t[0]
            v = -l.c * k           # k is +-1 after division
            a, b = self.b(y)
            if a is not None and v < a or b is not None and v > b:
                return None
            if a == b == v:
                return self
            if self.empty_with(l) or self.empty_with(-l):
                return None
            nb = dict(self.bnd)
            nb[y] = (v, v)
            r = Cons(self.eqs, nb, frozenset())
            for o in self.ine:
                r = r.force_ge(o)
                if r is None:
                    return None
            return r
        # pick a symbol with unit coefficient (newest first, rigid ones last)
        pick = None
        for s, k in l.t:
            if k in (1, -1):
                if pick is None or (s not in RIGID, s) > (pick[0] not in RIGID, pick[0]):
                    pick = (s, k)
        if pick is None:
            # solve by introducing a parameter: pick smallest |coef|
            s, k = min(l.t, key=lambda x: (abs(x[1]), -x[0]))
            # k*s + rest = 0 ; write rest = sum r_i x_i + c ; x-part: s = q - sum floor(r_i/k) x_i ...
            ak = abs(k)
            sg = 1 if k > 0 else -1
            q = new_sym('q')
            # s = sg*... : let s' = s + sum (r_i // ak)*sg x_i + (c//ak)*sg  => ak*s' = -sg*sum (r_i%ak) x_i ...
            d = {q: 1}
            c0 = 0
            for x, r in l.t:
                if x == s:
                    continue
                f = (r * sg) // ak
                if f:
                    d[x] = d.get(x, 0) - f
            f = (l.c * sg) // ak
            c0 = -f
            rhs = Lin(c0, tuple(sorted((x, v) for x, v in d.items() if v)))
            r = self._substitute(s, rhs)
            if r is None:
                return None
            return r.add_eq(l)
        s, k = pick
        rest = Lin(l.c, tuple((x, c) for x, c in l.t if x != s))
        rhs = -rest if k == 1 else rest
        return self._substitute(s, rhs)

    def _substitute(self, s, rhs):
        m = {s: rhs}
        eqs = {}
        for x, e in self.eqs.items():
            eqs[x] = e.subst(m)
        eqs[s] = rhs
        a, b = self.b(s)
        nb = self.bnd
        if s in nb:
            nb = dict(nb)
            nb.pop(s)
        keep = []
        redo = []
        for l in self.ine:
            if l.coef(s):
                redo.append(l.subst(m))
            else:
                keep.append(l)
        r = Cons(eqs, nb, frozenset(keep))
        if a is not None:
            r = r.add_ge(rhs - a)
            if r is None:
                return None
        if b is not None:
            r = r.add_ge(Lin(b) - rhs)
            if r is None:
                return None
        for l in redo:
            r = r.add_ge(l)
            if r is None:
                return None
        return r

    def bounds(self, l):
        """tightest integer bounds of l derivable by projection"""
        l = self.norm(l)
        if not l.t:
            return (l.c, l.c)
        if len(l.t) == 1 and not any(x.coef(l.t[0][0]) for x in self.ine):
            return self.interval(l)
        z = new_sym('z')
        sl = self.slice(l.syms())
        e = l - sym(z)
        sl.append(e)
        sl.append(-e)
        lo, hi = self.interval(l)
        nat = _native(sl, z)
        if nat is not None:
            if nat[0] == 1:
                return (0, -1)
            if nat[1] is not None:
                lo = nat[1] if lo is None else max(lo, nat[1])
            if nat[2] is not None:
                hi = nat[2] if hi is None else min(hi, nat[2])
            return lo, hi
        r = _fm(sl, z)
        if r is None:
            return (0, -1)
        for t, c in r:
            if len(t) != 1 or t[0][0] != z:
                continue
            k = t[0][1]
            if k > 0:
                v = -(c // k)
                lo = v if lo is None else max(lo, v)
            else:
                v = c // (-k)
                hi = v if hi is None else min(hi, v)
        return lo, hi

    def show(self, syms=None):
        out = []
        for l in self.ine:
            if syms is None or any(s in syms for s, _ in l.t):
                out.append('%r >= 0' % l)
        for s, (a, b) in self.bnd.items():
            if syms is None or s in syms:
                out.append('%s in [%s,%s]' % (NAME[s], a, b))
        return out
