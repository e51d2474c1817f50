"""Exact bit-level dataflow over the IR of one witness function.

The abstract value of an IR value is, for each of its bits, the Boolean function of the
parameter bits it depends on, kept as a reduced ordered decision diagram; control-flow joins
merge values gated by the condition under which each edge is taken, so every instruction is
visited once per loop iteration and paths are never enumerated.  Anything not modelled is an
unconstrained fresh bit; an obligation is refuted only if it fails whatever those bits are.
"""
import os
import re
import sys
import time
import ir

sys.setrecursionlimit(20000)


class Blown(Exception):
    pass


class BDD:
    LIMIT = 3000000

    def __init__(self, deadline):
        self.var = [1 << 30, 1 << 30]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.cache = {}
        self.n = 0
        self.deadline = deadline

    def new(self):
        v = self.n
        self.n += 1
        return self.mk(v, 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.var)
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = r
            if r & 0x3fff == 0 and (r > self.LIMIT or time.time() > self.deadline):
                raise Blown('dependency functions too large')
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        if g == f:
            g = 1
        if h == f:
            h = 0
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        V, L, H = self.var, self.lo, self.hi
        v = min(V[f], V[g], V[h])
        f0, f1 = (L[f], H[f]) if V[f] == v else (f, f)
        g0, g1 = (L[g], H[g]) if V[g] == v else (g, g)
        h0, h1 = (L[h], H[h]) if V[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def neg(self, f):
        return self.ite(f, 0, 1)

    def conj(self, f, g):
        return self.ite(f, g, 0)

    def disj(self, f, g):
        return self.ite(f, 1, g)

    def xor(self, f, g):
        if f == g:
            return 0
        return self.ite(f, self.neg(g), g)

    def forall_from(self, f, v0):
        """universally quantify every variable >= v0 (they are last in the order)"""
        memo = {}

        def go(x):
            if x < 2:
                return x
            if self.var[x] >= v0:
                return 0      # depends on such a variable: not constant, some value makes it false
            r = memo.get(x)
            if r is None:
                r = memo[x] = self.mk(self.var[x], go(self.lo[x]), go(self.hi[x]))
            return r
        return go(f)

    def sat(self, f):
        a = {}
        while f > 1:
            if self.lo[f]:
                a[self.var[f]] = 0
                f = self.lo[f]
            else:
                a[self.var[f]] = 1
                f = self.hi[f]
        return a


class St:
    __slots__ = ('g', 'env', 'mem')

    def __init__(self, g, env, mem):
        self.g = g
        self.env = env
        self.mem = mem


class Analysis:
    VISITS = 400

    def __init__(self, mod, dem, opts, deadline):
        self.m = mod
        self.dem = dem
        self.scale = opts.get('scale', 1)
        self.lsb = opts.get('lsb', False)
        self.b = BDD(deadline)
        self.fresh0 = None
        self.oblig = {}
        self.alarms = {}
        self.unmod = {}
        self.reached = set()
        self.funcs = {}
        self.visits = 0
        self.joins = 0
        self.subp = {}

    # ---- widths and constants
    def w(self, ty):
        ty = self.m.resolve(ty) if ty[0] == 'named' else ty
        if ty[0] == 'i':
            n = ty[1]
        elif ty[0] == 'ptr':
            n = self.m.ptrbits
        elif ty[0] == 'f':
            return ty[1]
        else:
            raise Blown('type %r' % (ty,))
        if self.scale > 1 and n > 1:
            n = max(1, n // self.scale)
        return n

    def cscale(self, c, n):
        """a constant of an n-bit type, rescaled with the width"""
        s = self.scale
        c &= (1 << n) - 1
        if s == 1 or n == 1:
            return c
        if c <= 3:
            return c
        full = (1 << n) - 1
        inv = full ^ c
        if inv <= 2:
            return ((1 << max(1, n // s)) - 1) ^ inv
        for k in range(s, n + 1, s):
            if c == (1 << k):
                return 1 << (k // s)
            if c == (1 << k) - 1:
                return (1 << (k // s)) - 1
            if inv == (1 << k) - 1:
                return ((1 << max(1, n // s)) - 1) ^ ((1 << (k // s)) - 1)
        for k in (128, 64, 32, 16):
            if c == k:
                return k // s
            if c == k - 1:
                return k // s - 1
        raise Blown('constant %d is not uniform in the width' % c)

    def const(self, c, n):
        return [(c >> i) & 1 for i in range(n)]

    def fresh(self, n):
        return [self.b.new() for _ in range(n)]

    def fresh_ty(self, ty):
        ty = self.m.resolve(ty) if ty[0] == 'named' else ty
        if ty[0] == 'struct':
            return tuple(self.fresh_ty(t) for t in ty[1])
        if ty[0] == 'arr':
            return tuple(self.fresh_ty(ty[2]) for _ in range(ty[1]))
        return self.fresh(self.w(ty))

    def val(self, v, ty, env):
        k = v[0]
        if k == 'l':
            r = env.get(v[1])
            if r is None:
                raise Blown('value %%%s' % v[1])
            return r
        ty = self.m.resolve(ty) if ty[0] == 'named' else ty
        if k == 'int':
            return self.const(self.cscale(v[1], ty[1] if ty[0] == 'i' else self.m.ptrbits), self.w(ty))
        if k in ('null', 'zero'):
            if ty[0] == 'struct':
                return tuple(self.val(('zero',), t, env) for t in ty[1])
            if ty[0] == 'arr':
                return tuple(self.val(('zero',), ty[2], env) for _ in range(ty[1]))
            return self.const(0, self.w(ty))
        if k == 'undef':
            return self.fresh_ty(ty)
        if k == 'flt':
            return self.const(self.flt(v[1], ty[1]), ty[1])
        if k == 'cexpr' and v[1] == 'inttoptr':
            return self.ext(self.val(v[3], v[2], env), self.w(ty), 0)
        self.note('operand %s' % k)
        return self.fresh_ty(ty)

    def flt(self, t, bits):
        import struct
        if t.startswith('0x'):
            d = int(t[2:], 16)
            if bits == 64:
                return d
            x = struct.unpack('<d', struct.pack('<Q', d))[0]
            if x != x:
                return 0x7fc00000 | (d >> 63 << 31)
            return struct.unpack('<I', struct.pack('<f', x))[0]
        x = float(t)
        return struct.unpack('<I', struct.pack('<f', x))[0] if bits == 32 else struct.unpack('<Q', struct.pack('<d', x))[0]

    def note(self, what):
        self.unmod[what] = self.unmod.get(what, 0) + 1

    # ---- arithmetic on bit vectors (least significant first)
    def ext(self, a, n, fill):
        a = list(a)
        if len(a) >= n:
            return a[:n]
        return a + [fill] * (n - len(a))

    def add(self, a, c, cin=0):
        b = self.b
        out = []
        for x, y in zip(a, c):
            t = b.xor(x, y)
            out.append(b.xor(t, cin))
            cin = b.ite(t, cin, x)
        return out, cin

    def inv(self, a):
        return [self.b.neg(x) for x in a]

    def sub(self, a, c):
        """difference and no-borrow"""
        return self.add(a, self.inv(c), 1)

    def mux(self, c, a, d):
        if isinstance(a, tuple):
            return tuple(self.mux(c, x, y) for x, y in zip(a, d))
        if a is d:
            return a
        return [self.b.ite(c, x, y) for x, y in zip(a, d)]

    def isconst(self, a):
        if any(x > 1 for x in a):
            return None
        return sum(x << i for i, x in enumerate(a))

    def mul(self, a, c):
        n = len(a)
        if self.isconst(a) is not None:
            a, c = c, a
        acc = [0] * n
        for i in range(n):
            if c[i] == 0:
                continue
            acc, _ = self.add(acc, [0] * i + [self.b.conj(c[i], x) for x in a[:n - i]])
        return acc

    def divmod(self, a, d):
        n = len(a)
        k = self.isconst(d)
        if k and k & (k - 1) == 0:
            s = k.bit_length() - 1
            return a[s:] + [0] * s, a[:s] + [0] * (n - s)
        r = [0] * (n + 1)
        dd = list(d) + [0]
        q = [0] * n
        for i in reversed(range(n)):
            r = [a[i]] + r[:n]
            t, ge = self.sub(r, dd)
            q[i] = ge
            r = [self.b.ite(ge, x, y) for x, y in zip(t, r)]
        return q, r[:n]

    def absv(self, a):
        neg, _ = self.add(self.inv(a), self.const(1, len(a)))
        return self.mux(a[-1], neg, a)

    def ult(self, a, c):
        b = self.b
        r = 0
        for x, y in zip(a, c):
            # r = (x < y) or (x == y and r)
            t = b.xor(x, y)
            r = b.ite(t, y, r)
        return r

    def slt(self, a, c):
        a = a[:-1] + [self.b.neg(a[-1])]
        c = c[:-1] + [self.b.neg(c[-1])]
        return self.ult(a, c)

    def eq(self, a, c):
        b = self.b
        r = 1
        for x, y in zip(reversed(a), reversed(c)):
            r = b.conj(r, b.neg(b.xor(x, y)))
            if r == 0:
                break
        return r

    def any(self, a):
        r = 0
        for x in a:
            r = self.b.disj(r, x)
        return r

    def all(self, a):
        r = 1
        for x in a:
            r = self.b.conj(r, x)
        return r

    def shift(self, a, s, kind):
        n = len(a)
        k = self.isconst(s)
        fill = a[-1] if kind == 'ashr' else 0
        if k is not None:
            k = min(k, n)
            if kind == 'shl':
                return [0] * k + a[:n - k]
            return a[k:] + [fill] * k
        bits = max(1, (n - 1).bit_length())
        for i in range(bits):
            k = min(1 << i, n)
            sh = [0] * k + a[:n - k] if kind == 'shl' else a[k:] + [fill] * k
            a = self.mux(s[i], sh, a)
        return a

    def ctlz(self, a):
        n = len(a)
        # priority from the top
        r = self.const(n, n)
        for i in range(n):      # the highest set bit decides last
            r = self.mux(a[i], self.const(n - 1 - i, n), r)
        return r

    def cttz(self, a):
        return self.ctlz(list(reversed(a)))

    def ctpop(self, a):
        n = len(a)
        r = [0] * n
        for x in a:
            r, _ = self.add(r, [x] + [0] * (n - 1))
        return r

    # ---- floats as bit patterns
    def fparts(self, a):
        m, e = (23, 8) if len(a) == 32 else (52, 11)
        return a[:m], a[m:m + e], a[m + e]

    def fnan(self, a):
        m, e, _ = self.fparts(a)
        return self.b.conj(self.all(e), self.any(m))

    def finf(self, a):
        m, e, _ = self.fparts(a)
        return self.b.conj(self.all(e), self.b.neg(self.any(m)))

    def fcmp(self, p, a, c):
        b = self.b
        if p in ('true', 'false'):
            return int(p == 'true')
        uno = b.disj(self.fnan(a), self.fnan(c))
        zero = b.neg(b.disj(self.any(a[:-1]), self.any(c[:-1])))
        eq = b.disj(zero, self.eq(a, c))
        sa, sc = a[-1], c[-1]
        mlt = self.ult(a[:-1], c[:-1])
        mgt = self.ult(c[:-1], a[:-1])
        lt = b.conj(b.neg(eq), b.ite(sa, b.ite(sc, mgt, 1), b.ite(sc, 0, mlt)))
        base = {'eq': eq, 'ne': b.neg(eq), 'lt': lt, 'le': b.disj(lt, eq), 'gt': b.neg(b.disj(lt, eq)), 'ge': b.neg(lt)}
        if p == 'ord':
            return b.neg(uno)
        if p == 'uno':
            return uno
        v = base[p[1:]]
        return b.conj(b.neg(uno), v) if p[0] == 'o' else b.disj(uno, v)

    def fptrunc(self, a):
        b = self.b
        m, e, s = self.fparts(a)
        nan, inf = self.fnan(a), self.finf(a)
        mag = a[:-1]
        over = b.conj(b.neg(nan), b.neg(self.ult(mag, self.const(0x47EFFFFFF0000000, 63))))
        # normal results: exponent rebased, mantissa rounded to nearest even
        top = m[29:]
        rb = b.conj(m[28], b.disj(m[29], self.any(m[:28])))
        e8, _ = self.sub(e, self.const(1023 - 127, 11))
        body, _ = self.add(top + e8[:8], [rb] + [0] * 30)
        normal = b.neg(self.ult(e, self.const(1023 - 126, 11)))
        tiny = self.fresh(23) + [0] * 8
        zero = b.neg(self.any(mag))
        r = self.mux(normal, body, self.mux(zero, [0] * 31, tiny))
        r = self.mux(over, [0] * 23 + [1] * 8, r)
        r = self.mux(nan, top[:22] + [1] + [1] * 8, r)
        return r + [s]

    def fpext(self, a):
        b = self.b
        m, e, s = self.fparts(a)
        special = self.all(e)
        normal = b.conj(self.any(e), b.neg(special))
        e11, _ = self.add(e + [0] * 3, self.const(1023 - 127, 11))
        sm = [0] * 29 + m
        nan = self.any(m)
        qm = sm[:51] + [b.disj(sm[51], nan)]
        zero = b.neg(self.any(a[:-1]))
        den = self.fresh(52) + self.fresh(5) + [0, 1, 1, 0, 1, 1]      # some small normal: exponent between 864 and 895
        r = self.mux(zero, [0] * 63, den)
        r = self.mux(normal, sm + e11, r)
        r = self.mux(special, qm + [1] * 11, r)
        return r + [s]

    def fpclass(self, a, mask):
        b = self.b
        m, e, s = self.fparts(a)
        top, some, am, any_m = self.all(e), self.any(e), m[-1], self.any(m)
        nan = b.conj(top, any_m)
        cls = [b.conj(nan, b.neg(am)), b.conj(nan, am)]
        inf = b.conj(top, b.neg(any_m))
        norm = b.conj(some, b.neg(top))
        sub = b.conj(b.neg(some), any_m)
        zero = b.conj(b.neg(some), b.neg(any_m))
        for x in (inf, norm, sub, zero):
            cls.append(b.conj(s, x))
        for x in (zero, sub, norm, inf):
            cls.append(b.conj(b.neg(s), x))
        r = 0
        for i, x in enumerate(cls):
            if mask >> i & 1:
                r = b.disj(r, x)
        return r

    # ---- locations
    def scope(self, dbg):
        """(function name, file, line of definition) of the source function an instruction came from"""
        if dbg in self.subp:
            return self.subp[dbg]
        meta = self.m.meta
        cur = meta.get(dbg, '')
        r = None
        for _ in range(60):
            s = re.search(r'\bscope: !(\d+)', cur)
            if not s:
                break
            cur = meta.get(s.group(1), '')
            if 'DISubprogram' in cur:
                nm = re.search(r'linkageName: "([^"]*)"', cur) or re.search(r'\bname: "([^"]*)"', cur)
                f = re.search(r'\bfile: !(\d+)', cur)
                ln = re.search(r'\bline: (\d+)', cur)
                fn = re.search(r'filename: "([^"]*)"', meta.get(f.group(1), '')) if f else None
                r = (nm.group(1), fn.group(1) if fn else None, int(ln.group(1)) if ln else 0)
                break
        self.subp[dbg] = r
        return r

    def locof(self, i, fn):
        root = self.root
        l = self.m.loc(i.dbg) if i.dbg else None
        return l if l else (None, 0)

    def lib_loc(self, i, fn, prev):
        """the nearest library construct: the instruction itself if it is library code, else the last library instruction its operands depend on"""
        l = self.locof(i, fn)
        if l[0] and l[0].startswith(self.root + '/'):
            return l
        defs = self.defs
        seen = set()
        work = [x for x in ir.locals_of(i.a)]
        while work:
            nxt = []
            for x in work:
                if x in seen:
                    continue
                seen.add(x)
                d = defs.get(x)
                if d is None:
                    continue
                dl = self.locof(d, fn)
                if dl[0] and dl[0].startswith(self.root + '/') and dl[1]:
                    return dl
                nxt += list(ir.locals_of([v for v, _ in d.a] if d.op == 'phi' else d.a))
            work = nxt
        return l

    # ---- obligations
    def oblige(self, rule, i, g, cond, fn, msg='', arg=None):
        b = self.b
        if g == 0:
            return
        bad = b.conj(g, b.neg(cond))
        loc = self.lib_loc(i, fn, arg)
        o = self.oblig.setdefault((rule, loc), [0, 0])
        o[0] += 1
        if bad == 0:
            return
        definite = b.forall_from(bad, self.fresh0)
        o[1] += 1
        key = (rule, loc)
        old = self.alarms.get(key)
        if old and (not old['lossy'] or not definite):
            return
        cex = []
        asg = b.sat(definite or bad)
        for nm, bits in self.params:
            v = sum(asg.get(b.var[x], 0) << k for k, x in enumerate(bits) if x > 1)
            cex.append('%s=0x%x' % (nm, v))
        if self.scale > 1:
            cex.append('(widths scaled down by %d)' % self.scale)
        self.alarms[key] = {'rule': rule, 'loc': loc, 'msg': (msg or 'does not hold') + ' for ' + ', '.join(cex), 'lossy': None if definite else 'depends on unmodelled operations',
                            'chain': [self.dem.get(fn.name, fn.name)], 'trace': [], 'cons': cex}

    def gstr(self, v):
        g = self.m.globals.get(v[1]) if v[0] == 'g' else None
        if g and g[1] and g[1][0] == 'str':
            return g[1][1].rstrip(b'\0').decode()
        return '?'

    # ---- the walk
    def run(self, fn, root):
        self.root = root
        b = self.b
        self.defs = {i.dest: i for bl in fn.blocks.values() for i in bl.phis + bl.ins if i.dest is not None}
        widths = [self.w(t) for t, _, _ in fn.params]
        vecs = [[None] * n for n in widths]
        for k in range(1, max(widths or [0]) + 1):
            for v, n in zip(vecs, widths):
                if k <= n:
                    v[k - 1 if self.lsb else n - k] = b.new()
        self.fresh0 = b.n
        self.params = []
        env = {}
        for (t, nm, _), v in zip(fn.params, vecs):
            env[nm] = v
            self.params.append((nm, v))
        for bl in fn.blocks.values():
            for i in bl.phis + bl.ins:
                d = i.dbg
                for _ in range(40):
                    if not d:
                        break
                    s = self.scope(d)
                    if s and s[1] and s[1].startswith(root + '/'):
                        self.funcs[self.dem.get(s[0], s[0])] = (s[1], s[2])
                    d = re.search(r'inlinedAt: !(\d+)', self.m.meta.get(d, ''))
                    d = d.group(1) if d else None
        pend = {fn.order[0]: St(1, env, {})}
        count = {}
        self.rets = 0
        while pend:
            bn = min(pend, key=lambda x: fn.rpo[x])
            st = pend.pop(bn)
            self.visits += 1
            count[bn] = count.get(bn, 0) + 1
            if count[bn] > self.VISITS:
                raise Blown('loop not bounded at %s' % bn)
            for succ, s2 in self.block(fn, fn.blocks[bn], st):
                if s2.g == 0:
                    continue
                env2 = s2.env
                ph = fn.blocks[succ].phis
                if ph:
                    env2 = dict(s2.env)
                    for p in ph:
                        for v, pred in p.a:
                            if pred == bn:
                                env2[p.dest] = self.val(v, p.ty, s2.env)
                                break
                    s2 = St(s2.g, env2, s2.mem)
                old = pend.get(succ)
                pend[succ] = s2 if old is None else self.join(old, s2)
        return

    def join(self, a, c):
        self.joins += 1
        env = {}
        for k, v in c.env.items():
            u = a.env.get(k)
            if u is None:
                continue
            env[k] = v if u is v else self.mux(a.g, u, v)
        mem = {}
        for k, v in c.mem.items():
            u = a.mem.get(k)
            if u is not None:
                mem[k] = v if u is v else self.mux(a.g, u, v)
        return St(self.b.disj(a.g, c.g), env, mem)

    def block(self, fn, bl, st):
        b = self.b
        env = dict(st.env)
        mem = dict(st.mem)
        g = st.g
        for i in bl.ins:
            op = i.op
            if op == 'br':
                if len(i.a) == 1:
                    return [(i.a[0], St(g, env, mem))]
                c = self.val(i.a[0], ('i', 1), env)[0]
                return [(i.a[1], St(b.conj(g, c), env, mem)), (i.a[2], St(b.conj(g, b.neg(c)), env, mem))]
            if op == 'switch':
                ty, v, d, cases = i.a
                x = self.val(v, ty, env)
                rest = g
                out = {}
                for cv, lab in cases:
                    c = self.eq(x, self.val(('int', cv), ty, env))
                    out[lab] = b.disj(out.get(lab, 0), b.conj(g, c))
                    rest = b.conj(rest, b.neg(c))
                out[d] = b.disj(out.get(d, 0), rest)
                return [(lab, St(gg, env, mem)) for lab, gg in out.items()]
            if op == 'ret':
                self.rets = b.disj(self.rets, g)
                return []
            if op == 'unreachable':
                return []
            if op == 'call':
                g = self.call(fn, i, env, mem, g)
                if g == 0:
                    return []
                continue
            r = self.instr(fn, i, env, mem, g)
            if i.dest is not None:
                env[i.dest] = r
        return []

    def instr(self, fn, i, env, mem, g):
        b = self.b
        op = i.op
        if (op in ir.BIN or op in ir.CAST or op == 'icmp') and any(v[0] == 'undef' for v in i.a) and 'poison' in i.text:
            self.oblige('defined-arithmetic', i, g, 0, fn, 'undefined arithmetic (shift out of range or signed overflow)')
        if op in ir.BIN:
            if op[0] == 'f':
                self.note(op)
                return self.fresh_ty(i.ty)
            if i.ty[0] == 'vec':
                raise Blown('vector')
            x = self.val(i.a[0], i.ty, env)
            if op in ('shl', 'lshr', 'ashr'):
                n = len(x)
                # amounts are small constants: scale them as bit counts
                v = i.a[1]
                if v[0] == 'int' and self.scale > 1:
                    if v[1] % self.scale and v[1] != 1:
                        raise Blown('shift by %d is not uniform in the width' % v[1])
                    y = self.const(1 if v[1] == 1 else v[1] // self.scale, n)
                else:
                    y = self.val(v, i.ty, env)
                if n > 1:
                    if (1 << len(y)) > n:
                        self.oblige('shift-in-range', i, g, self.ult(y, self.const(n, len(y))), fn, 'shift by the width of the operand or more')
                return self.shift(x, y, op)
            y = self.val(i.a[1], i.ty, env)
            if op == 'and':
                return [b.conj(p, q) for p, q in zip(x, y)]
            if op == 'or':
                return [b.disj(p, q) for p, q in zip(x, y)]
            if op == 'xor':
                return [b.xor(p, q) for p, q in zip(x, y)]
            nsw = 'nsw' in (i.extra or ()) and self.scale == 1
            if op == 'add':
                r, _ = self.add(x, y)
                if nsw:
                    self.oblige('signed-overflow', i, g, b.neg(b.conj(b.neg(b.xor(x[-1], y[-1])), b.xor(r[-1], x[-1]))), fn, 'signed overflow')
                return r
            if op == 'sub':
                r, _ = self.sub(x, y)
                if nsw:
                    self.oblige('signed-overflow', i, g, b.neg(b.conj(b.xor(x[-1], y[-1]), b.xor(r[-1], x[-1]))), fn, 'signed overflow')
                return r
            if op == 'mul':
                return self.mul(x, y)
            # division
            self.oblige('division-by-zero', i, g, self.any(y), fn, 'division by zero')
            # under the guard the divisor is not zero
            if op in ('udiv', 'urem'):
                q, r = self.divmod(x, y)
                return q if op == 'udiv' else r
            if self.scale == 1:
                low = b.conj(x[-1], b.neg(self.any(x[:-1]))) if len(x) > 1 else x[-1]
                self.oblige('signed-overflow', i, g, b.neg(b.conj(low, b.neg(self.any(self.inv(y))))), fn, 'the lowest value divided by minus one')
            q, r = self.divmod(self.absv(x), self.absv(y))
            nq, _ = self.add(self.inv(q), self.const(1, len(q)))
            nr, _ = self.add(self.inv(r), self.const(1, len(r)))
            return self.mux(b.xor(x[-1], y[-1]), nq, q) if op == 'sdiv' else self.mux(x[-1], nr, r)
        if op in ir.CAST:
            st = i.extra
            x = self.val(i.a[0], st, env)
            if op == 'fptrunc' and len(x) == 64 and i.ty == ('f', 32):
                return self.fptrunc(x)
            if op == 'fpext' and len(x) == 32 and i.ty == ('f', 64):
                return self.fpext(x)
            if op[0] == 'f' or op.endswith('fp'):
                self.note(op)
                return self.fresh_ty(i.ty)
            n = self.w(i.ty)
            return self.ext(x, n, x[-1] if op == 'sext' else 0)
        if op == 'fneg':
            x = self.val(i.a[0], i.ty, env)
            return x[:-1] + [b.neg(x[-1])]
        if op == 'freeze':
            return self.val(i.a[0], i.ty, env)
        if op == 'icmp':
            x = self.val(i.a[0], i.ty, env)
            y = self.val(i.a[1], i.ty, env)
            p = i.extra
            if p == 'eq':
                return [self.eq(x, y)]
            if p == 'ne':
                return [b.neg(self.eq(x, y))]
            lt = self.ult if p[0] == 'u' else self.slt
            if p[1:] == 'lt':
                return [lt(x, y)]
            if p[1:] == 'ge':
                return [b.neg(lt(x, y))]
            if p[1:] == 'gt':
                return [lt(y, x)]
            return [b.neg(lt(y, x))]
        if op == 'fcmp':
            if i.ty not in (('f', 32), ('f', 64)):
                self.note('fcmp')
                return self.fresh(1)
            return [self.fcmp(i.extra, self.val(i.a[0], i.ty, env), self.val(i.a[1], i.ty, env))]
        if op == 'select':
            c = self.val(i.a[0], ('i', 1), env)[0]
            return self.mux(c, self.val(i.a[1], i.ty, env), self.val(i.a[2], i.ty, env))
        if op == 'extractvalue':
            x = self.val(i.a[0], i.ty, env)
            for k in i.extra:
                x = x[k]
            return x
        if op == 'insertvalue':
            x = self.val(i.a[0], i.ty, env)
            if len(i.extra) != 1:
                raise Blown('nested insertvalue')
            t = self.m.resolve(i.ty) if i.ty[0] == 'named' else i.ty
            et = t[1][i.extra[0]] if t[0] == 'struct' else t[2]
            y = self.val(i.a[1], et, env)
            return tuple(y if k == i.extra[0] else v for k, v in enumerate(x))
        if op == 'alloca':
            # address identity only
            key = ('alloca', i.dest)
            env['&' + i.dest] = None
            return self.fresh(self.w(ir.PTR))
        if op == 'load':
            p = i.a[0]
            if p[0] == 'l' and p[1] in self.defs and self.defs[p[1]].op == 'alloca':
                v = mem.get(p[1])
                n = self.fresh_ty(i.ty) if v is None or isinstance(v, tuple) else None
                if v is not None and not isinstance(v, tuple) and len(v) == self.w(i.ty):
                    return v
                self.note('load')
                return n or self.fresh_ty(i.ty)
            self.note('load')
            return self.fresh_ty(i.ty)
        if op == 'store':
            p = i.a[1]
            if p[0] == 'l' and p[1] in self.defs and self.defs[p[1]].op == 'alloca':
                mem[p[1]] = self.val(i.a[0], i.ty, env)
                return None
            self.note('store')
            mem.clear()
            return None
        self.note(op if op != 'unsupported' else i.text[:60])
        if i.dest is None:
            return None
        if i.ty is None:
            raise Blown(i.text[:80])
        return self.fresh_ty(ir.PTR if op == 'getelementptr' else i.ty)

    def call(self, fn, i, env, mem, g):
        """models a call; returns the guard of what follows"""
        b = self.b
        cal, args = i.a
        name = cal[1] if cal[0] == 'g' else '?'

        def arg(k):
            return self.val(args[k][1], args[k][0], env)

        def put(v):
            if i.dest is not None:
                env[i.dest] = v
        if name == 'sa_assert':
            rule = self.gstr(args[1][1])
            if args[0][1][0] == 'undef':
                # the compiler has already reduced it to an undefined value
                self.oblige(rule, i, g, 0, fn, 'is computed by undefined arithmetic (shift out of range or signed overflow)')
            else:
                self.oblige(rule, i, g, arg(0)[0], fn)
            return g
        if name == 'sa_assume':
            return b.conj(g, arg(0)[0])
        if name == 'sa_reach':
            if g:
                self.reached.add(self.gstr(args[0][1]))
            return g
        if name == '__assert_fail':
            self.oblige('internal-assertion', i, g, 0, fn, 'an internal assertion fails')
            return 0
        if name in ('abort', '__cxa_pure_virtual', 'exit', '_ZSt9terminatev'):
            self.oblige('no-abort', i, g, 0, fn, 'the program is ended')
            return 0
        if name.startswith('llvm.'):
            base = name[5:]
            m = re.match(r'([a-z.]+?)\.(?:i\d+|f\d+|p0)\b', base)
            k = m.group(1) if m else base
            if k.startswith(('dbg', 'lifetime', 'invariant', 'experimental.noalias', 'donothing')):
                return g
            if k == 'assume':
                return g
            if k == 'expect' or k == 'expect.with.probability' or k == 'launder.invariant.group':
                put(arg(0))
                return g
            if k in ('ctlz', 'cttz'):
                x = arg(0)
                if args[1][1][1]:
                    self.oblige('scan-of-zero', i, g, self.any(x), fn, 'bit scan of zero (undefined)')
                put(self.ctlz(x) if k == 'ctlz' else self.cttz(x))
                return g
            if k == 'ctpop':
                put(self.ctpop(arg(0)))
                return g
            if k in ('umin', 'umax', 'smin', 'smax'):
                x, y = arg(0), arg(1)
                lt = self.ult(x, y) if k[0] == 'u' else self.slt(x, y)
                put(self.mux(lt, x, y) if k.endswith('min') else self.mux(lt, y, x))
                return g
            if k == 'abs':
                put(self.absv(arg(0)))
                return g
            if k == 'fabs':
                put(arg(0)[:-1] + [0])
                return g
            if k == 'copysign':
                put(arg(0)[:-1] + [arg(1)[-1]])
                return g
            if k == 'is.fpclass':
                put([self.fpclass(arg(0), args[1][1][1])])
                return g
            if k in ('bswap', 'bitreverse'):
                x = arg(0)
                put(list(reversed(x)) if k == 'bitreverse' else sum([x[j:j + 8] for j in reversed(range(0, len(x), 8))], []))
                return g
            if k in ('uadd.with.overflow', 'usub.with.overflow', 'umul.with.overflow', 'sadd.with.overflow', 'ssub.with.overflow'):
                x, y = arg(0), arg(1)
                n = len(x)
                if k[0] == 's':
                    r, _ = self.add(x, y) if k == 'sadd.with.overflow' else self.sub(x, y)
                    d = b.xor(x[-1], y[-1])
                    ov = b.conj(d if k[1] == 's' else b.neg(d), b.xor(r[-1], x[-1]))
                elif k[1] == 'a':
                    r, ov = self.add(x, y)
                elif k[1] == 's':
                    r, nb = self.sub(x, y)
                    ov = b.neg(nb)
                else:
                    r = self.mul(x + [0] * n, y + [0] * n)
                    ov = self.any(r[n:])
                    r = r[:n]
                put((r, [ov]))
                return g
            if k in ('uadd.sat', 'usub.sat'):
                x, y = arg(0), arg(1)
                if k == 'uadd.sat':
                    r, ov = self.add(x, y)
                    put(self.mux(ov, [1] * len(r), r))
                else:
                    r, nb = self.sub(x, y)
                    put(self.mux(nb, r, [0] * len(r)))
                return g
            if k in ('fshl', 'fshr'):
                c = self.isconst(arg(2))
                if c is not None:
                    n = len(arg(0))
                    c %= n
                    cat = arg(1) + arg(0)
                    put(cat[n - c:2 * n - c] if k == 'fshl' else cat[c:c + n])
                    return g
            if k == 'trap' or k == 'ubsantrap':
                self.oblige('no-trap', i, g, 0, fn, 'the program traps')
                return 0
            if k == 'is.constant':
                put([0])
                return g
        self.note('call ' + self.dem.get(name, name))
        mem.clear()
        if i.dest is not None:
            env[i.dest] = self.fresh_ty(i.ty)
        return g


def analyse(mod, dem, fn, opts, root, budget):
    # the size of the dependency functions depends on the order of the input bits: try both
    r = None
    for lsb, limit, share in ((False, 300000, 0.2), (True, 1500000, 0.4), (False, 3000000, 0.4)):
        BDD.LIMIT = limit
        r = analyse1(mod, dem, fn, {**opts, 'lsb': lsb}, root, budget * share)
        if not r['crashed'] or 'too large' not in r['crashed']:
            break
    return r


def analyse1(mod, dem, fn, opts, root, budget):
    t0 = time.time()
    a = Analysis(mod, dem, opts, t0 + budget)
    f = mod.funcs[fn]
    crashed = None
    try:
        a.run(f, root)
    except Blown as x:
        crashed = 'dataflow gave up: %s' % x
    except RecursionError:
        crashed = 'recursion limit'
    except Exception as x:
        if os.environ.get('SA_RAISE'):
            raise
        crashed = 'analysis gave up: %s: %s' % (type(x).__name__, str(x)[:200])
    want = set()
    for bl in f.blocks.values():
        for i in bl.ins:
            if i.op == 'call' and i.a[0] == ('g', 'sa_reach'):
                want.add(a.gstr(i.a[1][0][1]))
    ok = crashed is None and bool(a.rets)
    return {'fn': fn, 'alarms': list(a.alarms.values()), 'oblig': {k: tuple(v) for k, v in a.oblig.items()}, 'funcs': a.funcs, 'unmodelled': a.unmod,
            'nret': 1 if ok else 0, 'exact_ret': ok, 'missing': sorted(want - a.reached) if not crashed else [], 'reached': len(a.reached), 'states': a.visits, 'joins': a.joins,
            'notes': [], 'crashed': crashed, 'time': time.time() - t0, 'fm': {}, 'nodes': len(a.b.var)}
