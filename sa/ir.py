"""Reader for textual LLVM IR (LLVM 18, opaque pointers, x86-64 layout).

Only what clang emits at -O0 (+mem2reg) for the witness units is supported; anything
else becomes an instruction with op 'unsupported', which the interpreter treats as a
loss of precision (never as a pass or a violation).
"""
import re

TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<cmt>;[^\n]*)
  | (?P<cstr>c"[^"]*")
  | (?P<local>%"[^"]*"|%[-\w.$]+)
  | (?P<glob>@"[^"]*"|@[-\w.$]+)
  | (?P<meta>![-\w.$]+|!"[^"]*"|!)
  | (?P<attr>\#\d+)
  | (?P<comdat>\$"[^"]*"|\$[-\w.$]+)
  | (?P<dots>\.\.\.)
  | (?P<fhex>0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<flt>-?\d+\.\d*(?:e[+-]?\d+)?)
  | (?P<int>-?\d+)
  | (?P<str>"[^"]*")
  | (?P<word>[A-Za-z_][\w.]*)
  | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            out.append(('?', s[pos]))
            pos += 1
            continue
        k = m.lastgroup
        if k == 'cmt':
            pos = m.end()
            continue
        if k != 'ws':
            out.append((k, m.group()))
        pos = m.end()
    return out


# ---- types: ('i',w) ('ptr',) ('f',bits) ('arr',n,t) ('struct',(t..),packed) ('named',n) ('void',) ('fn',ret,params,var) ('vec',n,t)
PTR = ('ptr',)
VOID = ('void',)


class Toks:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError('expected %r at %r' % (v, self.t[max(0, self.i - 6):self.i + 6]))


FLOATS = {'float': 32, 'double': 64, 'half': 16, 'x86_fp80': 80, 'fp128': 128}


def parse_type(t):
    k, v = t.next()
    if k == 'word':
        if v == 'void':
            ty = VOID
        elif v == 'ptr':
            ty = PTR
        elif re.fullmatch(r'i\d+', v):
            ty = ('i', int(v[1:]))
        elif v in FLOATS:
            ty = ('f', FLOATS[v])
        elif v in ('label', 'metadata', 'token', 'opaque'):
            ty = (v,)
        else:
            raise SyntaxError('type %r' % v)
    elif k == 'local':
        ty = ('named', unq(v))
    elif v == '[':
        n = int(t.next()[1])
        t.expect('x')
        e = parse_type(t)
        t.expect(']')
        ty = ('arr', n, e)
    elif v == '{':
        ty = parse_struct(t, '}')
    elif v == '<':
        if t.peek()[1] == '{':
            t.next()
            s = parse_struct(t, '}')
            t.expect('>')
            ty = ('struct', s[1], True)
        else:
            n = int(t.next()[1])
            t.expect('x')
            e = parse_type(t)
            t.expect('>')
            ty = ('vec', n, e)
    else:
        raise SyntaxError('type tok %r %r' % (k, v))
    while t.peek()[1] == '(' and ty[0] != 'label':
        # function type
        t.next()
        ps = []
        var = False
        while not t.accept(')'):
            if t.accept('...'):
                var = True
            else:
                ps.append(parse_type(t))
                skip_attrs(t)
            t.accept(',')
        ty = ('fn', ty, tuple(ps), var)
    return ty


def parse_struct(t, end):
    fs = []
    while not t.accept(end):
        fs.append(parse_type(t))
        t.accept(',')
    return ('struct', tuple(fs), False)


def unq(v):
    v = v[1:]
    return v[1:-1] if v.startswith('"') else v


VALUE_WORDS = {'null', 'undef', 'poison', 'true', 'false', 'zeroinitializer', 'none', 'getelementptr', 'inttoptr', 'ptrtoint',
               'bitcast', 'trunc', 'add', 'sub', 'dso_local_equivalent', 'asm', 'blockaddress', 'addrspacecast', 'no_cfi'}


def skip_attrs(t):
    """Skip parameter attributes."""
    attrs = []
    while True:
        k, v = t.peek()
        if k == 'word' and v not in VALUE_WORDS:
            t.next()
            a = v
            if v == 'align' and t.peek()[0] == 'int':
                t.next()
            elif t.peek()[1] == '(':
                depth = 0
                buf = []
                while True:
                    kk, vv = t.next()
                    if vv == '(':
                        depth += 1
                    elif vv == ')':
                        depth -= 1
                        if depth == 0:
                            break
                    buf.append((kk, vv))
                if v in ('byval', 'sret', 'byref', 'inalloca', 'preallocated', 'elementtype'):
                    sub = Toks(buf[1:])
                    a = (v, parse_type(sub))
            attrs.append(a)
        elif k == 'str':
            t.next()
            if t.accept('='):
                t.next()
        elif k == 'attr':
            t.next()
        else:
            return attrs


def parse_value(t, ty):
    """operand of known type -> ('l',name) ('g',name) ('int',n) ('null',) ('undef',) ('zero',) ('flt',text) ('cexpr',op,...) ('agg',[(ty,v)]) ('str',bytes)"""
    k, v = t.next()
    if k == 'local':
        return ('l', unq(v))
    if k == 'glob':
        return ('g', unq(v))
    if k == 'int':
        return ('int', int(v))
    if k in ('flt', 'fhex'):
        return ('flt', v)
    if k == 'cstr':
        s = v[2:-1]
        b = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\' and s[i + 1] == '\\':
                b.append(92)
                i += 2
            elif s[i] == '\\':
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                b.append(ord(s[i]))
                i += 1
        return ('str', bytes(b))
    if k == 'meta':
        # metadata operand; swallow
        while t.peek()[1] not in (',', ')') and t.peek()[0] != 'eof':
            if t.peek()[1] == '(':
                depth = 0
                while True:
                    _, vv = t.next()
                    depth += vv == '('
                    depth -= vv == ')'
                    if depth == 0:
                        break
            else:
                t.next()
        return ('meta',)
    if k == 'word':
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v in ('null', 'none'):
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'getelementptr':
            while t.peek()[0] == 'word' and t.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'):
                t.next()
            t.expect('(')
            bt = parse_type(t)
            t.expect(',')
            ops = parse_list(t, ')')
            return ('cexpr', 'gep', bt, ops)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast'):
            t.expect('(')
            st = parse_type(t)
            x = parse_value(t, st)
            t.expect('to')
            dt = parse_type(t)
            t.expect(')')
            return ('cexpr', v, st, x, dt)
        if v in ('add', 'sub'):
            while t.peek()[0] == 'word':
                t.next()
            t.expect('(')
            ops = parse_list(t, ')')
            return ('cexpr', v, ops)
        if v == 'asm':
            while t.peek()[0] in ('word',):
                t.next()
            a = t.next()[1]
            t.expect(',')
            b = t.next()[1]
            return ('asm', a, b)
    if v in ('[', '{'):
        end = {'[': ']', '{': '}'}[v]
        els = parse_list(t, end)
        return ('agg', els)
    if v == '<':
        if t.peek()[1] == '{':
            t.next()
            els = parse_list(t, '}')
            t.expect('>')
        else:
            els = parse_list(t, '>')
        return ('agg', els)
    raise SyntaxError('value %r %r' % (k, v))


def parse_list(t, end):
    r = []
    while not t.accept(end):
        if t.peek()[1] == 'inrange':
            t.next()
        ty = parse_type(t)
        skip_attrs(t)
        r.append((ty, parse_value(t, ty)))
        t.accept(',')
    return r


class Instr:
    __slots__ = ('op', 'dest', 'ty', 'a', 'dbg', 'text', 'fn', 'extra')

    def __init__(self, op, dest, ty, a, text):
        self.op = op
        self.dest = dest
        self.ty = ty
        self.a = a
        self.dbg = None
        self.text = text
        self.extra = None

    def __repr__(self):
        return self.text


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.phis = []
        self.succ = []


class Function:
    def __init__(self, name, ret, params, var, text):
        self.name = name
        self.ret = ret
        self.params = params      # [(ty, name, attrs)]
        self.var = var
        self.blocks = {}
        self.order = []
        self.dbg = None
        self.linkage = ''
        self.text = text

    def prepare(self):
        # successors, RPO, headers, liveness
        for b in self.blocks.values():
            b.succ = []
            if not b.ins:
                continue
            t = b.ins[-1]
            if t.op == 'br':
                b.succ = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                b.succ = [t.a[2]] + [x[1] for x in t.a[3]]
        entry = self.order[0]
        seen = set()
        post = []
        onstack = set()
        self.headers = set()
        stack = [(entry, iter(self.blocks[entry].succ))]
        seen.add(entry)
        onstack.add(entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s in onstack:
                    self.headers.add(s)
                elif s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                stack.pop()
                onstack.discard(n)
                post.append(n)
        self.rpo = {b: i for i, b in enumerate(reversed(post))}
        # liveness (live-in sets excluding phi dests of the block; phi uses count at predecessor's end)
        use = {}
        dfn = {}
        phiuse = {b: set() for b in self.rpo}
        for bn in self.rpo:
            b = self.blocks[bn]
            u = set()
            d = set()
            for p in b.phis:
                d.add(p.dest)
                for v, pred in p.a:
                    if v[0] == 'l':
                        phiuse.setdefault(pred, set()).add(v[1])
            for i in b.ins:
                for v in locals_of(i.a):
                    if v not in d:
                        u.add(v)
                if i.dest is not None:
                    d.add(i.dest)
            use[bn] = u
            dfn[bn] = d
        livein = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for bn in sorted(self.rpo, key=lambda x: -self.rpo[x]):
                out = set(phiuse.get(bn, ()))
                for s in self.blocks[bn].succ:
                    out |= livein.get(s, set())
                ni = use[bn] | (out - dfn[bn])
                if ni != livein[bn]:
                    livein[bn] = ni
                    ch = True
        self.livein = livein
        for bn in self.rpo:
            self.livein[bn] = livein[bn] | {p.dest for p in self.blocks[bn].phis}


def locals_of(a):
    if isinstance(a, tuple):
        if len(a) == 2 and a[0] == 'l' and isinstance(a[1], str):
            yield a[1]
            return
        for x in a:
            yield from locals_of(x)
    elif isinstance(a, list):
        for x in a:
            yield from locals_of(x)


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> (ty, init or None, const, linkage)
        self.funcs = {}
        self.decls = {}
        self.meta = {}
        self.aliases = {}

    # ---- layout
    def resolve(self, ty):
        while ty[0] == 'named':
            ty = self.types[ty[1]]
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return min(a, 16)
        if k == 'ptr':
            return 8
        if k == 'f':
            return {32: 4, 64: 8, 80: 16, 128: 16, 16: 2}[ty[1]]
        if k == 'arr':
            return self.align(ty[2])
        if k == 'vec':
            return self.size(ty)
        if k == 'struct':
            if ty[2]:
                return 1
            return max([self.align(f) for f in ty[1]] or [1])
        raise ValueError(ty)

    def size(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'i':
            n = (ty[1] + 7) // 8
            a = self.align(ty)
            return (n + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k == 'f':
            return {32: 4, 64: 8, 80: 16, 128: 16, 16: 2}[ty[1]]
        if k == 'arr':
            return ty[1] * self.size(ty[2])
        if k == 'vec':
            return ty[1] * self.size(ty[2])
        if k == 'struct':
            o = 0
            for f in ty[1]:
                if not ty[2]:
                    a = self.align(f)
                    o = (o + a - 1) // a * a
                o += self.size(f)
            a = self.align(ty)
            return (o + a - 1) // a * a
        if k == 'fn':
            return 1
        raise ValueError(ty)

    def field(self, ty, i):
        """offset and type of field i"""
        ty = self.resolve(ty)
        if ty[0] == 'struct':
            o = 0
            for j, f in enumerate(ty[1]):
                if not ty[2]:
                    a = self.align(f)
                    o = (o + a - 1) // a * a
                if j == i:
                    return o, f
                o += self.size(f)
        if ty[0] in ('arr', 'vec'):
            return i * self.size(ty[2]), ty[2]
        raise ValueError(ty)

    def loc(self, dbg):
        """!dbg id -> (file, line)"""
        m = self.meta.get(dbg)
        if not m:
            return None
        ln = re.search(r'\bline: (\d+)', m)
        line = int(ln.group(1)) if ln else 0
        cur = m
        for _ in range(60):
            f = re.search(r'\bfile: !(\d+)', cur)
            if f and 'DIFile' in self.meta.get(f.group(1), ''):
                fm = self.meta[f.group(1)]
                fn = re.search(r'filename: "([^"]*)"', fm)
                d = re.search(r'directory: "([^"]*)"', fm)
                p = fn.group(1)
                if not p.startswith('/') and d:
                    p = d.group(1) + '/' + p
                return (p, line)
            s = re.search(r'\bscope: !(\d+)', cur)
            if not s:
                return (None, line)
            cur = self.meta.get(s.group(1), '')
        return (None, line)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'samesign', 'volatile'}


def parse_instr(line):
    toks = tokenize(line)
    dbg = None
    # trailing metadata
    for j in range(len(toks)):
        if toks[j] == ('meta', '!dbg') and j + 1 < len(toks):
            dbg = toks[j + 1][1][1:]
            break
    cut = len(toks)
    depth = 0
    for j, (k, v) in enumerate(toks):
        if v in '([{':
            depth += 1
        elif v in ')]}':
            depth -= 1
        if depth == 0 and v == ',' and j + 1 < len(toks) and toks[j + 1][0] == 'meta':
            cut = j
            break
    t = Toks(toks[:cut])
    dest = None
    if t.peek()[0] == 'local' and t.peek(1)[1] == '=':
        dest = unq(t.next()[1])
        t.next()
    k, op = t.next()
    while op in ('tail', 'musttail', 'notail'):
        k, op = t.next()
    I = None
    flags = set()

    def fl():
        while t.peek()[1] in FLAGS:
            flags.add(t.next()[1])
    if op in BIN:
        fl()
        ty = parse_type(t)
        a = parse_value(t, ty)
        t.expect(',')
        b = parse_value(t, ty)
        I = Instr(op, dest, ty, [a, b], line)
        I.extra = flags
    elif op == 'fneg':
        fl()
        ty = parse_type(t)
        I = Instr(op, dest, ty, [parse_value(t, ty)], line)
    elif op in CAST:
        fl()
        st = parse_type(t)
        a = parse_value(t, st)
        t.expect('to')
        ty = parse_type(t)
        I = Instr(op, dest, ty, [a], line)
        I.extra = st
    elif op in ('icmp', 'fcmp'):
        fl()
        pred = t.next()[1]
        ty = parse_type(t)
        a = parse_value(t, ty)
        t.expect(',')
        b = parse_value(t, ty)
        I = Instr(op, dest, ty, [a, b], line)
        I.extra = pred
    elif op == 'alloca':
        t.accept('inalloca')
        ty = parse_type(t)
        n = None
        al = None
        while t.accept(','):
            if t.peek()[1] == 'align':
                t.next()
                al = int(t.next()[1])
            else:
                nt = parse_type(t)
                n = parse_value(t, nt)
        I = Instr(op, dest, ty, [n], line)
        I.extra = al
    elif op == 'load':
        atomic = t.accept('atomic')
        fl()
        ty = parse_type(t)
        t.expect(',')
        pt = parse_type(t)
        p = parse_value(t, pt)
        order = None
        if atomic:
            while t.peek()[0] == 'word' or t.peek()[1] == '(':
                w = t.next()[1]
                if w in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst', 'unordered'):
                    order = w
        I = Instr(op, dest, ty, [p], line)
        I.extra = (order, 'volatile' in flags)
    elif op == 'store':
        atomic = t.accept('atomic')
        fl()
        ty = parse_type(t)
        v = parse_value(t, ty)
        t.expect(',')
        pt = parse_type(t)
        p = parse_value(t, pt)
        order = None
        if atomic:
            while t.peek()[0] == 'word' or t.peek()[1] == '(':
                w = t.next()[1]
                if w in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst', 'unordered'):
                    order = w
        I = Instr(op, dest, ty, [v, p], line)
        I.extra = (order, 'volatile' in flags)
    elif op == 'getelementptr':
        fl()
        ty = parse_type(t)
        t.expect(',')
        ops = parse_list(t, 'zzz') if False else []
        while True:
            x = parse_type(t)
            ops.append((x, parse_value(t, x)))
            if not t.accept(','):
                break
        I = Instr(op, dest, ty, ops, line)
    elif op in ('call', 'invoke'):
        fl()
        while t.peek()[0] == 'word' and t.peek()[1] in ('fastcc', 'ccc', 'coldcc') or t.peek()[1] in FLAGS:
            t.next()
        skip_ret_attrs(t)
        ty = parse_type(t)
        fty = None
        if ty[0] == 'fn':
            fty = ty
            ty = ty[1]
        callee = parse_value(t, PTR)
        t.expect('(')
        args = []
        while not t.accept(')'):
            at = parse_type(t)
            attrs = skip_attrs(t)
            args.append((at, parse_value(t, at), attrs))
            t.accept(',')
        I = Instr('call', dest, ty, [callee, args], line)
        I.extra = fty
        if op == 'invoke':
            raise SyntaxError('invoke')
    elif op == 'phi':
        fl()
        ty = parse_type(t)
        inc = []
        while True:
            t.expect('[')
            v = parse_value(t, ty)
            t.expect(',')
            b = unq(t.next()[1])
            t.expect(']')
            inc.append((v, b))
            if not t.accept(','):
                break
        I = Instr('phi', dest, ty, inc, line)
    elif op == 'select':
        fl()
        ct = parse_type(t)
        c = parse_value(t, ct)
        t.expect(',')
        ty = parse_type(t)
        a = parse_value(t, ty)
        t.expect(',')
        ty2 = parse_type(t)
        b = parse_value(t, ty2)
        I = Instr('select', dest, ty, [c, a, b], line)
    elif op == 'br':
        if t.peek()[1] == 'label':
            t.next()
            I = Instr('br', None, None, [unq(t.next()[1])], line)
        else:
            ct = parse_type(t)
            c = parse_value(t, ct)
            t.expect(',')
            t.expect('label')
            x = unq(t.next()[1])
            t.expect(',')
            t.expect('label')
            y = unq(t.next()[1])
            I = Instr('br', None, None, [c, x, y], line)
    elif op == 'switch':
        ty = parse_type(t)
        v = parse_value(t, ty)
        t.expect(',')
        t.expect('label')
        d = unq(t.next()[1])
        t.expect('[')
        cases = []
        while not t.accept(']'):
            ct = parse_type(t)
            cv = parse_value(t, ct)
            t.expect(',')
            t.expect('label')
            cases.append((cv[1], unq(t.next()[1])))
        I = Instr('switch', None, ty, [ty, v, d, cases], line)
    elif op == 'ret':
        ty = parse_type(t)
        I = Instr('ret', None, ty, [] if ty == VOID else [parse_value(t, ty)], line)
    elif op == 'unreachable':
        I = Instr(op, None, None, [], line)
    elif op == 'extractvalue':
        ty = parse_type(t)
        v = parse_value(t, ty)
        idx = []
        while t.accept(','):
            idx.append(int(t.next()[1]))
        I = Instr(op, dest, ty, [v], line)
        I.extra = idx
    elif op == 'insertvalue':
        ty = parse_type(t)
        v = parse_value(t, ty)
        t.expect(',')
        et = parse_type(t)
        e = parse_value(t, et)
        idx = []
        while t.accept(','):
            idx.append(int(t.next()[1]))
        I = Instr(op, dest, ty, [v, e], line)
        I.extra = idx
    elif op == 'atomicrmw':
        fl()
        w = t.next()[1]
        pt = parse_type(t)
        p = parse_value(t, pt)
        t.expect(',')
        ty = parse_type(t)
        v = parse_value(t, ty)
        order = None
        while t.peek()[0] == 'word':
            x = t.next()[1]
            if x in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'):
                order = x
        I = Instr(op, dest, ty, [p, v], line)
        I.extra = (w, order)
    elif op == 'cmpxchg':
        weak = t.accept('weak')
        fl()
        pt = parse_type(t)
        p = parse_value(t, pt)
        t.expect(',')
        ty = parse_type(t)
        c = parse_value(t, ty)
        t.expect(',')
        ty2 = parse_type(t)
        v = parse_value(t, ty2)
        orders = []
        while t.peek()[0] == 'word':
            x = t.next()[1]
            if x in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'):
                orders.append(x)
        I = Instr(op, dest, ty, [p, c, v], line)
        I.extra = (weak, orders)
    elif op == 'fence':
        I = Instr(op, None, None, [], line)
        I.extra = [v for k, v in t.t if v in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')]
    elif op == 'freeze':
        ty = parse_type(t)
        I = Instr(op, dest, ty, [parse_value(t, ty)], line)
    elif op == 'va_arg':
        lt = parse_type(t)
        v = parse_value(t, lt)
        t.expect(',')
        ty = parse_type(t)
        I = Instr(op, dest, ty, [v], line)
    else:
        I = Instr('unsupported', dest, None, [], line)
    I.dbg = dbg
    return I


def skip_ret_attrs(t):
    while True:
        k, v = t.peek()
        if k == 'word' and v in ('zeroext', 'signext', 'noundef', 'nonnull', 'noalias', 'inreg', 'noundef'):
            t.next()
        elif k == 'word' and v in ('align',):
            t.next()
            t.next()
        elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'range'):
            t.next()
            d = 0
            while True:
                _, vv = t.next()
                d += vv == '('
                d -= vv == ')'
                if d == 0:
                    break
        elif k == 'attr':
            t.next()
        else:
            return


def parse_module(text):
    m = Module()
    m.ptrbits = 32 if 'p:32:32' in text[:2000] else 64
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ';':
            continue
        if ln.startswith('!'):
            k = re.match(r'!([\w.]+) = (?:distinct )?(.*)', ln)
            if k:
                m.meta[k.group(1)] = k.group(2)
            continue
        if ln.startswith('%'):
            t = Toks(tokenize(ln))
            name = unq(t.next()[1])
            t.expect('=')
            t.expect('type')
            m.types[name] = parse_type(t)
            continue
        if ln.startswith('@'):
            t = Toks(tokenize(ln))
            name = unq(t.next()[1])
            t.expect('=')
            words = []
            while t.peek()[0] == 'word' and t.peek()[1] not in ('global', 'constant', 'alias', 'ifunc'):
                w = t.next()[1]
                words.append(w)
                if t.peek()[1] == '(':
                    d = 0
                    while True:
                        _, vv = t.next()
                        d += vv == '('
                        d -= vv == ')'
                        if d == 0:
                            break
            kind = t.next()[1]
            if kind in ('alias', 'ifunc'):
                # @a = alias T, ptr @b
                parse_type(t)
                t.expect(',')
                ty = parse_type(t)
                v = parse_value(t, ty)
                m.aliases[name] = v[1]
                continue
            ty = parse_type(t)
            init = None
            if t.peek()[0] != 'eof' and t.peek()[1] != ',':
                init = parse_value(t, ty)
            m.globals[name] = (ty, init, kind == 'constant', words)
            continue
        if ln.startswith('declare') or ln.startswith('define'):
            if ln.startswith('declare !'):
                ln = re.sub(r'^declare (?:![\w.]+ !\d+ )+', 'declare ', ln)
            isdef = ln.startswith('define')
            t = Toks(tokenize(ln))
            t.next()
            words = []
            while t.peek()[0] == 'word' and not is_type_start(t.peek()[1]):
                w = t.next()[1]
                words.append(w)
                if w == 'align':
                    t.next()
                elif t.peek()[1] == '(':
                    d = 0
                    while True:
                        _, vv = t.next()
                        d += vv == '('
                        d -= vv == ')'
                        if d == 0:
                            break
            ty = parse_type(t)
            name = unq(t.next()[1])
            t.expect('(')
            params = []
            var = False
            pi = 0
            while not t.accept(')'):
                if t.accept('...'):
                    var = True
                    continue
                pt = parse_type(t)
                attrs = skip_attrs(t)
                pn = str(pi)
                if t.peek()[0] == 'local':
                    pn = unq(t.next()[1])
                pi += 1
                params.append((pt, pn, attrs))
                t.accept(',')
            f = Function(name, ty, params, var, ln)
            f.words = words
            rest = [v for k, v in t.t[t.i:]]
            f.rest = rest
            if not isdef:
                m.decls[name] = f
                continue
            md = re.search(r'!dbg !(\d+)', ln)
            if md:
                f.dbg = md.group(1)
            # body
            cur = None
            while True:
                bl = lines[i]
                i += 1
                if bl.startswith('}'):
                    break
                if not bl.strip():
                    continue
                mm = re.match(r'^("[^"]*"|[-\w.$]+):', bl)
                if mm:
                    bn = mm.group(1)
                    if bn.startswith('"'):
                        bn = bn[1:-1]
                    cur = Block(bn)
                    f.blocks[bn] = cur
                    f.order.append(bn)
                    continue
                s = bl.strip()
                if s.startswith(';'):
                    continue
                while '[' in s and s.startswith('switch') and ']' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
                if cur is None:
                    bn = str(len(params))
                    cur = Block(bn)
                    f.blocks[bn] = cur
                    f.order.append(bn)
                try:
                    ins = parse_instr(s)
                except (SyntaxError, KeyError, ValueError, IndexError) as e:
                    dm = re.match(r'%("?[-\w.$]+"?) =', s)
                    ins = Instr('unsupported', dm.group(1) if dm else None, None, [], s)
                ins.fn = name
                if ins.op == 'phi':
                    cur.phis.append(ins)
                else:
                    cur.ins.append(ins)
            f.prepare()
            m.funcs[name] = f
    return m


def is_type_start(w):
    return w in ('void', 'ptr', 'float', 'double', 'x86_fp80', 'half') or re.fullmatch(r'i\d+', w) is not None


if __name__ == '__main__':
    import sys
    m = parse_module(open(sys.argv[1]).read())
    print(len(m.funcs), len(m.decls), len(m.globals), len(m.types))
    for f in m.funcs.values():
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'unsupported':
                    print(f.name, i.text)
