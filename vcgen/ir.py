"""Lazy parser for textual LLVM IR (LLVM 18 syntax)."""
import re

TOK = re.compile(r'''%"(?:[^"\\]|\\.)*"|%[-\w.$]+|@"(?:[^"\\]|\\.)*"|@[-\w.$]+|c"(?:[^"])*"|"(?:[^"])*"|\$"[^"]*"|\$[-\w.$]+|![\w.]*|\#\d+|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[{}()\[\]<>,=*:|]''')


class IRError(Exception):
    pass


# ---- types -----------------------------------------------------------------
# ('i',n) ('ptr',) ('arr',n,t) ('struct',packed,(t..)) ('vec',n,t) ('void',) ('label',) ('meta',) ('fp',bits) ('named',name) ('fn',)
PTR = ('ptr',)
VOID = ('void',)


class Types:
    def __init__(self):
        self.named = {}
        self._size = {}
        self._layout = {}

    def res(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16) if t[1] == 128 else min(a, 8)
        if k == 'ptr':
            return 8
        if k == 'fp':
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
        if k == 'arr':
            return self.align(t[2])
        if k == 'struct':
            if t[1]:
                return 1
            return max([1] + [self.align(x) for x in t[2]])
        if k == 'vec':
            return self.size(t)
        raise IRError('align ' + str(t))

    def size(self, t):
        """alloc size in bytes"""
        r = self._size.get(t)
        if r is None:
            r = self._size[t] = self._sz(t)
        return r

    def _sz(self, t0):
        t = self.res(t0)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'ptr':
            return 8
        if k == 'fp':
            return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            if t[2] == ('i', 1):
                return (t[1] + 7) // 8
            return t[1] * self.store_size(t[2])
        if k == 'struct':
            return self.layout(t)[1]
        raise IRError('size ' + str(t))

    def store_size(self, t):
        t = self.res(t)
        if t[0] == 'i':
            return (t[1] + 7) // 8
        return self.size(t)

    def layout(self, t):
        t = self.res(t)
        r = self._layout.get(t)
        if r is None:
            off = 0
            offs = []
            for x in t[2]:
                if not t[1]:
                    a = self.align(x)
                    off = (off + a - 1) // a * a
                offs.append(off)
                off += self.size(x)
            if not t[1]:
                a = self.align(t)
                off = (off + a - 1) // a * a
            r = self._layout[t] = (offs, off)
        return r


# ---- operands --------------------------------------------------------------
# ('l',name) | ('c',value)   constants:
#   int | ('null',) | ('undef',) | ('zero',) | ('g',name) | ('agg',[(ty,operand)]) | ('bytes',b)
#   ('gep',ty,ptrconst,[consts]) | ('cast',op,fromty,const,toty) | ('ba',fn,label) | ('bin',op,ty,a,b) | ('fp',..)

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'text', 'dbg')

    def __init__(self, op, res, ty, a, dbg=None):
        self.op, self.res, self.ty, self.a, self.dbg = op, res, ty, a, dbg

    def __repr__(self):
        return f'{self.res}={self.op} {self.ty} {self.a}'


class Block:
    __slots__ = ('name', 'lines', 'instrs', 'fn')


class Function:
    def __init__(self, mod, name, header):
        self.mod, self.name, self.header = mod, name, header
        self.lines = []
        self.params = None
        self.blocks = None
        self.entry = None
        self.ret = None
        self.vararg = False
        self.dbg = None

    def arity(self):
        self.parse()
        return len(self.params)

    def parse(self):
        if self.blocks is not None:
            return
        p = P(self.header, self.mod)
        while p.peek() != 'define':
            p.next()
        p.next()
        # skip linkage/attrs until a type followed by @name
        while True:
            save = p.i
            t = p.peek()
            if t.startswith('@'):
                break
            try:
                ty = p.type()
                self.ret = ty
                if p.peek().startswith('@'):
                    break
                continue
            except IRError:
                p.i = save
            p.skip_attr()
        p.next()
        p.expect('(')
        params = []
        n = 0
        while p.peek() != ')':
            if p.peek() == '...':
                self.vararg = True
                p.next()
                continue
            ty = p.type()
            byval = None
            while p.peek() not in (',', ')') and not p.peek().startswith('%'):
                a = p.next()
                if a == 'byval':
                    p.expect('(')
                    byval = p.type()
                    p.expect(')')
                elif p.peek() == '(':
                    p.skip_parens()
            if p.peek().startswith('%'):
                nm = unq(p.next())
            else:
                nm = str(n)
            if nm.isdigit():
                n = int(nm) + 1
            params.append((ty, nm, byval))
            if p.peek() == ',':
                p.next()
        self.params = params
        m = re.search(r'!dbg (!\d+)', self.header)
        self.dbg = m.group(1) if m else None
        blocks = {}
        cur = None
        order = []
        lab = re.compile(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):(?:\s|$)')
        i = 0
        L = self.lines
        while i < len(L):
            ln = L[i]
            m = lab.match(ln)
            if m:
                cur = Block()
                cur.name = unq(m.group(1))
                cur.lines = []
                cur.instrs = None
                cur.fn = self
                blocks[cur.name] = cur
                order.append(cur.name)
            elif ln.strip() and not ln.lstrip().startswith(';'):
                if cur is None:
                    cur = Block()
                    cur.name = str(n)
                    cur.lines = []
                    cur.instrs = None
                    cur.fn = self
                    blocks[cur.name] = cur
                    order.append(cur.name)
                s = ln.strip()
                if s.startswith('switch ') and not _closed(s):
                    while True:
                        i += 1
                        s += ' ' + L[i].strip()
                        if _closed(s):
                            break
                cur.lines.append(s)
            i += 1
        self.blocks = blocks
        self.order = order
        self.entry = order[0]

    def block(self, name):
        b = self.blocks[name]
        if b.instrs is None:
            b.instrs = [parse_instr(s, self.mod) for s in b.lines]
        return b


def _closed(s):
    d = 0
    for ch in s:
        if ch == '[':
            d += 1
        elif ch == ']':
            d -= 1
    return d == 0 and '[' in s


def unq(s):
    if s[0] in '%@':
        s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


def unescape(s):
    out = bytearray()
    i = 0
    b = s.encode('latin1')
    while i < len(b):
        if b[i] == 0x5c and b[i + 1] == 0x5c:
            out.append(0x5c)
            i += 2
        elif b[i] == 0x5c:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


class P:
    def __init__(self, text, mod):
        self.t = TOK.findall(text)
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ''

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, s):
        if self.peek() != s:
            raise IRError(f'expected {s} got {self.peek()} in {" ".join(self.t)[:300]}')
        self.i += 1

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    def skip_attr(self):
        self.next()
        if self.peek() == '(':
            self.skip_parens()

    def type(self):
        t = self.peek()
        if not t:
            raise IRError('eof type')
        if t[0] == 'i' and t[1:].isdigit():
            self.next()
            r = ('i', int(t[1:]))
        elif t == 'ptr':
            self.next()
            if self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
            r = PTR
        elif t == 'void':
            self.next()
            r = VOID
        elif t == 'label':
            self.next()
            r = ('label',)
        elif t == 'metadata':
            self.next()
            r = ('meta',)
        elif t in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
            self.next()
            r = ('fp', {'half': 16, 'float': 32, 'double': 64, 'x86_fp80': 80, 'fp128': 128}[t])
        elif t == '[':
            self.next()
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif t == '{':
            r = ('struct', False, self._fields())
        elif t == '<':
            self.next()
            if self.peek() == '{':
                f = self._fields()
                self.expect('>')
                r = ('struct', True, f)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif t[0] == '%':
            self.next()
            r = ('named', unq(t))
        else:
            raise IRError('type? ' + t + ' in ' + ' '.join(self.t)[:200])
        if self.peek() == '(' and r != VOID or (r == VOID and self.peek() == '('):
            # function type
            save = self.i
            try:
                self.next()
                while self.peek() != ')':
                    if self.peek() == '...':
                        self.next()
                    else:
                        self.type()
                        while self.peek() in ('noundef', 'signext', 'zeroext'):
                            self.next()
                    if self.peek() == ',':
                        self.next()
                self.next()
                return ('fn', r)
            except IRError:
                self.i = save
        return r

    def _fields(self):
        self.expect('{')
        f = []
        while self.peek() != '}':
            f.append(self.type())
            self.accept(',')
        self.next()
        return tuple(f)

    def const(self, ty):
        """parse a constant/operand of type ty"""
        t = self.next()
        if t[0] == '%':
            return ('l', unq(t))
        return ('c', self._const(t, ty))

    def _const(self, t, ty):
        if t[0] == '@':
            return ('g', unq(t))
        if t.lstrip('-').isdigit():
            v = int(t)
            rt = self.mod.types.res(ty)
            if rt[0] == 'i':
                return v & ((1 << rt[1]) - 1)
            if rt[0] == 'fp':
                return ('fp', float(v))
            return v
        if t == 'true':
            return 1
        if t == 'false':
            return 0
        if t == 'null':
            return 0
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            rt = self.mod.types.res(ty)
            if rt[0] in ('i', 'ptr'):
                return 0
            return ('zero',)
        if t[0] == 'c' and t[1:2] == '"':
            return ('bytes', unescape(t[2:-1]))
        if t == '{' or t == '[' or t == '<':
            close = {'{': '}', '[': ']', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                r = self._elems('}')
                self.expect('>')
                return ('agg', r)
            return ('agg', self._elems(close))
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                self.next()
                if self.peek() == '(' and self.peek(-1) == 'inrange':
                    self.skip_parens()
            self.expect('(')
            ety = self.type()
            self.expect(',')
            ops = []
            while True:
                self.accept('inrange')
                oty = self.type()
                self.accept('inrange')
                ops.append((oty, self.const(oty)[1]))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('gep', ety, ops[0][1], ops[1:])
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            fty = self.type()
            v = self.const(fty)[1]
            self.expect('to')
            tty = self.type()
            self.expect(')')
            return ('cast', t, fty, v, tty)
        if t in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            fty = self.type()
            a = self.const(fty)[1]
            self.expect(',')
            fty2 = self.type()
            b = self.const(fty2)[1]
            self.expect(')')
            return ('bin', t, fty, a, b)
        if t == 'icmp':
            pred = self.next()
            self.expect('(')
            fty = self.type()
            a = self.const(fty)[1]
            self.expect(',')
            fty2 = self.type()
            b = self.const(fty2)[1]
            self.expect(')')
            return ('icmp', pred, fty, a, b)
        if t == 'blockaddress':
            self.expect('(')
            f = unq(self.next())
            self.expect(',')
            l = unq(self.next())
            self.expect(')')
            return ('ba', f, l)
        if t in ('dso_local_equivalent', 'no_cfi'):
            return ('g', unq(self.next()))
        if t.startswith('0x'):
            return ('fp', t)
        try:
            return ('fp', float(t))
        except ValueError:
            pass
        raise IRError('const? ' + t + ' :: ' + ' '.join(self.t)[:300])

    def _elems(self, close):
        r = []
        while self.peek() != close:
            ty = self.type()
            r.append((ty, self.const(ty)[1]))
            self.accept(',')
        self.next()
        return r

    def typed(self):
        """type [attrs] value"""
        ty = self.type()
        if ty == ('meta',):
            self.skip_meta()
            return (ty, ('c', 0))
        while True:
            t = self.peek()
            if t and (t[0] in '%@"-0123456789{[<' or t.startswith('c"') or t in CONSTKW):
                break
            self.next()
            if t == 'align' and self.peek() != '(':
                self.next()
            if self.peek() == '(':
                self.skip_parens()
        return (ty, self.const(ty))

    def skip_meta(self):
        d = 0
        while True:
            t = self.peek()
            if d == 0 and t in (',', ')', ''):
                return
            if t == '(':
                d += 1
            if t == ')':
                d -= 1
            self.next()


CONSTKW = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr', 'ptrtoint', 'inttoptr', 'bitcast',
           'trunc', 'zext', 'sext', 'sub', 'add', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr', 'icmp', 'blockaddress',
           'dso_local_equivalent', 'no_cfi'}

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'samesign', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nusw'}


def parse_instr(s, mod):
    dbg = None
    k = s.find(', !dbg !')
    if k >= 0:
        m = re.match(r', !dbg (!\d+)', s[k:])
        dbg = m.group(1)
    # cut trailing metadata
    k = re.search(r',? ![a-zA-Z_][\w.]* !', s)
    if k and not s.lstrip().startswith('call void @llvm.dbg'):
        s = s[:k.start()]
    p = P(s, mod)
    res = None
    if p.peek(1) == '=' and p.peek()[0] == '%':
        res = unq(p.next())
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()

    def mk(ty, *a):
        r = Instr(op, res, ty, a, dbg)
        r.text = s
        return r
    if op in BIN:
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        a = p.const(ty)
        p.expect(',')
        b = p.const(ty)
        return mk(ty, a, b)
    if op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        ty, a = p.typed()
        return mk(ty, a)
    if op == 'freeze':
        ty, a = p.typed()
        return mk(ty, ty, a)
    if op in CAST:
        while p.peek() in FLAGS:
            p.next()
        ty, a = p.typed()
        p.expect('to')
        t2 = p.type()
        return mk(t2, ty, a)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a = p.const(ty)
        p.expect(',')
        b = p.const(ty)
        return mk(ty, pred, a, b)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return mk(None, unq(p.next()))
        ty = p.type()
        c = p.const(ty)
        p.expect(',')
        p.expect('label')
        a = unq(p.next())
        p.expect(',')
        p.expect('label')
        b = unq(p.next())
        return mk(None, c, a, b)
    if op == 'switch':
        ty, v = p.typed()
        p.expect(',')
        p.expect('label')
        d = unq(p.next())
        p.expect('[')
        cases = []
        while not p.accept(']'):
            t2 = p.type()
            c = p.const(t2)[1]
            p.expect(',')
            p.expect('label')
            cases.append((c, unq(p.next())))
        return mk(ty, v, d, cases)
    if op == 'indirectbr':
        ty, v = p.typed()
        p.expect(',')
        p.expect('[')
        ls = []
        while not p.accept(']'):
            p.expect('label')
            ls.append(unq(p.next()))
            p.accept(',')
        return mk(ty, v, ls)
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        inc = {}
        while p.accept('['):
            v = p.const(ty)
            p.expect(',')
            inc[unq(p.next())] = v
            p.expect(']')
            if not p.accept(','):
                break
        return mk(ty, inc)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        ct, c = p.typed()
        p.expect(',')
        ty, a = p.typed()
        p.expect(',')
        ty, b = p.typed()
        return mk(ty, ct, c, a, b)
    if op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        pt, a = p.typed()
        return mk(ty, a)
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        ty, v = p.typed()
        p.expect(',')
        pt, a = p.typed()
        return mk(ty, v, a)
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                n = p.typed()
                p.accept(',')
        al = 1
        if p.accept('align'):
            al = int(p.next())
        return mk(ty, n, al)
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        p.expect(',')
        ops = [p.typed()]
        while p.accept(','):
            p.accept('inrange')
            ops.append(p.typed())
        return mk(ty, ops)
    if op == 'extractvalue':
        ty, v = p.typed()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return mk(ty, v, idx)
    if op == 'insertvalue':
        ty, v = p.typed()
        p.expect(',')
        t2, v2 = p.typed()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return mk(ty, v, t2, v2, idx)
    if op == 'extractelement':
        ty, v = p.typed()
        p.expect(',')
        t2, i = p.typed()
        return mk(ty, v, i)
    if op == 'insertelement':
        ty, v = p.typed()
        p.expect(',')
        t2, e = p.typed()
        p.expect(',')
        t3, i = p.typed()
        return mk(ty, v, e, i)
    if op == 'shufflevector':
        ty, a = p.typed()
        p.expect(',')
        t2, b = p.typed()
        p.expect(',')
        t3, m = p.typed()
        return mk(ty, a, b, t3, m)
    if op == 'ret':
        if p.peek() == 'void':
            return mk(None)
        ty, v = p.typed()
        return mk(ty, v)
    if op == 'unreachable':
        return mk(None)
    if op in ('call', 'invoke'):
        while True:
            t = p.peek()
            save = p.i
            if t in FLAGS or t in ('fastcc', 'ccc', 'coldcc', 'noundef', 'zeroext', 'signext', 'noalias', 'nonnull', 'inreg', 'range', 'noext'):
                p.next()
                if p.peek() == '(' and t in ('range',):
                    p.skip_parens()
                continue
            if t in ('align',):
                p.next(); p.next()
                continue
            if t in ('dereferenceable', 'dereferenceable_or_null', 'addrspace'):
                p.next()
                p.skip_parens()
                continue
            break
        ty = p.type()
        if ty[0] == 'fn':
            ty = ty[1]
        callee = p.next()
        if callee == 'asm':
            if p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                    p.next()
            asm = p.next()
            p.expect(',')
            cons = p.next()
            cal = ('asm', asm, cons)
        elif callee[0] == '%':
            cal = ('l', unq(callee))
        else:
            cal = ('c', p._const(callee, PTR))
        p.expect('(')
        args = []
        while p.peek() != ')':
            if p.peek() == 'metadata':
                p.next()
                p.skip_meta()
                args.append((('meta',), ('c', 0)))
            else:
                args.append(p.typed())
            p.accept(',')
        p.next()
        nd = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            nd = unq(p.next())
            p.expect('unwind')
            p.expect('label')
            nd = (nd, unq(p.next()))
        return mk(ty, cal, args, nd)
    if op == 'fence':
        return mk(None)
    if op == 'cmpxchg':
        p.accept('weak')
        p.accept('volatile')
        pt, a = p.typed()
        p.expect(',')
        ty, c = p.typed()
        p.expect(',')
        ty, n = p.typed()
        return mk(ty, a, c, n)
    if op == 'atomicrmw':
        p.accept('volatile')
        rop = p.next()
        pt, a = p.typed()
        p.expect(',')
        ty, v = p.typed()
        return mk(ty, rop, a, v)
    if op in ('landingpad', 'resume', 'va_arg'):
        return mk(None)
    raise IRError('instr? ' + s)


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'align', 'line', 'parsed')


class Module:
    def __init__(self, text):
        self.types = Types()
        self.functions = {}
        self.globals = {}
        self.decls = set()
        self.aliases = {}
        self.md = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        fname = re.compile(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(')
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                m = fname.search(ln)
                f = Function(self, unq(m.group(1)), ln)
                i += 1
                while lines[i] != '}':
                    f.lines.append(lines[i])
                    i += 1
                self.functions[f.name] = f
            elif ln.startswith('declare'):
                m = fname.search(ln)
                self.decls.add(unq(m.group(1)))
            elif ln.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = ', ln)
                g = Global()
                g.name = unq(m.group(1))
                g.line = ln[m.end():]
                g.parsed = False
                self.globals[g.name] = g
            elif ln.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w.$]+) = type (.*)$', ln)
                nm = unq(m.group(1))
                if m.group(2).strip() == 'opaque':
                    self.types.named[nm] = ('struct', False, ())
                else:
                    p = P(m.group(2), self)
                    self.types.named[nm] = p.type()
            elif ln.startswith('!'):
                m = re.match(r'(![\w.]+) = (.*)$', ln)
                if m:
                    self.md[m.group(1)] = m.group(2)
            i += 1

    def glob(self, name):
        g = self.globals.get(name)
        if g is None or g.parsed:
            return g
        g.parsed = True
        p = P(g.line, self)
        ext = False
        kind = None
        while True:
            t = p.peek()
            if t in ('global', 'constant'):
                g.const = t == 'constant'
                p.next()
                break
            if t == 'alias':
                p.next()
                p.type()
                p.expect(',')
                p.type()
                c = p.const(PTR)[1]
                self.aliases[name] = c
                g.ty = None
                g.init = ('alias', c)
                return g
            if t in ('external', 'extern_weak'):
                ext = True
            p.skip_attr()
        g.ty = p.type()
        g.init = None
        if not ext:
            g.init = p.const(g.ty)[1]
        m = re.search(r', align (\d+)', g.line)
        g.align = int(m.group(1)) if m else 1
        return g

    def loc(self, dbg):
        """resolve !N DILocation to file:line (innermost)"""
        s = self.md.get(dbg, '')
        m = re.search(r'DILocation\(line: (\d+)', s)
        if not m:
            return ''
        line = m.group(1)
        m = re.search(r'scope: (!\d+)', s)
        sc = m.group(1) if m else None
        while sc:
            t = self.md.get(sc, '')
            m = re.search(r'file: (!\d+)', t)
            if m:
                f = self.md.get(m.group(1), '')
                m2 = re.search(r'filename: "([^"]*)"', f)
                return (m2.group(1) if m2 else '?') + ':' + line
            m = re.search(r'scope: (!\d+)', t)
            sc = m.group(1) if m else None
        return '?:' + line
