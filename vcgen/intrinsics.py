"""Semantics of compiler intrinsics, libc/libstdc++ primitives and contract intrinsics."""
import re
import z3
from engine import (Ptr, FnPtr, UNDEF, Agg, NBase, NWrite, NFill, NCopy, Obj, Fork, PathEnd, Undecided, isz, bv, simp, boolz, sgn,
                    offterm, addoff, splitc, ARR, M64)
from ir import PTR

TABLE = {}
PREFIX = []


def reg(*names):
    def d(fn):
        for n in names:
            if n.endswith('*'):
                PREFIX.append((n[:-1], fn))
            else:
                TABLE[n] = fn
        return fn
    return d


def lookup(name):
    h = TABLE.get(name)
    if h is None:
        for p, fn in PREFIX:
            if name.startswith(p):
                TABLE[name] = fn
                return fn
    return h


def width(E, ins, args, i=0):
    return E.T.res(args[i][0])[1]


def cstr(E, st, p):
    p = E.resolve(st, p)
    if not isinstance(p, Ptr) or p.base is not None:
        raise Undecided('string argument')
    o = E.getobj(st, p.obj)
    if not (isinstance(o.node, NBase) and o.node.kind == 'bytes'):
        raise Undecided('string argument')
    d = o.node.data
    return d[p.delta:d.index(0, p.delta)].decode()


# ---------------------------------------------------------------- no-ops
@reg('llvm.lifetime.*', 'llvm.dbg.*', 'llvm.experimental.noalias.*', 'llvm.prefetch.*', 'llvm.invariant.*', 'llvm.donothing',
     'llvm.stackrestore*', 'llvm.assume', 'llvm.sideeffect', 'llvm.var.annotation*')
def _nop(E, st, ins, name, a, args):
    return UNDEF


@reg('llvm.stacksave*')
def _ss(E, st, ins, name, a, args):
    return 0


@reg('llvm.expect.*', 'llvm.launder.*', 'llvm.strip.*', 'llvm.ptr.annotation*')
def _id(E, st, ins, name, a, args):
    return a[0]


@reg('llvm.is.constant.*')
def _isconst(E, st, ins, name, a, args):
    return 0


@reg('llvm.ubsantrap')
def _trap(E, st, ins, name, a, args):
    from engine import TRAPS
    k = TRAPS.get(a[0], str(a[0]))
    E.prove(0, f'no undefined behaviour: {k} [{E.fnlabel(st)}]', st)
    raise PathEnd()


@reg('llvm.trap', 'llvm.debugtrap', 'abort', '__assert_fail', '_ZSt9terminatev', '_ZSt20__throw_*', '_ZSt21__throw_*', '_ZSt24__throw_*', '_ZSt17__throw_*',
     '_ZSt16__throw_*', '_ZSt19__throw_*', '_ZSt25__throw_*', '_ZSt28__throw_*', '__cxa_throw', '__cxa_pure_virtual', '_ZSt22__throw_*', '_ZSt23__throw_*', '_ZSt26__throw_*')
def _abort(E, st, ins, name, a, args):
    E.prove(0, f'no abort, failed assertion or exception: {E.demangle(name)} [{E.fnlabel(st)}]', st)
    raise PathEnd()


@reg('__vc_panic')
def _panic(E, st, ins, name, a, args):
    lab = cstr(E, st, a[0])
    E.prove(0, f'no panic: {lab} [{E.fnlabel(st)}]', st)
    raise PathEnd()


# ---------------------------------------------------------------- arithmetic
@reg('llvm.sadd.with.overflow.*', 'llvm.uadd.with.overflow.*', 'llvm.ssub.with.overflow.*', 'llvm.usub.with.overflow.*',
     'llvm.smul.with.overflow.*', 'llvm.umul.with.overflow.*')
def _ovf(E, st, ins, name, a, args):
    w = width(E, ins, args)
    x, y = E.num(a[0], w), E.num(a[1], w)
    k = name[5:9]
    if isinstance(x, int) and isinstance(y, int):
        X, Y = (sgn(x, w), sgn(y, w)) if k[0] == 's' else (x, y)
        r = X + Y if k[1:] == 'add' else X - Y if k[1:] == 'sub' else X * Y
        m = r & ((1 << w) - 1)
        R = sgn(m, w) if k[0] == 's' else m
        return Agg([m, int(R != r)])
    A, B = bv(x, w), bv(y, w)
    op = k[1:]
    if op == 'add':
        r = E.binop('add', w, x, y)
        o = z3.Not(z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))) if k[0] == 's' else z3.ULT(bv(r, w), A)
    elif op == 'sub':
        r = E.binop('sub', w, x, y)
        o = z3.Not(z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))) if k[0] == 's' else z3.ULT(A, B)
    else:
        r = E.binop('mul', w, x, y)
        if k[0] == 'u' and (isinstance(x, int) or isinstance(y, int)):
            c, t = (x, B) if isinstance(x, int) else (y, A)
            o = z3.BoolVal(False) if c == 0 else z3.UGT(t, z3.BitVecVal(((1 << w) - 1) // c, w))
        elif k[0] == 's' and (isinstance(x, int) or isinstance(y, int)) and sgn(x if isinstance(x, int) else y, w) > 0:
            c, t = (x, B) if isinstance(x, int) else (y, A)
            mx = ((1 << (w - 1)) - 1) // c
            mn = -((1 << (w - 1)) // c)
            o = z3.Or(t > z3.BitVecVal(mx, w), t < z3.BitVecVal(mn, w))
        elif w == 64 and E.opts.get('mul_axioms', True):
            p = E.wide_mul(A, B, k[0] == 's')
            r = simp(z3.Extract(63, 0, p))
            hi = z3.Extract(127, 64, p)
            o = (hi != z3.If(z3.Extract(63, 63, p) == 1, z3.BitVecVal(-1, 64), z3.BitVecVal(0, 64))) if k[0] == 's' else hi != 0
        elif k[0] == 's':
            o = z3.Not(z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B)))
        else:
            o = z3.Not(z3.BVMulNoOverflow(A, B, False))
    return Agg([r, simp(o)])


@reg('llvm.uadd.sat.*', 'llvm.usub.sat.*')
def _sat(E, st, ins, name, a, args):
    w = width(E, ins, args)
    A, B = bv(E.num(a[0], w), w), bv(E.num(a[1], w), w)
    if 'uadd' in name:
        r = A + B
        return simp(z3.If(z3.ULT(r, A), z3.BitVecVal(-1, w), r))
    return simp(z3.If(z3.ULT(A, B), z3.BitVecVal(0, w), A - B))


def _vec(E, fn, ty, *xs):
    t = E.T.res(ty)
    if t[0] == 'vec':
        return Agg(fn(t[2][1], *[x[i] for x in xs]) for i in range(t[1]))
    return fn(t[1], *xs)


@reg('llvm.umin.*', 'llvm.umax.*', 'llvm.smin.*', 'llvm.smax.*')
def _minmax(E, st, ins, name, a, args):
    op = name[5:9]

    def go(w, x, y):
        x, y = E.num(x, w), E.num(y, w)
        pred = ('u' if op[0] == 'u' else 's') + ('lt' if op.endswith('min') else 'gt')
        c = E.icmp(pred, ('i', w), x, y, st)
        return E.ite(c, x, y, w)
    return _vec(E, go, args[0][0], a[0], a[1])


@reg('llvm.abs.*')
def _abs(E, st, ins, name, a, args):
    w = width(E, ins, args)
    x = E.num(a[0], w)
    n = E.binop('sub', w, 0, x)
    return E.ite(E.icmp('slt', ('i', w), x, 0, st), n, x, w)


@reg('llvm.bswap.*')
def _bswap(E, st, ins, name, a, args):
    def go(w, x):
        x = E.num(x, w)
        n = w // 8
        if isinstance(x, int):
            return int.from_bytes(x.to_bytes(n, 'little'), 'big')
        return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n)]))
    return _vec(E, go, args[0][0], a[0])


@reg('llvm.bitreverse.*')
def _brev(E, st, ins, name, a, args):
    w = width(E, ins, args)
    x = bv(E.num(a[0], w), w)
    return simp(z3.Concat(*[z3.Extract(i, i, x) for i in range(w)]))


@reg('llvm.ctpop.*')
def _ctpop(E, st, ins, name, a, args):
    w = width(E, ins, args)
    x = E.num(a[0], w)
    if isinstance(x, int):
        return bin(x).count('1')
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
    return simp(r)


@reg('llvm.ctlz.*', 'llvm.cttz.*')
def _clz(E, st, ins, name, a, args):
    w = width(E, ins, args)
    x = E.num(a[0], w)
    lead = 'ctlz' in name
    if isinstance(x, int):
        if x == 0:
            return w
        return w - x.bit_length() if lead else (x & -x).bit_length() - 1
    r = z3.BitVecVal(w, w)
    rng = range(w) if lead else range(w - 1, -1, -1)
    for i in rng:
        r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if lead else i, w), r)
    return simp(r)


@reg('llvm.fshl.*', 'llvm.fshr.*')
def _fsh(E, st, ins, name, a, args):
    w = width(E, ins, args)
    x, y, s = [bv(E.num(v, w), w) for v in a]
    s = z3.URem(s, z3.BitVecVal(w, w)) if w & (w - 1) else s & (w - 1)
    cc = z3.Concat(x, y)
    s2 = z3.ZeroExt(w, s)
    if 'fshl' in name:
        return simp(z3.Extract(2 * w - 1, w, cc << s2))
    return simp(z3.Extract(w - 1, 0, z3.LShR(cc, s2)))


@reg('llvm.objectsize.*')
def _objsize(E, st, ins, name, a, args):
    return (1 << 64) - 1


@reg('llvm.ptrmask.*')
def _ptrmask(E, st, ins, name, a, args):
    raise Undecided('ptrmask')


@reg('llvm.readcyclecounter', 'llvm.x86.rdtscp', 'llvm.x86.rdtsc')
def _tsc(E, st, ins, name, a, args):
    return E.fresh(64, 'tsc') if name.endswith('er') or name.endswith('tsc') else Agg([E.fresh(64, 'tsc'), E.fresh(32, 'tsc')])


@reg('llvm.load.relative.*')
def _loadrel(E, st, ins, name, a, args):
    base = E.resolve(st, a[0])
    p = E.gep(base, ('i', 8), [(args[1][0], a[1])])
    v = E.load(st, p, ('i', 32))
    base_p = base
    # relative offsets are link-time constants: resolve through initialiser
    raise Undecided('load.relative')


# ---------------------------------------------------------------- memory
def do_copy(E, st, dst, src, n, what):
    dst, src = E.resolve(st, dst), E.resolve(st, src)
    n = E.num(n, 64)
    if isinstance(n, int) and n == 0:
        return
    if isz(n):
        c = E.enum_small(n) if hasattr(E, 'enum_small') else None
        if c is not None:
            n = c
            if n == 0:
                return
    for p in (dst, src):
        if not isinstance(p, Ptr):
            if isz(n):
                E.prove(n == 0, f'copy through invalid pointer has size 0 [{E.fnlabel(st)}]', st)
                E.assume(n == 0)
                return
            E.prove(0, f'pointer dereference valid [{E.fnlabel(st)}]', st)
            raise PathEnd()
    so = E.getobj(st, src.obj)
    do = E.getobj(st, dst.obj)
    E.bounds(st, so, src, n, E.fnlabel(st))
    E.bounds(st, do, dst, n, E.fnlabel(st))
    if do.ro:
        E.prove(0, f'no write to constant data [{E.fnlabel(st)}]', st)
    if st.guards:
        E.checkguard(st, src, n, '')
        E.checkguard(st, dst, n, '')
    node = None
    if isinstance(n, int) and n <= 64:
        # copy word-wise to keep values in exact shape
        v = try_exact(E, st, so.node, src.base, src.delta, n)
        node = do.node
        for off, k, x in v:
            node = E.push_write(node, dst.base, dst.delta + off, k, x)
    else:
        node = NCopy(do.node, dst.base, dst.delta, n, so.node, src.base, src.delta)
    o = E.getobj(st, dst.obj).copy()
    o.node = node
    st.mem[dst.obj] = o


def try_exact(E, st, node, base, delta, n):
    """read n bytes preserving pointers and word boundaries where possible"""
    # look for whole-range exact write
    out = []
    i = 0
    while i < n:
        k = n - i
        got = False
        if k >= 1:
            w = peek_exact(node, base, delta + i, k)
            if w is not None:
                m, v = w
                out.append((i, m, v))
                i += m
                got = True
        if not got:
            k = 8 if (n - i) >= 8 else 1
            if (n - i) == 32 or (n - i) == 20:
                k = n - i
            for kk in range(1, k):
                # do not step over the start of an exactly written pointer
                w = peek_exact(node, base, delta + i + kk, n - i - kk)
                if w is not None and isinstance(w[1], (Ptr, FnPtr)):
                    k = kk
                    break
            out.append((i, k, E.rbytes(st, node, base, delta + i, k)))
            i += k
    return out


def peek_exact(node, base, delta, maxn):
    """newest write starting exactly at (base,delta) fitting maxn with only disjoint newer writes"""
    while isinstance(node, NWrite):
        same = node.base is base or (base is not None and node.base is not None and node.base.eq(base))
        if not same:
            return None
        d = delta - node.delta
        if d == 0:
            return (node.n, node.val) if node.n <= maxn else None
        if 0 < d < node.n:
            return None
        if d < 0 and -d < maxn and -d < 8:
            return None
        node = node.prev
    if isinstance(node, NBase) and node.kind == 'bytes' and base is None:
        r = node.relocs.get(delta)
        if r and r[0] <= maxn:
            return r
    return None


@reg('llvm.memcpy.*', 'llvm.memmove.*', 'memcpy', 'memmove')
def _memcpy(E, st, ins, name, a, args):
    do_copy(E, st, a[0], a[1], a[2], name)
    return a[0]


@reg('llvm.memset.*', 'memset')
def _memset(E, st, ins, name, a, args):
    p = E.resolve(st, a[0])
    n = E.num(a[2], 64)
    v = E.num(a[1], E.T.res(args[1][0])[1])
    if E.T.res(args[1][0])[1] != 8:
        v = v & 255 if isinstance(v, int) else simp(z3.Extract(7, 0, v))
    if isinstance(n, int) and n == 0:
        return a[0]
    if not isinstance(p, Ptr):
        if isz(n):
            E.prove(n == 0, f'fill through invalid pointer has size 0 [{E.fnlabel(st)}]', st)
            E.assume(n == 0)
            return a[0]
        E.prove(0, f'pointer dereference valid [{E.fnlabel(st)}]', st)
        raise PathEnd()
    o = E.getobj(st, p.obj)
    E.bounds(st, o, p, n, E.fnlabel(st))
    if o.ro:
        E.prove(0, f'no write to constant data [{E.fnlabel(st)}]', st)
    if st.guards:
        E.checkguard(st, p, n, '')
    o = o.copy()
    if isinstance(n, int) and n <= 64 and isinstance(v, int):
        o.node = E.push_write(o.node, p.base, p.delta, n, int.from_bytes(bytes([v]) * n, 'little'))
    else:
        o.node = NFill(o.node, p.base, p.delta, n, v)
    st.mem[p.obj] = o
    return a[0]


def cmpbytes(E, st, a, b, n):
    pa, pb = E.resolve(st, a), E.resolve(st, b)
    for p in (pa, pb):
        if not isinstance(p, Ptr):
            E.prove(0, f'pointer dereference valid [{E.fnlabel(st)}]', st)
            raise PathEnd()
        E.bounds(st, E.getobj(st, p.obj), p, n, E.fnlabel(st))
        if st.guards:
            E.checkguard(st, p, n, '')
    return pa, pb


@reg('memcmp', 'bcmp')
def _memcmp(E, st, ins, name, a, args):
    n = E.num(a[2], 64)
    if isinstance(n, int):
        if n == 0:
            return 0
        pa, pb = cmpbytes(E, st, a[0], a[1], n)
        if n > 4096:
            raise Undecided('large memcmp')
        oa, ob = E.getobj(st, pa.obj), E.getobj(st, pb.obj)
        xs, ys = [], []
        step = n if n <= 64 else 32
        if n <= 64 and not (isinstance(oa.node, NBase) and isinstance(ob.node, NBase)):
            pass
        i = 0
        while i < n:
            k = min(step, n - i)
            xs.append((E.rbytes(st, oa.node, pa.base, pa.delta + i, k), k))
            ys.append((E.rbytes(st, ob.node, pb.base, pb.delta + i, k), k))
            i += k
        x, y = E._concat(st, xs), E._concat(st, ys)
        if isinstance(x, int) and isinstance(y, int):
            bx, by = x.to_bytes(n, 'little'), y.to_bytes(n, 'little')
            return 0 if bx == by else ((1 << 32) - 1 if bx < by else 1)
        w = 8 * n
        X, Y = bv(x, w), bv(y, w)
        be = lambda t: z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, t) for i in range(n)]) if n > 1 else t
        if name == 'bcmp' or E.opts.get('memcmp_eq_only'):
            return simp(z3.If(X == Y, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))
        return simp(z3.If(X == Y, z3.BitVecVal(0, 32), z3.If(z3.ULT(be(X), be(Y)), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32))))
    # symbolic length: equality decided by a witness index
    key = ('memcmp', st.frames[-1].fn.name, st.frames[-1].block, st.frames[-1].ip, st.names.get('memcmp#', 0))
    pa, pb = cmpbytes(E, st, a[0], a[1], n)
    oa, ob = E.getobj(st, pa.obj), E.getobj(st, pb.obj)
    r = E.fresh(32, 'memcmp')
    k = E.fresh(64, 'memcmp_w')
    b1, d1 = addoff(pa.base, pa.delta, k)
    b2, d2 = addoff(pb.base, pb.delta, k)
    x = bv(E.rbytes(st, oa.node, b1, d1, 1), 8)
    y = bv(E.rbytes(st, ob.node, b2, d2, 1), 8)
    E.assume(z3.Or(r == 0, z3.And(z3.ULT(k, n), x != y)))
    st.ghost.setdefault('eqs', ())
    st.ghost['eqs'] = st.ghost['eqs'] + ((r, n, oa.node, pa.base, pa.delta, ob.node, pb.base, pb.delta),)
    return r


@reg('__vc_use_eq')
def _useeq(E, st, ins, name, a, args):
    """instantiate every symbolic-length equality test at index a[0]"""
    i = bv(a[0], 64)
    for (r, n, na, ba, da, nb, bb, db) in st.ghost.get('eqs', ()):
        b1, d1 = addoff(ba, da, a[0])
        b2, d2 = addoff(bb, db, a[0])
        x = bv(E.rbytes(st, na, b1, d1, 1), 8)
        y = bv(E.rbytes(st, nb, b2, d2, 1), 8)
        E.assume(z3.Implies(z3.And(r == 0, z3.ULT(i, bv(n, 64))), x == y))
    return UNDEF


@reg('strlen')
def _strlen(E, st, ins, name, a, args):
    return len(cstr(E, st, a[0]))


@reg('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t', '__vc_malloc')
def _new(E, st, ins, name, a, args):
    n = E.num(a[0], 64)
    if isz(n):
        E.assume(z3.ULE(n, z3.BitVecVal(1 << 46, 64)))
        E.assumption_notes.add('memory allocation succeeds for requests up to 2^46 bytes')
    al = a[1] if len(a) > 1 and isinstance(a[1], int) and 'align' in name else 16
    o = E.newobj(st, n, E.uninit(), 'heap', True, al)
    return Ptr(o.id)


@reg('calloc', '__vc_calloc')
def _calloc(E, st, ins, name, a, args):
    n = E.num(a[0], 64)
    if len(a) > 1:
        n = E.binop('mul', 64, n, a[1])
    if isz(n):
        E.assume(z3.ULE(n, z3.BitVecVal(1 << 46, 64)))
        E.assumption_notes.add('memory allocation succeeds for requests up to 2^46 bytes')
    o = E.newobj(st, n, NBase('zero'), 'heap', True)
    return Ptr(o.id)


@reg('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _free(E, st, ins, name, a, args):
    p = E.resolve(st, a[0])
    if isinstance(p, int) and p == 0:
        return UNDEF
    if not isinstance(p, Ptr):
        raise Undecided('free of unknown pointer')
    o = E.getobj(st, p.obj)
    E.prove(simp(bv(offterm(p.base, p.delta), 64) == 0) if p.base is not None else int(p.delta == 0), f'freed pointer is an allocation start [{E.fnlabel(st)}]', st)
    if not o.alive or not o.heap:
        E.prove(0, f'no double or invalid free [{E.fnlabel(st)}]', st)
        raise PathEnd()
    o = o.copy()
    o.alive = False
    st.mem[p.obj] = o
    return UNDEF


@reg('pthread_mutex_lock')
def _lock(E, st, ins, name, a, args):
    p = E.resolve(st, a[0])
    h = E.rbytes(st, E.getobj(st, p.obj).node, p.base, p.delta, 1)
    E.prove(simp(bv(E._asint(st, h, 1), 8) == 0), 'a lock is never acquired while already held', st)
    E.store(st, p, ('i', 8), 1, raw=True)
    return 0


@reg('pthread_mutex_unlock')
def _unlock(E, st, ins, name, a, args):
    p = E.resolve(st, a[0])
    h = E.rbytes(st, E.getobj(st, p.obj).node, p.base, p.delta, 1)
    E.prove(simp(bv(E._asint(st, h, 1), 8) == 1), 'a lock is only released while held', st)
    E.store(st, p, ('i', 8), 0, raw=True)
    return 0


@reg('__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort')
def _zero(E, st, ins, name, a, args):
    if name == '__cxa_guard_release':
        E.store(st, a[0], ('i', 8), 1, raw=True)
    return 0


@reg('__cxa_guard_acquire')
def _guardacq(E, st, ins, name, a, args):
    p = E.resolve(st, a[0])
    h = E.rbytes(st, E.getobj(st, p.obj).node, p.base, p.delta, 1)
    return E.select(st, E.icmp('eq', ('i', 8), h, 0, st), 1, 0, ('i', 32))


@reg('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def _iosinit(E, st, ins, name, a, args):
    return UNDEF


# ---------------------------------------------------------------- contract intrinsics
def nextname(st, nm):
    k = st.names.get(nm, 0)
    st.names[nm] = k + 1
    return k


@reg('__vc_any')
def _any(E, st, ins, name, a, args):
    p = E.resolve(st, a[0])
    n = a[1]
    nm = cstr(E, st, a[2])
    k = nextname(st, nm)
    if not isinstance(n, int):
        raise Undecided('__vc_any size')
    t = z3.BitVec(f'{nm}#{k}', 8 * n)
    st.inputs.append(('any', nm, k, t, n))
    o = E.getobj(st, p.obj).copy()
    E.bounds(st, o, p, n, 'harness')
    node = o.node
    if n in (1, 2, 4, 8, 16, 32) or n == 20:
        node = E.push_write(node, p.base, p.delta, n, t)
    else:
        i = 0
        while i < n:
            m = 8 if n - i >= 8 else 4 if n - i >= 4 else 1
            node = E.push_write(node, p.base, p.delta + i, m, z3.Extract(8 * (i + m) - 1, 8 * i, t))
            i += m
    o.node = node
    st.mem[p.obj] = o
    return UNDEF


@reg('__vc_buffer')
def _buffer(E, st, ins, name, a, args):
    n = a[0]
    nm = cstr(E, st, a[2])
    k = nextname(st, nm)
    arr = z3.Const(f'{nm}#{k}', ARR)
    if isz(n):
        E.assume(z3.ULE(n, z3.BitVecVal(1 << 46, 64)))
    st.inputs.append(('buf', nm, k, arr, n))
    o = E.newobj(st, n, NBase('sym', arr), nm, True, a[1] if isinstance(a[1], int) and a[1] else 16)
    return Ptr(o.id)


@reg('__vc_havoc')
def _havoc(E, st, ins, name, a, args):
    """gives freshly allocated, unwritten storage a named arbitrary content (so that it can be replayed)"""
    p = E.resolve(st, a[0])
    n = a[1]
    nm = cstr(E, st, a[2])
    k = nextname(st, nm)
    o = E.getobj(st, p.obj)
    node = o.node
    while isinstance(node, NWrite) and node.base is None and isinstance(offterm(p.base, p.delta), int) and (node.delta >= offterm(p.base, p.delta) + n or node.delta + node.n <= offterm(p.base, p.delta)):
        node = node.prev
    if isinstance(node, NBase) and node.kind == 'sym' and offterm(p.base, p.delta) == 0:
        st.inputs.append(('buf', nm, k, node.data, n))
        return None
    raise Undecided('havoc of written storage')


@reg('__vc_const_buffer')
def _cbuffer(E, st, ins, name, a, args):
    r = _buffer(E, st, ins, name, a, args)
    st.mem[r.obj].ro = True
    return r


@reg('__vc_assume')
def _assume(E, st, ins, name, a, args):
    c = a[0]
    if c is UNDEF:
        raise Undecided('assume(undef)')
    E.assume(boolz(c) if isz(c) else c)
    return UNDEF


@reg('__vc_assert')
def _assert(E, st, ins, name, a, args):
    lab = cstr(E, st, a[1])
    c = a[0]
    if c is UNDEF:
        c = E.freshbool('undef')
    E.prove(boolz(c) if isz(c) else int(bool(c)), 'ensures ' + lab, st)
    return UNDEF


@reg('__vc_check')
def _check(E, st, ins, name, a, args):
    """a language-level check of translated code (bounds, nil, conversion): the label is complete"""
    c = a[0]
    if c is UNDEF:
        c = E.freshbool('undef')
    E.prove(boolz(c) if isz(c) else int(bool(c)), cstr(E, st, a[1]), st)
    if isinstance(c, int) and not c & 1:
        raise PathEnd()
    return UNDEF


@reg('__vc_unsupported')
def _unsupported(E, st, ins, name, a, args):
    raise Undecided(cstr(E, st, a[0]))


@reg('__vc_lemma')
def _lemma(E, st, ins, name, a, args):
    lab = cstr(E, st, a[1])
    c = a[0]
    E.prove(boolz(c) if isz(c) else int(bool(c)), 'lemma ' + lab, st)
    return UNDEF


@reg('__vc_cover')
def _cover(E, st, ins, name, a, args):
    lab = cstr(E, st, a[0])
    if lab not in E.covers:
        if E.model is not None:
            E.covers.add(lab)
        else:
            r = E._check()
            if r == z3.sat:
                E.covers.add(lab)
                E.model = E.s.model()
            elif r == z3.unsat:
                raise PathEnd()
    return UNDEF


@reg('__vc_uf')
def _uf(E, st, ins, name, a, args):
    nm = cstr(E, st, a[0])
    outp, outlen, inp, inlen = E.resolve(st, a[1]), a[2], E.resolve(st, a[3]), a[4]
    parts = []
    o = E.getobj(st, inp.obj)
    i = 0
    while i < inlen:
        k = min(32, inlen - i)
        parts.append((E.rbytes(st, o.node, inp.base, inp.delta + i, k), k))
        i += k
    x = bv(E._concat(st, parts), 8 * inlen)
    f = E.ufs.get(('vcuf', nm))
    if f is None:
        f = E.ufs[('vcuf', nm)] = z3.Function('uf_' + nm, z3.BitVecSort(8 * inlen), z3.BitVecSort(8 * outlen))
    r = f(x)
    st.inputs.append(('uf', nm, x, r, inlen, outlen))
    ob = E.getobj(st, outp.obj).copy()
    ob.node = E.push_write(ob.node, outp.base, outp.delta, outlen, r)
    st.mem[outp.obj] = ob
    return UNDEF


@reg('__vc_memory_fee56')
def _memfee56(E, st, ins, name, a, args):
    return _memfee(E, st, ins, name, a, args, 56)   # sizes up to 2^37 bytes (lemma in lfvm_memory.go)


@reg('__vc_memory_fee')
def _memfee(E, st, ins, name, a, args, width=54):
    def cost(x):
        w = z3.LShR(x + 31, z3.BitVecVal(5, 64))
        return z3.LShR(w * w, z3.BitVecVal(9, 64)) + 3 * w
    if isinstance(a[0], int) and isinstance(a[1], int):
        c = lambda x: ((x + 31) // 32) ** 2 // 512 + 3 * ((x + 31) // 32)
        return c(a[0]) - c(a[1]) if a[0] > a[1] else 0
    if isinstance(a[0], int) and a[0] == 0:
        return 0
    # below 2^54 for the sizes in reach (lemma in memfee.h), so the abstract fee is that narrow
    f = E.uf2('memfee', 64, E.num(a[0], 64), E.num(a[1], 64), lambda x, y: z3.If(z3.UGT(x, y), cost(x) - cost(y), 0))
    return simp(z3.If(z3.UGT(E.num(a[0], 64), E.num(a[1], 64)), z3.ZeroExt(64 - width, z3.Extract(width - 1, 0, f)), z3.BitVecVal(0, 64)))


@reg('__vc_ufseq')
def _ufseq(E, st, ins, name, a, args):
    nm = cstr(E, st, a[0])
    outp, outlen, inp, n = E.resolve(st, a[1]), a[2], E.resolve(st, a[3]), E.num(a[4], 64)
    if isinstance(inp, Ptr):
        o = E.getobj(st, inp.obj)
        E.bounds(st, o, inp, n, E.fnlabel(st))
        node, base, delta = o.node, inp.base, inp.delta
    else:
        E.prove(simp(bv(n, 64) == 0), f'pointer dereference valid [{E.fnlabel(st)}]', st)
        node, base, delta = NBase('zero'), None, 0
    r = E.fresh(8 * outlen, 'seq_' + nm)
    for (nm2, r2, n2, node2, b2, d2) in st.seqs:
        if nm2 != nm or r2.size() != 8 * outlen:
            continue
        if node is node2 and (base is b2 or (base is not None and b2 is not None and base.eq(b2))) and delta == d2 and (n is n2 or (isinstance(n, int) and n == n2) or (isz(n) and isz(n2) and n.eq(n2))):
            r = r2
            break
        if isinstance(n, int) and isinstance(n2, int):
            if n != n2:
                continue
            if n <= 64:
                same = True if n == 0 else simp(bv(E.rbytes(st, node, base, delta, n), 8 * n) == bv(E.rbytes(st, node2, b2, d2, n), 8 * n))
                if same is True or (isz(same) and z3.is_true(same)) or (isinstance(same, int) and same):
                    r = r2
                    break
                if isinstance(same, int) or z3.is_false(same):
                    continue
                E.assume(z3.Or(r == r2, z3.Not(same)))
                continue
        k = E.fresh(64, 'seq_w')
        x1b, x1d = addoff(base, delta, k)
        x2b, x2d = addoff(b2, d2, k)
        v1 = bv(E.rbytes(st, node, x1b, x1d, 1), 8)
        v2 = bv(E.rbytes(st, node2, x2b, x2d, 1), 8)
        N1, N2 = bv(n, 64), bv(n2, 64)
        E.assume(z3.Or(r == r2, N1 != N2, z3.And(z3.ULT(k, N1), v1 != v2)))
    else:
        st.seqs.append((nm, r, n, node, base, delta))
    ob = E.getobj(st, outp.obj).copy()
    ob.node = E.push_write(ob.node, outp.base, outp.delta, outlen, r)
    st.mem[outp.obj] = ob
    return UNDEF


@reg('__vc_guard')
def _guard(E, st, ins, name, a, args):
    p = E.resolve(st, a[0])
    n = a[1]
    h = E.resolve(st, a[2])
    st.guards.append((p.obj, p.base, p.delta, n, h.obj, h.base, h.delta, cstr(E, st, a[3])))
    return UNDEF


@reg('__vc_unguard')
def _unguard(E, st, ins, name, a, args):
    st.guards = []
    return UNDEF


@reg('__vc_same_object')
def _same(E, st, ins, name, a, args):
    x, y = E.resolve(st, a[0]), E.resolve(st, a[1])
    return int(isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj)


@reg('__vc_object_size')
def _osize(E, st, ins, name, a, args):
    x = E.resolve(st, a[0])
    return E.getobj(st, x.obj).size


@reg('__vc_peek', '__vc_peek_checked')
def _peek(E, st, ins, name, a, args):
    c = a[0]
    if isinstance(c, int) and not c & 1:
        return 0
    c = z3.BoolVal(True) if isinstance(c, int) else (c == 1 if z3.is_bv(c) else c)
    x = E.resolve(st, a[1])
    lab = f'memory access in bounds [{E.fnlabel(st)}]'
    if not isinstance(x, Ptr):
        E.prove(simp(z3.Not(c)), lab, st)
        return 0
    o = E.getobj(st, x.obj)
    i = E.num(a[2], 64)
    base, delta = addoff(x.base, x.delta, i)
    off, sz = bv(offterm(base, delta), 64), bv(o.size, 64)
    if name == '__vc_peek':
        E.prove(simp(z3.Implies(c, z3.ULT(off, sz))), lab, st)
    v = E.rbytes(st, o.node, base, delta, 1)
    return E.ite(simp(c), v, 0, 8)


@reg('__vc_readable')
def _readable(E, st, ins, name, a, args):
    n = E.num(a[1], 64)
    x = E.resolve(st, a[0])
    if isinstance(n, int) and n == 0:
        return None
    if not isinstance(x, Ptr):
        E.prove(simp(bv(n, 64) == 0), f'memory access in bounds [{E.fnlabel(st)}]', st)
        return None
    E.bounds(st, E.getobj(st, x.obj), x, n, E.fnlabel(st))
    return None


@reg('__vc_forget')
def _forget(E, st, ins, name, a, args):
    x = E.resolve(st, a[0])
    if not isinstance(x, Ptr):
        return None
    o = E.getobj(st, x.obj).copy()
    k = nextname(st, 'forgotten')
    o.node = NBase('sym', z3.Const(f'forgotten#{k}', ARR))
    st.mem[x.obj] = o
    return None


@reg('__vc_reserve')
def _reserve(E, st, ins, name, a, args):
    """spare capacity behind a fresh buffer: the object gets the given size, its further content is arbitrary"""
    x = E.resolve(st, a[0])
    o = E.getobj(st, x.obj)
    o.size = E.num(a[1], 64)
    return None


@reg('__vc_alive')
def _alive(E, st, ins, name, a, args):
    x = E.resolve(st, a[0])
    return int(isinstance(x, Ptr) and E.getobj(st, x.obj).alive)


@reg('__vc_symbolic')
def _symb(E, st, ins, name, a, args):
    return 1


@reg('__vc_split')
def _split(E, st, ins, name, a, args):
    """case split on a boolean"""
    c = a[0]
    if isz(c):
        c = boolz(c)
        if E.must(c):
            return 1
        if E.must(z3.Not(c)):
            return 0
        raise Fork([c, z3.Not(c)])
    return int(bool(c))


@reg('__vc_concretize')
def _concr(E, st, ins, name, a, args):
    """case split on all values of a 64-bit term (at most a[1])"""
    v = a[0]
    if isinstance(v, int):
        return v
    vals = E.enum(v, a[1])
    if vals is None:
        raise Undecided('too many values to concretize')
    if len(vals) == 1:
        return vals[0]
    if not vals:
        raise PathEnd()
    raise Fork([v == z3.BitVecVal(x, 64) for x in sorted(vals)])


# ---------------------------------------------------------------- assumed contracts of libstdc++ (listed as trusted in the evidence)
@reg('_ZNSt6vectorIhSaIhEE17_M_default_appendEm')
def _vec_append(E, st, ins, name, a, args):
    """std::vector<uint8_t>::_M_default_append(n): size grows by n zero bytes, existing bytes kept, any sufficient capacity."""
    E.assumption_notes.add('std::vector<uint8_t>::resize (libstdc++ _M_default_append) meets its standard contract')
    v = E.resolve(st, a[0])
    n = E.num(a[1], 64)
    if isinstance(n, int) and n == 0:
        return UNDEF
    if isz(n):
        nz = simp(n == 0)
        if isz(nz):
            if E.must(nz):
                return UNDEF
            if E.feasible(nz):
                raise Fork([nz, z3.Not(nz)])
    b = E.resolve(st, E.load(st, v, PTR))
    e = E.resolve(st, E.load(st, Ptr(v.obj, v.base, v.delta + 8), PTR))
    c = E.resolve(st, E.load(st, Ptr(v.obj, v.base, v.delta + 16), PTR))
    if isinstance(b, Ptr):
        size = E.binop('sub', 64, offterm(e.base, e.delta), offterm(b.base, b.delta))
        room = E.binop('sub', 64, offterm(c.base, c.delta), offterm(e.base, e.delta))
    else:
        size = room = 0
    tot = E.binop('add', 64, size, n)
    E.prove(simp(z3.And(z3.ULE(bv(n, 64), 1 << 62), z3.ULE(bv(size, 64), 1 << 62))), f'vector size within range [{E.fnlabel(st)}]', st)
    fits = simp(z3.UGE(bv(room, 64), bv(n, 64)))
    if isz(fits):
        if E.must(fits):
            fits = 1
        elif not E.feasible(fits):
            fits = 0
        else:
            raise Fork([fits, z3.Not(fits)])
    if fits:
        o = E.getobj(st, e.obj)
        E.bounds(st, o, e, n, E.fnlabel(st))
        o = o.copy()
        o.node = NFill(o.node, e.base, e.delta, n, 0)
        st.mem[e.obj] = o
        ne = E.gep(e, ('i', 8), [(('i', 64), n)])
        E.store(st, Ptr(v.obj, v.base, v.delta + 8), PTR, ne)
        return UNDEF
    cap = E.fresh(64, 'vector_capacity')
    E.assume(z3.And(z3.UGE(cap, bv(tot, 64)), z3.ULE(cap, z3.BitVecVal(1 << 46, 64))))
    E.assumption_notes.add('memory allocation succeeds for requests up to 2^46 bytes')
    node = E.uninit()
    if isinstance(b, Ptr) and not (isinstance(size, int) and size == 0):
        node = NCopy(node, None, 0, size, E.getobj(st, b.obj).node, b.base, b.delta)
    sb, sd = splitc(size)
    node = NFill(node, sb, sd, n, 0)
    o = E.newobj(st, cap, node, 'vector', True)
    if isinstance(b, Ptr):
        ob = E.getobj(st, b.obj).copy()
        ob.alive = False
        st.mem[b.obj] = ob
    tb, td = splitc(tot)
    cb, cd = splitc(cap)
    E.store(st, v, PTR, Ptr(o.id))
    E.store(st, Ptr(v.obj, v.base, v.delta + 8), PTR, Ptr(o.id, tb, td))
    E.store(st, Ptr(v.obj, v.base, v.delta + 16), PTR, Ptr(o.id, cb, cd))
    return UNDEF


@reg('__vc_inv')
def _inv(E, st, ins, name, a, args):
    if E.invsink is None:
        raise Undecided('loop predicate outside a loop')
    E.invsink.append((list(E.trail), a[0]))
    return None


@reg('__vc_fact')
def _fact(E, st, ins, name, a, args):
    """an instance of a definition: holds unconditionally"""
    if E.facts is not None:
        E.facts.append(a[0])
    else:
        E.assume(boolz(a[0]))
    return None


@reg('__vc_heap')
def _heap(E, st, ins, name, a, args):
    """the k-th youngest live heap block"""
    k = a[0]
    for oid in reversed(list(st.mem)):
        o = st.mem[oid]
        if o.heap and o.alive:
            if k == 0:
                return Ptr(oid)
            k -= 1
    return 0


@reg('__vc_bounded')
def _bounded(E, st, ins, name, a, args):
    """true while searching counterexamples with few loop iterations"""
    return 1 if E.opts.get('bounded') else 0
