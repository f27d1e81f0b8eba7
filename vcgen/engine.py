"""Deductive verification engine: symbolic execution of LLVM IR generated from the real sources.

Every path of a contract harness is executed for a fully symbolic pre-state; every postcondition (__vc_assert), memory access,
undefined-behaviour trap and abort is turned into a proof obligation for z3 (all inputs, no bound on data).
Loops whose trip count is not fixed by the pre-state are cut with inferred inductive invariants (loops.py)."""
import os
import pickle
import sys
import tempfile
import time
import traceback
import z3
from ir import PTR, IRError

CTX = z3.main_ctx()
BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)
ARR = z3.ArraySort(BV64, BV8)
M64 = (1 << 64) - 1


SAT_NOMODEL = 'sat-nomodel'


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class PathEnd(Exception):
    """path infeasible/finished"""


class Undecided(Exception):
    def __init__(self, why):
        super().__init__(why)
        self.why = why


class LoopLimit(Undecided):
    def __init__(self, fn, block):
        super().__init__(f'loop without bound in {fn} at block {block}')
        self.fn, self.block = fn, block


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class Ptr:
    __slots__ = ('obj', 'base', 'delta')

    def __init__(self, obj, base=None, delta=0):
        self.obj = obj
        self.base = base
        self.delta = delta

    def __repr__(self):
        return f'Ptr({self.obj},{self.base},{self.delta})'


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class BlockAddr:
    __slots__ = ('fn', 'label')

    def __init__(self, fn, label):
        self.fn, self.label = fn, label


class Agg(list):
    __slots__ = ()


def isz(x):
    return isinstance(x, z3.ExprRef)


def bv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def norm(t):
    """z3 term -> python int if it is a numeral"""
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return 1
    if z3.is_false(t):
        return 0
    return t


def simp(t):
    return norm(z3.simplify(t))


def boolz(x):
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    if z3.is_bool(x):
        return x
    return z3.Extract(0, 0, x) == z3.BitVecVal(1, 1)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def splitc(t):
    """t -> (base or None, int) with t == base + int (64 bit)"""
    if isinstance(t, int):
        return None, sgn(t & M64, 64)
    if z3.is_app_of(t, z3.Z3_OP_BADD):
        ch = t.children()
        if z3.is_bv_value(ch[0]):
            rest = ch[1:]
            b = rest[0] if len(rest) == 1 else _sum(rest)
            return b, sgn(ch[0].as_long(), 64)
    return t, 0


def _sum(l):
    r = l[0]
    for x in l[1:]:
        r = r + x
    return r


def addoff(base, delta, t):
    """(base,delta) + t  (t: int or 64-bit term)"""
    if isinstance(t, int):
        return base, sgn((delta + t) & M64, 64)
    if base is None:
        b, d = splitc(simp(t))
    else:
        b, d = splitc(simp(base + t))
    return b, sgn((d + delta) & M64, 64)


def offterm(base, delta):
    if base is None:
        return delta & M64
    if delta == 0:
        return base
    return base + z3.BitVecVal(delta & M64, 64)


# ---------------------------------------------------------------- memory contents
class NBase:
    __slots__ = ('kind', 'data', 'relocs')

    def __init__(self, kind, data=None, relocs=None):
        self.kind, self.data, self.relocs = kind, data, relocs or {}


class NWrite:
    __slots__ = ('prev', 'base', 'delta', 'n', 'val')

    def __init__(self, prev, base, delta, n, val):
        self.prev, self.base, self.delta, self.n, self.val = prev, base, delta, n, val


class NFill:
    __slots__ = ('prev', 'base', 'delta', 'len', 'byte')

    def __init__(self, prev, base, delta, ln, byte):
        self.prev, self.base, self.delta, self.len, self.byte = prev, base, delta, ln, byte


class NCopy:
    __slots__ = ('prev', 'base', 'delta', 'len', 'src', 'sbase', 'sdelta', 'srcobj')

    def __init__(self, prev, base, delta, ln, src, sbase, sdelta):
        self.prev, self.base, self.delta, self.len, self.src, self.sbase, self.sdelta = prev, base, delta, ln, src, sbase, sdelta


class Obj:
    __slots__ = ('id', 'size', 'node', 'alive', 'name', 'ro', 'heap', 'addr', 'align')

    def __init__(self, id, size, node, name='', ro=False, heap=False, align=16):
        self.id, self.size, self.node, self.alive, self.name, self.ro, self.heap = id, size, node, True, name, ro, heap
        self.align = align

    def copy(self):
        o = Obj(self.id, self.size, self.node, self.name, self.ro, self.heap, self.align)
        o.alive = self.alive
        return o


class Frame:
    __slots__ = ('fn', 'block', 'prev', 'ip', 'env', 'allocas', 'ret', 'visits', 'retblock', 'cut', 'skip')

    def copy(self):
        f = Frame()
        f.skip = self.skip
        f.fn, f.block, f.prev, f.ip, f.ret, f.retblock = self.fn, self.block, self.prev, self.ip, self.ret, self.retblock
        f.env = dict(self.env)
        f.allocas = list(self.allocas)
        f.visits = dict(self.visits)
        f.cut = self.cut
        return f


class State:
    __slots__ = ('frames', 'mem', 'inputs', 'names', 'guards', 'ufcalls', 'seqs', 'addr_done', 'ghost', 'steps', 'forks', 'memver')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.inputs = list(self.inputs)
        s.names = dict(self.names)
        s.guards = list(self.guards)
        s.ufcalls = list(self.ufcalls)
        s.seqs = list(self.seqs)
        s.addr_done = set(self.addr_done)
        s.ghost = dict(self.ghost)
        s.steps = self.steps
        s.forks = self.forks
        return s


TRAPS = {0: 'integer add overflow', 1: 'unreachable builtin', 2: 'cfi', 3: 'integer division overflow', 4: 'dynamic type', 5: 'float cast',
         6: 'function type', 7: 'implicit conversion', 8: 'invalid builtin', 9: 'invalid objc cast', 10: 'load of invalid value',
         11: 'missing return', 12: 'integer multiplication overflow', 13: 'integer negation overflow', 14: 'null argument', 15: 'null pointer arg',
         16: 'pointer overflow'}
TRAPS = {0: 'add-overflow', 1: 'builtin-unreachable', 2: 'cfi-check-fail', 3: 'divrem-overflow', 4: 'dynamic-type-cache-miss', 5: 'float-cast-overflow',
         6: 'function-type-mismatch', 7: 'implicit-conversion', 8: 'invalid-builtin', 9: 'invalid-objc-cast', 10: 'load-invalid-value',
         11: 'missing-return', 12: 'mul-overflow', 13: 'negate-overflow', 14: 'nullability-arg', 15: 'nullability-return', 16: 'nonnull-arg',
         17: 'nonnull-return', 18: 'out-of-bounds', 19: 'pointer-overflow', 20: 'shift-out-of-bounds', 21: 'sub-overflow', 22: 'type-mismatch',
         23: 'alignment-assumption', 24: 'vla-bound-not-positive'}


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.T = mod.types
        self.opts = {'loop_limit': 1200, 'sym_loop_limit': 34, 'feas_timeout': 150, 'ext_timeout': 3.0, 'ob_timeout': 30000, 'deadline': None, 'max_paths': 200000,
                     'uf_min': 64}
        self.opts.update(opts or {})
        for k in ('feas_timeout', 'ext_timeout', 'ob_timeout'):
            self.opts[k] *= self.opts.get('patience', 1)
        self.nid = 0
        self.nfresh = 0
        self.results = {}          # label -> dict
        self.failures = []
        self.covers = set()
        self.assumption_notes = set()
        self.inlined = set()
        self.solver_time = 0.0
        self.nqueries = 0
        self.vcs = 0
        self.vc_syntactic = 0
        self.vc_solver = 0
        self.npaths = 0
        self.gobjs = {}
        self.cuts = {}             # (fn, block) -> loop cut
        self.ufs = {}
        self.products = {}
        self.redirect = {}         # function -> function expressing its contract
        self.uf_real = {}          # uf name -> python lambda building the real term
        self.undecided = []
        self.maxfail = 6
        self._new_solver()
        self.tokens = None
        self.children = []
        self.looplimit = None
        self.onfail = None
        self.dry = None            # (frame depth, loop body, outer): exploring one loop iteration to find invariants
        self.icmplog = None
        self.invsink = None
        self.facts = None

    # ------------------------------------------------------------ solver
    def _new_solver(self):
        self.s = z3.SimpleSolver()
        self.s.set('timeout', self.opts['feas_timeout'])
        self.trail = []            # list of conds
        self.tvars = []            # their variables
        self.lits = {}
        self.model = None
        self.qcache = {}
        self.hard = 0
        self.vcache = {}

    def sync(self, trail):
        k = 0
        n = min(len(trail), len(self.trail))
        while k < n and trail[k] is self.trail[k]:
            k += 1
        if len(self.trail) > k:
            self.s.pop(len(self.trail) - k)
            for c in self.trail[k:]:
                i = c.get_id()
                self.lits[i] -= 1
                if not self.lits[i]:
                    del self.lits[i]
            del self.trail[k:]
            del self.tvars[k:]
            self.model = None
        for c in trail[k:]:
            self._push(c)

    def _push(self, c):
        self.s.push()
        self.s.add(c)
        self.trail.append(c)
        self.tvars.append(self.varset(c))
        self.lits[c.get_id()] = self.lits.get(c.get_id(), 0) + 1

    def assume(self, c):
        """add c (z3 Bool or int) to the path condition; PathEnd if infeasible"""
        if isinstance(c, int):
            if not c:
                raise PathEnd()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        if c.get_id() in self.lits:
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        ok = self.feasible(c)
        if not ok:
            raise PathEnd()
        self._push(c)
        m = self.model
        if m is not None and not z3.is_true(m.eval(c, model_completion=True)):
            self.model = None

    def _check(self, *extra):
        t = time.time()
        if self.opts['deadline'] and t > self.opts['deadline']:
            raise Undecided('time budget exhausted')
        self.nqueries += 1
        r = None
        if len(extra) == 1:
            cone = self.cone(extra[0])
            key = (frozenset(c.get_id() for c in cone), extra[0].get_id())
            hit = self.qcache.get(key)
            if hit is not None:
                if hit[0] == z3.unsat or hit[0] == z3.unknown or len(cone) < len(self.trail):
                    self.lastby = hit[1]
                    return SAT_NOMODEL if hit[0] == z3.sat else hit[0]
            if len(cone) < len(self.trail) and self.hard >= 4:
                # constraints sharing no variable with the query: dropping them is sound, and complete while the path is feasible
                sl = z3.SimpleSolver()
                sl.set('timeout', self.opts['feas_timeout'])
                sl.add(*cone)
                sl.add(extra[0])
                r = sl.check()
                if r == z3.unknown:
                    r = self._external(cone + [extra[0]])
                else:
                    self.lastby = 'z3'
                self.qcache[key] = (SAT_NOMODEL if r == z3.sat else r, self.lastby if r == z3.unsat else '', cone, extra[0])
                if r == z3.sat:
                    r = SAT_NOMODEL
                self.solver_time += time.time() - t
                return r
        r = self.s.check(*extra)
        if r == z3.unknown:
            self.hard += 1
            r = self._external((cone if len(extra) == 1 else self.trail) + list(extra))
        else:
            self.lastby = 'z3'
        if len(extra) == 1 and r in (z3.unsat, z3.unknown):
            self.qcache[key] = (r, self.lastby, cone, extra[0])
        dt = time.time() - t
        self.solver_time += dt
        return r

    def _external(self, conds):
        import portfolio
        import lia
        near = self.near(conds)
        if len(near) < len(conds) and lia.unsat(near, 300) or lia.unsat(conds, 1000):
            self.lastby = 'z3-lia'
            return z3.unsat
        o, w = portfolio.solve(conds, self.opts['ext_timeout'], ('cvc5-int', 'z3'))
        if o == 'unsat':
            self.lastby = w
            return z3.unsat
        return SAT_NOMODEL if o == 'sat' else z3.unknown

    def varset(self, e):
        k = e.get_id()
        r = self.vcache.get(k)
        if r is not None:
            return r[1]
        out = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            ch = x.children()
            if not ch:
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                continue
            if z3.is_select(x) and not ch[0].children():
                out.add(i)
                st.append(ch[1])
                continue
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                # an abstract operation is a variable of its own (equal arguments are the same term)
                out.add(i)
                continue
            st.extend(ch)
        self.vcache[k] = (e, out)
        return out

    def cone(self, e):
        """constraints of the path condition connected to e through shared variables"""
        cur = set(self.varset(e))
        rest = list(range(len(self.trail)))
        used = []
        while True:
            nxt = []
            n = len(used)
            for i in rest:
                v = self.tvars[i]
                if v.isdisjoint(cur):
                    nxt.append(i)
                else:
                    used.append(i)
                    cur |= v
            if len(used) == n:
                break
            rest = nxt
        used.sort()
        return [self.trail[i] for i in used]

    def near(self, conds):
        """the conditions sharing a variable with the last one"""
        v = self.varset(conds[-1])
        return [c for c in conds if not self.varset(c).isdisjoint(v)]

    def getmodel(self):
        try:
            return self.s.model()
        except z3.Z3Exception:
            return None

    def feasible(self, c):
        """may return True on unknown"""
        if isinstance(c, int):
            return bool(c)
        if c.get_id() in self.lits:
            return True
        nc = c.arg(0) if z3.is_not(c) else z3.Not(c)
        if nc.get_id() in self.lits:
            return False
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            return True
        r = self._check(c)
        if r == z3.unsat:
            return False
        if r == z3.sat:
            self.model = self.getmodel()
        return True

    def must(self, c, timeout=None):
        """is c implied by the path condition (False when unknown)"""
        c = simp(c) if isz(c) else c
        if isinstance(c, int):
            return bool(c)
        if c.get_id() in self.lits:
            return True
        nc = z3.Not(c)
        if self.model is not None and z3.is_true(self.model.eval(nc, model_completion=True)):
            return False
        r = self._check(nc)
        if r == z3.sat:
            # keep model: it satisfies pc
            self.model = self.getmodel()
        return r == z3.unsat

    # ------------------------------------------------------------ obligations
    def res(self, label):
        r = self.results.get(label)
        if r is None:
            r = self.results[label] = {'vcs': 0, 'ok': 0, 'fail': 0, 'undecided': 0, 'by': {}}
        return r

    def prove(self, c, label, st):
        """obligation: path condition => c"""
        if self.dry is not None:
            if isinstance(c, int):
                if not c:
                    raise PathEnd()
                return
            self.assume(boolz(c))
            return
        r = self.res(label)
        r['vcs'] += 1
        self.vcs += 1
        if isz(c):
            c = simp(c)
        if isinstance(c, int) and c:
            r['ok'] += 1
            self.vc_syntactic += 1
            r['by']['simplifier'] = r['by'].get('simplifier', 0) + 1
            return
        nc = z3.BoolVal(True) if isinstance(c, int) else z3.simplify(z3.Not(c))
        if isz(c) and c.get_id() in self.lits:
            r['ok'] += 1
            self.vc_syntactic += 1
            return
        if r['fail'] >= 2:
            # already refuted: do not spend time on further paths
            if isinstance(c, int):
                raise PathEnd()
            self.assume(c)
            return
        how, model = self.discharge(nc, st)
        if how == 'sat':
            r['fail'] += 1
            self.failures.append({'label': label, 'model': model, 'where': self.where(st)})
            if self.onfail:
                self.onfail(self.failures[-1])
            if isinstance(c, int):
                raise PathEnd()
            self.assume(c)
            return
        if how == 'unknown':
            r['undecided'] += 1
            self.undecided.append({'label': label, 'where': self.where(st), 'why': 'solver timeout'})
            if isinstance(c, int):
                raise PathEnd()
            self.assume(c)
            return
        r['ok'] += 1
        self.vc_solver += 1
        r['by'][how] = r['by'].get(how, 0) + 1
        if isinstance(c, int):
            raise PathEnd()
        # implied: record for cheap reuse (postconditions only tie unrelated variables together)
        if not label.startswith('ensures'):
            self._push(c)

    def discharge(self, nc, st):
        r = self._check(nc)
        if r == z3.unsat:
            return self.lastby, None
        conds = list(self.trail) + [nc]
        if r == z3.unknown or r == SAT_NOMODEL:
            import portfolio
            t = time.time()
            o, w = portfolio.solve(self.cone(nc) + [nc], self.opts['ob_timeout'] / 1000.0) if r == z3.unknown else ('sat', '')
            self.solver_time += time.time() - t
            if o == 'unsat':
                return w, None
            r2, m2 = self.oneshot(conds, self.opts['ob_timeout'])
            if r2 == z3.unsat:
                return 'z3-oneshot', None
            if r2 == z3.unknown:
                return self._refine(conds, st, None)
            return self._refine(conds, st, m2)
        return self._refine(conds, st, self.getmodel())

    def oneshot(self, conds, timeout):
        t = time.time()
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'smt').solver() if False else z3.Solver()
        s.set('timeout', timeout)
        s.add(*conds)
        r = s.check()
        self.solver_time += time.time() - t
        self.nqueries += 1
        return r, (s.model() if r == z3.sat else None)

    def _refine(self, conds, st, model):
        """replace abstract wide operations by the real ones and re-check"""
        if not self.uf_real:
            if model is None:
                return 'unknown', None
            return 'sat', self.mkmodel(st, model, conds)
        subs = list(self.uf_real.values())
        real = [z3.substitute_funs(c, *subs) if hasattr(z3, 'substitute_funs') else c for c in conds]
        same = all(a.eq(b) for a, b in zip(real, conds))
        if same:
            if model is None:
                return 'unknown', None
            return 'sat', self.mkmodel(st, model, conds)
        # prefer small witnesses first: cheap refutation of spurious models
        r, m = self.oneshot(real, min(self.opts['ob_timeout'], 4000 * self.opts.get('patience', 1)))
        if r == z3.unknown:
            import portfolio
            o, w = portfolio.solve(real, self.opts['ob_timeout'] / 1000, ('cvc5-int',))
            if o == 'unsat':
                return w, None
            r, m = self.oneshot(real, self.opts['ob_timeout'])
        if r == z3.unsat:
            return 'z3-refined', None
        if r == z3.sat:
            return 'sat', self.mkmodel(st, m, real, subs)
        if model is not None:
            # try the concrete inputs of the abstract model with the real operations
            return 'unknown', None
        return 'unknown', None

    def mkmodel(self, st, model, conds, subs=None):
        """concrete inputs; prefers small buffers so that the counterexample can be replayed natively"""
        sizes = [s for (k, nm, i, o, s) in [x for x in st.inputs if x[0] == 'buf'] if isz(s)]
        best = model
        for lim in (256, 4096, 1 << 20):
            if not sizes:
                break
            if all(model.eval(s, model_completion=True).as_long() <= lim for s in sizes):
                break
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(*conds)
            for x in sizes:
                s.add(z3.ULE(x, lim))
            if s.check() == z3.sat:
                best = s.model()
                break
        m = best
        out = []

        def sub(t):
            return z3.substitute_funs(t, *subs) if subs else t
        for it in st.inputs:
            if it[0] == 'any':
                _, nm, k, term, n = it
                v = m.eval(term, model_completion=True) if isz(term) else term
                v = v if isinstance(v, int) else (v.as_long() if z3.is_bv_value(v) else 0)
                out.append(('any', nm, k, v.to_bytes(n, 'little').hex()))
            elif it[0] == 'buf':
                _, nm, k, arr, size = it
                n = size if isinstance(size, int) else m.eval(size, model_completion=True).as_long()
                if n > (1 << 22):
                    out.append(('bigbuf', nm, k, n))
                    continue
                data = self.arrbytes(m, arr, n)
                out.append(('buf', nm, k, data.hex()))
            elif it[0] == 'uf':
                _, nm, ins, outt, nin, nout = it
                vi = m.eval(sub(ins), model_completion=True)
                vo = m.eval(sub(outt), model_completion=True)
                if z3.is_bv_value(vi) and z3.is_bv_value(vo):
                    out.append(('uf', nm, vi.as_long().to_bytes(nin, 'little').hex(), vo.as_long().to_bytes(nout, 'little').hex()))
        return out

    def arrbytes(self, m, arr, n):
        data = bytearray(n)
        v = m.eval(arr, model_completion=True)
        stores = []
        while z3.is_store(v):
            stores.append((v.arg(1), v.arg(2)))
            v = v.arg(0)
        if z3.is_K(v):
            d = v.arg(0)
            if z3.is_bv_value(d):
                data[:] = bytes([d.as_long()]) * n
            for i, x in reversed(stores):
                if z3.is_bv_value(i) and i.as_long() < n and z3.is_bv_value(x):
                    data[i.as_long()] = x.as_long()
        else:
            for i in range(min(n, 4096)):
                x = m.eval(z3.Select(arr, z3.BitVecVal(i, 64)), model_completion=True)
                if z3.is_bv_value(x):
                    data[i] = x.as_long()
        return bytes(data)

    def where(self, st):
        out = []
        for f in reversed(st.frames[-6:]):
            ln = ''
            try:
                ins = f.fn.block(f.block).instrs[min(f.ip, len(f.fn.block(f.block).instrs) - 1)]
                if ins.dbg:
                    ln = self.mod.loc(ins.dbg)
            except Exception:
                pass
            out.append(f'{f.fn.name} {ln}'.strip())
        return out

    # ------------------------------------------------------------ fresh / objects
    def fresh(self, w, name='v'):
        self.nfresh += 1
        return z3.BitVec(f'{name}!{self.nfresh}', w)

    def freshbool(self, name='b'):
        self.nfresh += 1
        return z3.Bool(f'{name}!{self.nfresh}')

    def newobj(self, st, size, node, name='', heap=False, align=16):
        self.nid += 1
        o = Obj(self.nid, size, node, name, False, heap, align)
        st.mem[self.nid] = o
        return o

    def uninit(self):
        self.nfresh += 1
        return NBase('sym', z3.Const(f'uninit!{self.nfresh}', ARR))

    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            if isinstance(oid, str) and oid.startswith('g:'):
                o = self.gobjs.get(oid)
                if o is None:
                    o = self.mkglobal(oid)
                    self.gobjs[oid] = o
                return o
            raise Undecided(f'unknown object {oid}')
        return o

    def mkglobal(self, oid):
        g = self.mod.glob(oid[2:])
        if g is None:
            raise Undecided('undefined global ' + oid)
        size = self.T.size(g.ty)
        if g.init is None:
            return Obj(oid, size, self.uninit(), oid, False, False, g.align)
        data = bytearray(size)
        rel = {}
        self.initbytes(g.ty, g.init, data, 0, rel)
        return Obj(oid, size, NBase('bytes', bytes(data), rel), oid, bool(g.const), False, g.align)

    def initbytes(self, ty, c, data, off, rel):
        t = self.T.res(ty)
        if isinstance(c, int):
            n = self.T.store_size(t)
            data[off:off + n] = c.to_bytes(n, 'little')
            return
        k = c[0]
        if k in ('zero', 'undef'):
            return
        if k == 'bytes':
            data[off:off + len(c[1])] = c[1]
            return
        if k == 'agg':
            if t[0] == 'struct':
                offs = self.T.layout(t)[0]
                for (ety, e), o in zip(c[1], offs):
                    self.initbytes(ety, e, data, off + o, rel)
            else:
                es = self.T.size(t[2]) if t[0] == 'arr' else self.T.store_size(t[2])
                for i, (ety, e) in enumerate(c[1]):
                    self.initbytes(ety, e, data, off + i * es, rel)
            return
        if k == 'fp':
            return
        v = self.constval(ty, c)
        if isinstance(v, int):
            n = self.T.store_size(t)
            data[off:off + n] = v.to_bytes(n, 'little')
        else:
            rel[off] = (self.T.store_size(t), v)

    def constval(self, ty, c):
        if isinstance(c, int):
            return c
        k = c[0]
        if k == 'g':
            nm = c[1]
            if nm in self.mod.functions or nm in self.mod.decls:
                return FnPtr(nm)
            g = self.mod.glob(nm)
            if g is not None and g.init is not None and isinstance(g.init, tuple) and g.init[0] == 'alias':
                return self.constval(PTR, g.init[1])
            return Ptr('g:' + nm)
        if k == 'undef':
            t = self.T.res(ty)
            if t[0] == 'struct':
                return Agg(self.constval(x, c) for x in t[2])
            if t[0] in ('arr', 'vec'):
                return Agg(self.constval(t[2], c) for _ in range(t[1]))
            return UNDEF
        if k == 'zero':
            t = self.T.res(ty)
            if t[0] == 'struct':
                return Agg(self.constval(x, ('zero',)) for x in t[2])
            if t[0] in ('arr', 'vec'):
                return Agg(self.constval(t[2], ('zero',)) for _ in range(t[1]))
            return 0
        if k == 'agg':
            return Agg(self.constval(t, e) for t, e in c[1])
        if k == 'bytes':
            return Agg(c[1])
        if k == 'gep':
            p = self.constval(PTR, c[2])
            return self.gep(p, c[1], [(t, self.constval(t, e)) for t, e in c[3]])
        if k == 'cast':
            return self.cast(c[1], c[2], self.constval(c[2], c[3]), c[4], None)
        if k == 'ba':
            return BlockAddr(c[1], c[2])
        if k == 'bin':
            return self.binop(c[1], self.T.res(c[2])[1], self.constval(c[2], c[3]), self.constval(c[2], c[4]))
        if k == 'icmp':
            return self.icmp(c[1], self.T.res(c[2]), self.constval(c[2], c[3]), self.constval(c[2], c[4]), None)
        if k == 'fp':
            return ('fp', c[1])
        raise Undecided('const ' + str(k))

    # ------------------------------------------------------------ values
    def val(self, st, op, ty):
        if op[0] == 'l':
            try:
                v = st.frames[-1].env[op[1]]
            except KeyError:
                raise Undecided('undefined local ' + op[1] + ' in ' + st.frames[-1].fn.name)
            return v
        c = op[1]
        if isinstance(c, int):
            return c
        return self.constval(ty, c)

    def num(self, v, w):
        """numeric value of width w (resolves undef)"""
        if v is UNDEF:
            return self.fresh(w, 'undef') if w > 1 else self.freshbool('undef')
        return v

    def addrof(self, st, oid):
        """symbolic base address of an object"""
        nm = f'addr!{oid}'
        a = z3.BitVec(nm, 64)
        key = oid
        if st is not None and key not in st.addr_done:
            st.addr_done.add(key)
            o = self.getobj(st, oid) if not (isinstance(oid, str) and oid.startswith('f:')) else None
            if o is not None:
                size = o.size
                al = max(o.align, 1)
                cs = [z3.UGE(a, 1 << 16), z3.ULE(a, 1 << 46), z3.ULE(bv(size, 64), 1 << 46)]
                if al > 1:
                    cs.append(z3.Extract(al.bit_length() - 2, 0, a) == 0)
                self._push(z3.And(*cs))
                self.model = None
        return a

    def ptoi(self, st, p):
        if isinstance(p, Ptr):
            return simp(self.addrof(st, p.obj) + bv(offterm(p.base, p.delta), 64))
        if isinstance(p, FnPtr):
            return z3.BitVec('fn!' + p.name, 64)
        if p is UNDEF:
            return self.fresh(64, 'undef')
        return p

    def itop(self, st, v):
        if isinstance(v, (Ptr, FnPtr, BlockAddr, int)) or v is UNDEF:
            return v
        # syntactic: addr!X + off
        ch = v.children() if z3.is_app_of(v, z3.Z3_OP_BADD) else [v]
        cands = [c for c in ch if z3.is_const(c) and c.decl().name().startswith('addr!')]
        if len(cands) == 1:
            nm = cands[0].decl().name()[5:]
            oid = int(nm) if nm.isdigit() else nm
            b, d = splitc(simp(v - cands[0]))
            return Ptr(oid, b, d)
        if z3.is_const(v) and v.decl().name().startswith('fn!'):
            return FnPtr(v.decl().name()[3:])
        return v

    def resolve(self, st, v):
        """pointer value -> Ptr/FnPtr/int (forks when ambiguous)"""
        if isinstance(v, (Ptr, FnPtr, BlockAddr, int)):
            return v
        if v is UNDEF:
            raise Undecided('use of an undefined pointer')
        v = simp(v)
        p = self.itop(st, v)
        if not isz(p):
            return p
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            c = simp(v.arg(0))
            if isz(c):
                if self.must(c):
                    return self.resolve(st, v.arg(1))
                if self.must(z3.Not(c)):
                    return self.resolve(st, v.arg(2))
                raise Fork([c, z3.Not(c)])
        conds = []
        any_ = z3.BoolVal(False)
        for oid in sorted(st.addr_done, key=str):
            if isinstance(oid, str) and oid.startswith('f:'):
                continue
            o = self.getobj(st, oid)
            a = self.addrof(st, oid)
            inside = z3.And(z3.UGE(v, a), z3.ULT(v - a, bv(o.size, 64)))
            if self.must(inside):
                b, d = splitc(simp(v - a))
                return Ptr(oid, b, d)
            if self.feasible(inside):
                conds.append(inside)
        rest = z3.And([z3.Not(c) for c in conds]) if conds else z3.BoolVal(True)
        if conds and not self.feasible(rest):
            raise Fork(conds)
        if conds:
            raise Fork(conds + [rest])
        nul = v == 0
        if self.must(nul):
            return 0
        return v

    # ------------------------------------------------------------ memory reading / writing
    def rel(self, base, delta, n, wb, wd, m):
        """relation of read [base+delta, n) to write [wb+wd, m): ('in',d) 'dis' ('part',d) or 'unk'. n, m ints"""
        if base is wb or (base is not None and wb is not None and base.eq(wb)):
            d = delta - wd
            if d >= m or d + n <= 0:
                return 'dis', 0
            if d >= 0 and d + n <= m:
                return 'in', d
            return 'part', d
        return 'unk', None

    def rbytes(self, st, node, base, delta, n):
        """little-endian value of n bytes: int | BV(8n) | Ptr-like (only for exact 8 byte matches)"""
        while True:
            if isinstance(node, NWrite):
                r, d = self.rel(base, delta, n, node.base, node.delta, node.n)
                if r == 'unk':
                    off = bv(offterm(base, delta), 64)
                    w = bv(offterm(node.base, node.delta), 64)
                    diff = simp(off - w)           # in [0, m-n] => contained ; in [-(n-1), m-1] overlap
                    if isinstance(diff, int):
                        d = sgn(diff, 64)
                        r = 'dis' if (d >= node.n or d + n <= 0) else ('in' if d >= 0 and d + n <= node.n else 'part')
                    else:
                        if node.n == 1 and 1 < n <= 32 and not self._isptr(node.val):
                            rest = bv(self.num(self.rbytes(st, node.prev, base, delta, n), 8 * n), 8 * n)
                            x = bv(self.num(node.val, 8), 8)
                            return simp(z3.Concat(*[z3.If(diff == z3.BitVecVal((-i) & M64, 64), x, z3.Extract(8 * i + 7, 8 * i, rest)) for i in reversed(range(n))]))
                        overlap = z3.ULT(diff + (n - 1), z3.BitVecVal(node.n + n - 1, 64))
                        if self.must(z3.Not(overlap)):
                            r = 'dis'
                        elif n == 1 and node.n <= 64 and not self._isptr(node.val):
                            rest = self.rbytes(st, node.prev, base, delta, 1)
                            if node.n == 1:
                                return self.ite(diff == 0, self._slice(st, node.val, 0, 1, 1), rest, 8)
                            v = bv(self.num(node.val, 8 * node.n), 8 * node.n)
                            sh = z3.LShR(v, _resize(diff * 8, 8 * node.n))
                            return self.ite(overlap, simp(z3.Extract(7, 0, sh)), rest, 8)
                        elif self.must(diff == 0) and n == node.n:
                            r, d = 'in', 0
                        else:
                            if self.must(overlap):
                                # enumerate offset inside
                                opts = [k for k in range(-(n - 1), node.n) if self.feasible(simp(diff == z3.BitVecVal(k & M64, 64)))]
                                if len(opts) == 1:
                                    d = opts[0]
                                    r = 'in' if d >= 0 and d + n <= node.n else 'part'
                                else:
                                    raise Fork([diff == z3.BitVecVal(k & M64, 64) for k in opts])
                            else:
                                raise Fork([z3.Not(overlap), overlap])
                if r == 'dis':
                    node = node.prev
                    continue
                if r == 'in':
                    return self._slice(st, node.val, d, n, node.n)
                # partial overlap
                parts = []
                lo = max(d, 0)
                hi = min(d + n, node.n)
                if d < 0:
                    parts.append((self.rbytes(st, node.prev, base, delta, -d), -d))
                parts.append((self._slice(st, node.val, lo, hi - lo, node.n), hi - lo))
                if d + n > node.n:
                    parts.append((self.rbytes(st, node.prev, base, delta + (node.n - d), d + n - node.n), d + n - node.n))
                return self._concat(st, parts)
            if isinstance(node, (NFill, NCopy)):
                ln = node.len
                if isinstance(ln, int):
                    r, d = self.rel(base, delta, n, node.base, node.delta, ln)
                    if r == 'dis':
                        node = node.prev
                        continue
                else:
                    r, d = 'unk', None
                if r == 'unk':
                    off = bv(offterm(base, delta), 64)
                    w = bv(offterm(node.base, node.delta), 64)
                    diff = simp(off - w)
                    L = bv(ln, 64)
                    dz = bv(diff, 64)
                    cont = z3.And(z3.ULE(z3.BitVecVal(n, 64), L), z3.ULE(dz, L - n))
                    if n == 1:
                        cont = z3.ULT(dz, L)
                    if self.must(cont):
                        r = 'in'
                        d = diff
                    else:
                        disj = z3.Or(L == 0, z3.And(z3.UGE(dz, L), z3.UGE(-dz, n))) if n > 1 else z3.Not(cont)
                        if self.must(disj):
                            node = node.prev
                            continue
                        if n == 1:
                            inner = node.byte if isinstance(node, NFill) else None
                            if inner is None:
                                sb, sd = addoff(node.sbase, node.sdelta, diff)
                                inner = self.rbytes(st, node.src, sb, sd, 1)
                            rest = self.rbytes(st, node.prev, base, delta, 1)
                            return self.ite(cont, inner, rest, 8)
                        if self.feasible(cont) and self.feasible(disj) and not self.feasible(z3.Not(z3.Or(cont, disj))):
                            raise Fork([cont, disj])
                        return self._concat(st, [(self.rbytes(st, node, base, delta + i, 1), 1) for i in range(n)])
                if r == 'in':
                    if isinstance(node, NFill):
                        b = node.byte
                        if isinstance(b, int):
                            return int.from_bytes(bytes([b]) * n, 'little')
                        return self._concat(st, [(b, 1)] * n)
                    sb, sd = addoff(node.sbase, node.sdelta, d)
                    node, base, delta = node.src, sb, sd
                    continue
                return self._concat(st, [(self.rbytes(st, node, base, delta + i, 1), 1) for i in range(n)])
            # base
            return self._rbase(st, node, base, delta, n)

    def _rbase(self, st, node, base, delta, n):
        if node.kind == 'zero':
            return 0
        if node.kind == 'sym':
            if n > 64:
                raise Undecided('wide symbolic read')
            bs = []
            for i in range(n):
                o = bv(offterm(base, delta + i), 64)
                bs.append(z3.Select(node.data, z3.simplify(o)))
            if n == 1:
                return bs[0]
            return z3.Concat(*reversed(bs))
        # constant bytes
        if base is None:
            if delta < 0 or delta + n > len(node.data):
                return self.fresh(8 * n, 'oob')
            if node.relocs:
                r = node.relocs.get(delta)
                if r and r[0] == n:
                    return r[1]
                for ro, (rn, rv) in node.relocs.items():
                    if ro < delta + n and delta < ro + rn:
                        if ro >= delta and ro + rn <= delta + n or ro <= delta:
                            # mixed read
                            parts = []
                            for i in range(n):
                                p = delta + i
                                hit = None
                                for ro2, (rn2, rv2) in node.relocs.items():
                                    if ro2 <= p < ro2 + rn2:
                                        hit = self._slice(st, rv2, p - ro2, 1, rn2)
                                parts.append((hit if hit is not None else node.data[p], 1))
                            return self._concat(st, parts)
            return int.from_bytes(node.data[delta:delta + n], 'little')
        # symbolic offset into constant table
        off = bv(offterm(base, delta), 64)
        if len(node.data) > 70000:
            raise Undecided('symbolic index into a large constant')
        stride = self._stride(off, n)
        if node.relocs:
            conds = []
            ks = [k for k in range(0, len(node.data) - n + 1, stride)]
            feas = self.enum(off, 300)
            if feas is None:
                raise Undecided('too many table entries')
            if len(feas) == 1:
                return self._rbase(st, node, None, feas[0], n)
            raise Fork([off == z3.BitVecVal(k, 64) for k in feas])
        groups = {}
        for k in range(0, len(node.data) - n + 1, stride):
            groups.setdefault(node.data[k:k + n], []).append(k)
        if len(groups) == 1:
            return int.from_bytes(next(iter(groups)), 'little')
        items = sorted(groups.items(), key=lambda kv: -len(kv[1]))
        if sum(len(x[1]) for x in items) > 4096:
            raise Undecided('constant table too large')
        r = z3.BitVecVal(int.from_bytes(items[0][0], 'little'), 8 * n)
        for val, ks in items[1:]:
            r = z3.If(z3.Or([off == z3.BitVecVal(k, 64) for k in ks]), z3.BitVecVal(int.from_bytes(val, 'little'), 8 * n), r)
        return simp(r)

    def _stride(self, off, n):
        s = n
        while s > 1:
            k = s.bit_length() - 1
            if (1 << k) == s and self.must(z3.Extract(k - 1, 0, off) == 0):
                return s
            s //= 2
        return 1

    def enum(self, term, limit):
        """all feasible values of term, None if more than limit"""
        vals = []
        self.s.push()
        try:
            while True:
                r = self._check()
                if r == z3.unsat:
                    return vals
                if r == z3.unknown or len(vals) >= limit:
                    return None
                v = self.getmodel()
                if v is None:
                    return None
                v = v.eval(term, model_completion=True).as_long()
                vals.append(v)
                self.s.add(term != v)
        finally:
            self.s.pop()
            self.model = None

    def _isptr(self, v):
        return isinstance(v, (Ptr, FnPtr, BlockAddr))

    def _asint(self, st, v, n):
        if isinstance(v, (Ptr, FnPtr)):
            return self.ptoi(st, v)
        if isinstance(v, BlockAddr):
            raise Undecided('block address as integer')
        if v is UNDEF:
            return self.fresh(8 * n, 'undef')
        return v

    def _slice(self, st, v, d, n, m):
        if d == 0 and n == m:
            return v
        v = self._asint(st, v, m)
        if isinstance(v, int):
            return (v >> (8 * d)) & ((1 << (8 * n)) - 1)
        return norm(z3.simplify(z3.Extract(8 * (d + n) - 1, 8 * d, v)))

    def _concat(self, st, parts):
        """parts: little-endian list of (value, nbytes)"""
        ps = []
        allint = True
        for v, n in parts:
            v = self._asint(st, v, n)
            if not isinstance(v, int):
                allint = False
            ps.append((v, n))
        if allint:
            r = 0
            sh = 0
            for v, n in ps:
                r |= v << (8 * sh)
                sh += n
            return r
        if len(ps) == 1:
            return ps[0][0]
        return norm(z3.simplify(z3.Concat(*[bv(v, 8 * n) for v, n in reversed(ps)])))

    def ite(self, c, a, b, w):
        if isinstance(c, int):
            return a if c else b
        if a is b:
            return a
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        if w == 1:
            return simp(z3.If(c, boolz(a), boolz(b)))
        return simp(z3.If(c, bv(a, w), bv(b, w)))

    def bounds(self, st, o, p, n, what):
        """obligation: [p, p+n) inside o.  n int or term"""
        size = o.size
        lab = f'memory access in bounds [{what}]'
        if not o.alive:
            self.prove(0, f'no use after free [{what}]', st)
        if isinstance(n, int) and n == 0:
            return
        off = offterm(p.base, p.delta)
        if isinstance(off, int) and isinstance(size, int) and isinstance(n, int):
            off = sgn(off, 64)
            self.prove(1 if 0 <= off and off + n <= size else 0, lab, st)
            return
        off = bv(off, 64)
        nz = bv(n, 64)
        sz = bv(size, 64)
        c = z3.And(z3.ULE(nz, sz), z3.ULE(off, sz - nz))
        if not isinstance(n, int):
            c = z3.Or(nz == 0, c)
        self.prove(c, lab, st)

    def checkguard(self, st, p, n, what):
        for (gobj, gb, gd, gn, hobj, hb, hd, label) in st.guards:
            if p.obj != gobj:
                continue
            off = bv(offterm(p.base, p.delta), 64)
            g = bv(offterm(gb, gd), 64)
            diff = off - g
            nz = bv(n, 64)
            overlap = z3.And(nz != 0, z3.Or(z3.ULT(diff, bv(gn, 64)), z3.ULT(-diff, nz)))
            ov = simp(overlap)
            if isinstance(ov, int) and not ov:
                continue
            h = self.rbytes(st, self.getobj(st, hobj).node, hb, hd, 1)
            held = simp(bv(h, 8) != 0)
            self.prove(z3.Or(z3.Not(boolz(ov)), boolz(held)), label, st)

    def fnlabel(self, st):
        f = st.frames[-1]
        return self.demangle(f.fn.name)

    def demangle(self, n):
        return self.opts.get('demangle', {}).get(n, n)

    def load(self, st, p, ty, raw=False):
        p = self.resolve(st, p)
        t = self.T.res(ty)
        if not isinstance(p, Ptr):
            self.prove(0, f'pointer dereference valid [{self.fnlabel(st)}]', st)
            raise PathEnd()
        o = self.getobj(st, p.obj)
        n = self.T.store_size(t) if t[0] not in ('struct', 'arr') else self.T.size(t)
        if not raw:
            self.bounds(st, o, p, n, self.fnlabel(st))
        if st.guards and not raw:
            self.checkguard(st, p, n, '')
        return self.loadv(st, o.node, p, t)

    def loadv(self, st, node, p, t):
        t = self.T.res(t)
        k = t[0]
        if k == 'struct':
            offs = self.T.layout(t)[0]
            return Agg(self.loadv(st, node, Ptr(p.obj, p.base, p.delta + o), x) for o, x in zip(offs, t[2]))
        if k in ('arr', 'vec'):
            es = self.T.size(t[2])
            return Agg(self.loadv(st, node, Ptr(p.obj, p.base, p.delta + i * es), t[2]) for i in range(t[1]))
        n = self.T.store_size(t)
        v = self.rbytes(st, node, p.base, p.delta, n)
        if k == 'ptr':
            if isz(v):
                v = self.itop(st, v)
            return v
        if k == 'i':
            w = t[1]
            v = self._asint(st, v, n)
            if w == 1:
                if isinstance(v, int):
                    return v & 1
                return simp(z3.Extract(0, 0, v) == 1)
            if w != 8 * n:
                if isinstance(v, int):
                    return v & ((1 << w) - 1)
                return simp(z3.Extract(w - 1, 0, v))
            return v
        if k == 'fp':
            return ('fp', v)
        raise Undecided('load type ' + str(t))

    def store(self, st, p, ty, v, raw=False):
        p = self.resolve(st, p)
        t = self.T.res(ty)
        if not isinstance(p, Ptr):
            self.prove(0, f'pointer dereference valid [{self.fnlabel(st)}]', st)
            raise PathEnd()
        o = self.getobj(st, p.obj)
        n = self.T.store_size(t) if t[0] not in ('struct', 'arr') else self.T.size(t)
        if not raw:
            self.bounds(st, o, p, n, self.fnlabel(st))
            if o.ro:
                self.prove(0, f'no write to constant data [{self.fnlabel(st)}]', st)
        if st.guards and not raw:
            self.checkguard(st, p, n, '')
        o = o.copy()
        o.node = self.storev(st, o.node, p, t, v)
        st.mem[p.obj] = o

    def storev(self, st, node, p, t, v):
        t = self.T.res(t)
        k = t[0]
        if k == 'struct':
            offs = self.T.layout(t)[0]
            for o, x, e in zip(offs, t[2], v):
                node = self.storev(st, node, Ptr(p.obj, p.base, p.delta + o), x, e)
            return node
        if k in ('arr', 'vec'):
            es = self.T.size(t[2])
            for i, e in enumerate(v):
                node = self.storev(st, node, Ptr(p.obj, p.base, p.delta + i * es), t[2], e)
            return node
        n = self.T.store_size(t)
        if v is UNDEF:
            v = self.fresh(8 * n, 'undef')
        elif k == 'i':
            w = t[1]
            if w != 8 * n and isz(v):
                v = simp(z3.ZeroExt(8 * n - w, bv(v, w))) if w > 1 else simp(bv(v, 8 * n))
        elif k == 'fp':
            v = v[1] if isinstance(v, tuple) and isz(v[1]) or isinstance(v, tuple) and isinstance(v[1], int) else self.fresh(8 * n, 'fp')
        return self.push_write(node, p.base, p.delta, n, v)

    def push_write(self, node, base, delta, n, v):
        # drop directly shadowed writes of the same location
        if not self.cuts and isinstance(node, NWrite) and node.n == n and node.delta == delta and (node.base is base or (base is not None and node.base is not None and node.base.eq(base))):
            node = node.prev
        return NWrite(node, base, delta, n, v)

    # ------------------------------------------------------------ arithmetic
    def uf2(self, name, w, a, b, mk, comm=False):
        """abstract binary operation on BV(w)"""
        f = self.ufs.get((name, w))
        if f is None:
            s = z3.BitVecSort(w)
            f = self.ufs[(name, w)] = z3.Function(f'{name}{w}', s, s, s)
            x, y = z3.Var(0, s), z3.Var(1, s)
            self.uf_real[(name, w)] = (f, mk(x, y))
        a, b = bv(a, w), bv(b, w)
        if comm and a.get_id() > b.get_id():
            a, b = b, a
        return f(a, b)

    def wide_mul(self, a, b, signed):
        """exact 128-bit product of two symbolic 64-bit terms: kept abstract, constrained by (valid) order facts; the real product is
        substituted before a counterexample is believed"""
        a, b = z3.simplify(a), z3.simplify(b)
        if a.get_id() > b.get_id():
            a, b = b, a
        ext = (lambda x: z3.SignExt(64, x)) if signed else (lambda x: z3.ZeroExt(64, x))
        p = self.uf2('mul', 128, ext(a), ext(b), lambda x, y: x * y)
        Z = z3.BitVecVal(0, 64)
        nn = z3.And(a >= Z, b >= Z) if signed else z3.BoolVal(True)
        fs = [z3.Implies(nn, z3.And(p >= 0, z3.Extract(127, 126, p) == 0)) if signed else z3.BoolVal(True)]
        for i in (8, 16, 24, 31, 32, 40, 48, 56):
            c = z3.BitVecVal(1 << i, 64)
            for x, y in ((a, b), (b, a))[:1 if a.eq(b) else 2]:
                sh = z3.ZeroExt(64, y) << i
                fs.append(z3.Implies(nn, z3.If(z3.ULT(x, c), z3.ULE(p, sh), z3.UGE(p, sh))))
        for (a2, b2, p2, s2) in self.products.values():
            if s2 == signed and not p2.eq(p):
                nn2 = z3.And(nn, a2 >= Z, b2 >= Z) if signed else z3.BoolVal(True)
                fs.append(z3.Implies(z3.And(nn2, z3.ULE(a, a2), z3.ULE(b, b2)), z3.ULE(p, p2)))
                fs.append(z3.Implies(z3.And(nn2, z3.ULE(a2, a), z3.ULE(b2, b)), z3.ULE(p2, p)))
        self.products[p.get_id()] = (a, b, p, signed)
        for f in fs:
            f = z3.simplify(f)
            if not z3.is_true(f) and f.get_id() not in self.lits:
                self._push(f)
        self.model = None
        return p

    def binop(self, op, w, a, b, text=''):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return ('fp', None)
        a = self.num(a, w)
        b = self.num(b, w)
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & m
            if b == 0:
                raise Undecided('constant division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            if op == 'srem':
                return (x - q * y) & m
        if w == 1:
            a, b = boolz(a), boolz(b)
            if op == 'and':
                return simp(z3.And(a, b))
            if op == 'or':
                return simp(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(a, b))
            raise Undecided('i1 ' + op)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            raise Undecided('pointer arithmetic as integer ' + op)
        sym2 = isz(a) and isz(b)
        big = w >= self.opts['uf_min'] and sym2
        # cheap identities
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if b == 0 and op in ('and', 'mul'):
                return 0
            if b == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            if b & (b - 1) == 0 and b:
                k = b.bit_length() - 1
                if op == 'urem':
                    return simp(a & z3.BitVecVal(b - 1, w))
                if op == 'udiv':
                    return simp(z3.LShR(a, z3.BitVecVal(k, w)))
                if op == 'mul':
                    return simp(a << z3.BitVecVal(k, w)) if False else simp(a * z3.BitVecVal(b, w))
        if isinstance(a, int) and a == 0 and op in ('and', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem'):
            return 0
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            r = A + B
        elif op == 'sub':
            r = A - B
        elif op == 'mul':
            if big:
                a2, b2 = z3.simplify(A), z3.simplify(B)
                return self.uf2('mul', w, a2, b2, lambda x, y: x * y, True)
            r = A * B
        elif op == 'and':
            r = A & B
        elif op == 'or':
            r = A | B
        elif op == 'xor':
            r = A ^ B
        elif op == 'shl':
            r = A << B
        elif op == 'lshr':
            r = z3.LShR(A, B)
        elif op == 'ashr':
            r = A >> B
        elif op == 'udiv':
            if w >= 128 or big:
                return self.uf2('udiv', w, z3.simplify(A), z3.simplify(B), z3.UDiv)
            r = z3.UDiv(A, B)
        elif op == 'urem':
            if w >= 128 or big:
                return self.uf2('urem', w, z3.simplify(A), z3.simplify(B), z3.URem)
            r = z3.URem(A, B)
        elif op == 'sdiv' and isinstance(b, int) and 1 < (1 << w) - b < (1 << (w - 1)) and ((1 << w) - b) & ((1 << w) - b - 1) == 0:
            q = self.binop('sdiv', w, a, (1 << w) - b)     # division by -2^k
            r = -bv(q, w)
        elif op == 'sdiv' and isinstance(b, int) and b & (b - 1) == 0 and 0 < b < (1 << (w - 1)):
            k = b.bit_length() - 1     # round towards zero: add 2^k-1 to negative dividends
            r = (A + z3.LShR(A >> z3.BitVecVal(w - 1, w), z3.BitVecVal(w - k, w))) >> z3.BitVecVal(k, w)
        elif op == 'sdiv':
            if w >= 128 or big:
                return self.uf2('sdiv', w, z3.simplify(A), z3.simplify(B), lambda x, y: x / y)
            r = A / B
        elif op == 'srem':
            if w >= 128 or big:
                return self.uf2('srem', w, z3.simplify(A), z3.simplify(B), lambda x, y: z3.SRem(x, y))
            r = z3.SRem(A, B)
        else:
            raise Undecided('binop ' + op)
        return simp(r)

    def icmp(self, pred, t, a, b, st):
        t = self.T.res(t)
        if t[0] == 'vec':
            return Agg(self.icmp(pred, t[2], x, y, st) for x, y in zip(a, b))
        if t[0] == 'ptr':
            if a is UNDEF or b is UNDEF:
                return self.freshbool('undef')
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                    e = a.name == b.name
                    return int(e if pred == 'eq' else not e)
                if isinstance(a, int) or isinstance(b, int):
                    return int(pred == 'ne')
            if isinstance(a, BlockAddr) or isinstance(b, BlockAddr):
                if isinstance(a, BlockAddr) and isinstance(b, BlockAddr):
                    e = a.label == b.label and a.fn == b.fn
                    return int(e if pred == 'eq' else not e)
                raise Undecided('block address compare')
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    x, y = offterm(a.base, a.delta), offterm(b.base, b.delta)
                    pred = pred.replace('u', 's') if pred[0] == 'u' else pred
                    return self.icmp(pred, ('i', 64), x, y, st)
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
            if isinstance(a, Ptr) and isinstance(b, int) and b == 0 or isinstance(b, Ptr) and isinstance(a, int) and a == 0:
                if pred in ('eq', 'ne'):
                    return int(pred == 'ne')
            a, b = self.ptoi(st, a), self.ptoi(st, b)
            w = 64
        else:
            w = t[1]
            a = self.num(a, w)
            b = self.num(b, w)
            if isinstance(a, BlockAddr) or isinstance(b, BlockAddr):
                raise Undecided('block address compare')
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred if pred in ('eq', 'ne') else pred[1:]])
        if w == 1:
            A, B = boolz(a), boolz(b)
            if pred == 'eq':
                return simp(A == B)
            if pred == 'ne':
                return simp(A != B)
            if pred == 'ult':
                return simp(z3.And(z3.Not(A), B))
            if pred == 'ugt':
                return simp(z3.And(A, z3.Not(B)))
            if pred == 'ule':
                return simp(z3.Or(z3.Not(A), B))
            if pred == 'uge':
                return simp(z3.Or(A, z3.Not(B)))
            raise Undecided('icmp i1 ' + pred)
        A, B = bv(a, w), bv(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'ult': lambda: z3.ULT(A, B),
             'ule': lambda: z3.ULE(A, B), 'sgt': lambda: A > B, 'sge': lambda: A >= B, 'slt': lambda: A < B, 'sle': lambda: A <= B}[pred]()
        return simp(r)

    def cast(self, op, fty, v, tty, st):
        f, t = self.T.res(fty), self.T.res(tty)
        if op == 'freeze':
            if v is UNDEF:
                return self.fresh(f[1], 'undef') if f[0] == 'i' and f[1] > 1 else (self.freshbool('undef') if f[0] == 'i' else UNDEF)
            return v
        if f[0] == 'vec' and t[0] == 'vec' and f[1] == t[1]:
            return Agg(self.cast(op, f[2], x, t[2], st) for x in v)
        if op in ('uitofp', 'sitofp', 'fpext', 'fptrunc'):
            return ('fp', None)
        if op in ('fptoui', 'fptosi'):
            return self.fresh(t[1], 'fp')
        if v is UNDEF:
            return UNDEF
        if op == 'ptrtoint':
            r = self.ptoi(st, v)
            w = t[1]
            if w == 64:
                return r
            if isinstance(r, int):
                return r & ((1 << w) - 1)
            return simp(z3.Extract(w - 1, 0, r)) if w < 64 else simp(z3.ZeroExt(w - 64, r))
        if op == 'inttoptr':
            return self.itop(st, v)
        if op == 'bitcast' or op == 'addrspacecast':
            if f == t:
                return v
            if f[0] == 'vec' and t[0] == 'i':
                parts = [(x, self.T.store_size(f[2])) for x in v]
                if f[2][1] == 1:
                    return simp(z3.Concat(*[bv(x, 1) for x in reversed(v)])) if any(isz(x) for x in v) else sum(x << i for i, x in enumerate(v))
                return self._concat(st, parts)
            if f[0] == 'i' and t[0] == 'vec':
                n = self.T.store_size(t[2])
                return Agg(self._slice(st, v, i * n, n, f[1] // 8) for i in range(t[1]))
            raise Undecided('bitcast')
        fw, tw = f[1], t[1]
        if isinstance(v, (FnPtr, BlockAddr, Ptr)):
            raise Undecided('cast of pointer value')
        if isinstance(v, int):
            if op == 'sext':
                return sgn(v, fw) & ((1 << tw) - 1)
            return v & ((1 << tw) - 1)
        if op == 'zext':
            if fw == 1:
                return simp(bv(v, tw))
            return simp(z3.ZeroExt(tw - fw, v))
        if op == 'sext':
            if fw == 1:
                return simp(z3.If(v, z3.BitVecVal(-1, tw), z3.BitVecVal(0, tw)))
            return simp(z3.SignExt(tw - fw, v))
        if op == 'trunc':
            if tw == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(tw - 1, 0, v))
        raise Undecided('cast ' + op)

    def gep(self, p, ety, idx):
        if p is UNDEF:
            return UNDEF
        tot = 0
        terms = []
        t = ety
        for i, (ity, v) in enumerate(idx):
            w = self.T.res(ity)[1] if ity[0] == 'i' else 64
            if i == 0:
                sz = self.T.size(t)
            else:
                rt = self.T.res(t)
                if rt[0] == 'struct':
                    if not isinstance(v, int):
                        raise Undecided('symbolic struct index')
                    tot += self.T.layout(rt)[0][v]
                    t = rt[2][v]
                    continue
                t = rt[2]
                sz = self.T.size(t)
            if v is UNDEF:
                v = self.fresh(w, 'undef')
            if isinstance(v, int):
                tot += sgn(v, w) * sz
            else:
                x = v
                if w < 64:
                    x = z3.SignExt(64 - w, bv(x, w))
                elif w > 64:
                    x = z3.Extract(63, 0, x)
                terms.append(x * z3.BitVecVal(sz, 64) if sz != 1 else x)
        if isinstance(p, Ptr):
            base, delta = p.base, p.delta + tot
            for x in terms:
                base, delta = addoff(base, delta, x)
            return Ptr(p.obj, base, sgn(delta & M64, 64))
        if isinstance(p, (FnPtr, BlockAddr)):
            if tot == 0 and not terms:
                return p
            raise Undecided('gep on function')
        r = p
        if isinstance(p, int) and not terms:
            return (p + tot) & M64
        r = bv(p, 64) + z3.BitVecVal(tot & M64, 64)
        for x in terms:
            r = r + x
        return simp(r)

    # ------------------------------------------------------------ running
    def run(self, fname, args=()):
        st = State()
        st.frames = []
        st.mem = {}
        st.inputs = []
        st.names = {}
        st.guards = []
        st.ufcalls = []
        st.seqs = []
        st.addr_done = set()
        st.ghost = {}
        st.steps = 0
        st.forks = 0
        self.call(st, self.mod.functions[fname], list(args), None)
        self.children = []
        try:
            self.explore([(st, [])])
        finally:
            self.join()

    def explore(self, work):
        while work:
            if self.tokens is not None and len(work) >= 2 and self.tokens.acquire(block=False):
                mine, other = work[1::2], work[0::2]
                fd, path = tempfile.mkstemp(suffix='.vcres')
                os.close(fd)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        self.reset()
                        self.children = []
                        try:
                            self.explore(other)
                        except LoopLimit as e:
                            self.looplimit = (e.fn, e.block)
                            self.failures = []
                        except Undecided as e:
                            self.undecided.append({'label': 'execution', 'where': [], 'why': e.why})
                        try:
                            self.join()
                        except LoopLimit:
                            pass
                        with open(path, 'wb') as f:
                            pickle.dump(self.result(), f)
                    except BaseException as e:
                        try:
                            with open(path, 'wb') as f:
                                pickle.dump({'crash': repr(e) + traceback.format_exc()}, f)
                        except Exception:
                            pass
                    finally:
                        self.tokens.release()
                        os._exit(0)
                self.children.append((pid, path))
                work = mine
            st, trail = work.pop()
            self.sync(trail)
            self.npaths += 1
            if self.npaths > self.opts['max_paths']:
                raise Undecided('path budget exhausted')
            try:
                self.runpath(st, work)
            except PathEnd:
                pass
            except LoopLimit:
                raise
            except Undecided as e:
                self.undecided.append({'label': 'execution', 'where': self.where(st), 'why': e.why})
                if 'time budget' in e.why or len(self.undecided) > 20:
                    return
            if len(self.failures) >= self.maxfail:
                return

    def reset(self):
        self.results = {}
        self.failures = []
        self.covers = set(self.covers)
        self.undecided = []
        self.solver_time = 0.0
        self.nqueries = self.vcs = self.vc_syntactic = self.vc_solver = self.npaths = 0
        self.looplimit = None

    def result(self):
        return {'results': self.results, 'failures': self.failures, 'covers': self.covers, 'undecided': self.undecided, 'solver_time': self.solver_time,
                'nqueries': self.nqueries, 'vcs': self.vcs, 'vc_syntactic': self.vc_syntactic, 'vc_solver': self.vc_solver, 'npaths': self.npaths,
                'notes': self.assumption_notes, 'inlined': self.inlined, 'looplimit': self.looplimit}

    def join(self):
        """wait for forked explorers and merge their results"""
        if not self.children:
            return
        if self.tokens is not None:
            self.tokens.release()
        for pid, path in self.children:
            os.waitpid(pid, 0)
            try:
                with open(path, 'rb') as f:
                    r = pickle.load(f)
            except Exception as e:
                r = {'crash': 'explorer died: ' + repr(e)}
            os.unlink(path)
            if 'crash' in r:
                self.undecided.append({'label': 'execution', 'where': [], 'why': r['crash']})
                continue
            for k, v in r['results'].items():
                t = self.res(k)
                for x in ('vcs', 'ok', 'fail', 'undecided'):
                    t[x] += v[x]
                for n, c in v['by'].items():
                    t['by'][n] = t['by'].get(n, 0) + c
            self.failures += r['failures']
            self.covers |= r['covers']
            self.undecided += r['undecided']
            self.assumption_notes |= r['notes']
            self.inlined |= r['inlined']
            for x in ('solver_time', 'nqueries', 'vcs', 'vc_syntactic', 'vc_solver', 'npaths'):
                setattr(self, x, getattr(self, x) + r[x])
            if r['looplimit'] and not self.looplimit:
                self.looplimit = r['looplimit']
        self.children = []
        if self.tokens is not None:
            self.tokens.acquire()
        if self.looplimit:
            raise LoopLimit(*self.looplimit)

    def call(self, st, fn, args, ret):
        fn.parse()
        self.inlined.add(fn.name)
        if len(st.frames) > 200:
            raise Undecided('recursion too deep')
        f = Frame()
        f.fn = fn
        f.env = {}
        f.allocas = []
        f.ret = ret
        f.prev = None
        f.block = fn.entry
        f.ip = 0
        f.visits = {}
        f.retblock = None
        f.cut = None
        f.skip = False
        for (ty, nm, byval), v in zip(fn.params, args):
            if byval is not None:
                src = self.resolve(st, v)
                n = self.T.size(byval)
                o = self.newobj(st, n, self.uninit(), 'byval')
                f.allocas.append(o.id)
                so = self.getobj(st, src.obj)
                o.node = NCopy(o.node, None, 0, n, so.node, src.base, src.delta)
                v = Ptr(o.id)
            f.env[nm] = v
        st.frames.append(f)

    def goto(self, st, label, sym=False):
        f = st.frames[-1]
        f.prev = f.block
        f.block = label
        f.ip = 0
        v = f.visits.get(label, 0) + 1
        f.visits[label] = v
        if v > self.opts['loop_limit']:
            if self.opts.get('bounded'):
                raise PathEnd()
            raise LoopLimit(f.fn.name, label)

    def runpath(self, st, work):
        while True:
            f = st.frames[-1]
            fn = f.fn
            blk = fn.block(f.block)
            instrs = blk.instrs
            # phis
            if f.ip == 0:
                if instrs and instrs[0].op == 'phi':
                    vals = []
                    k = 0
                    while instrs[k].op == 'phi':
                        ins = instrs[k]
                        vals.append((ins.res, self.val(st, ins.a[0][f.prev], ins.ty)))
                        k += 1
                    for r, v in vals:
                        f.env[r] = v
                    f.ip = k
                if self.dry is not None:
                    d = self.dry
                    while d is not None:
                        if d[1] is not None and (len(st.frames) < d[0] or len(st.frames) == d[0] and f.block not in d[1]):
                            raise PathEnd()
                        d = d[2]
                c = self.cuts.get((fn.name, f.block))
                if c is not None and f.skip:
                    f.skip = False
                elif c is not None:
                    c.at_header(self, st, f)   # may raise PathEnd
                    f = st.frames[-1]
            try:
                while True:
                    ins = instrs[f.ip]
                    st.steps += 1
                    if st.steps % 4096 == 0 and self.opts['deadline'] and time.time() > self.opts['deadline']:
                        raise Undecided('time budget exhausted')
                    if self.step(st, f, ins, work):
                        break
                    f.ip += 1
            except Fork as fk:
                st.forks += 1
                feas = []
                for c in fk.conds:
                    c = z3.simplify(c) if isz(c) else z3.BoolVal(bool(c))
                    if z3.is_false(c):
                        continue
                    if z3.is_true(c) or self.feasible(c):
                        feas.append(c)
                if not feas:
                    raise PathEnd()
                base = list(self.trail)
                for c in feas[1:]:
                    work.append((st.copy(), base + [c]))
                self.assume(feas[0])
            if not st.frames:
                return

    def branch(self, st, work, c, a, b):
        """symbolic branch"""
        f = st.frames[-1]
        c = z3.simplify(c)
        ta = self.feasible(c)
        nc = z3.simplify(z3.Not(c))
        tb = self.feasible(nc)
        if ta and tb:
            st.forks += 1
            key = ('sb', f.block)
            n = f.visits.get(key, 0) + 1
            f.visits[key] = n
            if n > self.opts['sym_loop_limit']:
                if self.opts.get('bounded'):
                    raise PathEnd()
                raise LoopLimit(f.fn.name, f.block)
            s2 = st.copy()
            self.goto(s2, b)
            work.append((s2, list(self.trail) + [nc]))
            self._push(c)
            if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None
            self.goto(st, a)
        elif ta:
            self._push(c)
            self.goto(st, a)
        elif tb:
            self._push(nc)
            self.goto(st, b)
        else:
            raise PathEnd()

    def step(self, st, f, ins, work):
        """returns True when control moved to another block/frame"""
        op = ins.op
        env = f.env
        if op == 'br':
            if len(ins.a) == 1:
                self.goto(st, ins.a[0])
                return True
            c = self.val(st, ins.a[0], ('i', 1))
            if c is UNDEF:
                c = self.freshbool('undef')
            if isinstance(c, int):
                self.goto(st, ins.a[1] if c else ins.a[2])
                return True
            if ins.a[1] == ins.a[2]:
                self.goto(st, ins.a[1])
                return True
            self.branch(st, work, c, ins.a[1], ins.a[2])
            return True
        if op in BINOPS:
            t = self.T.res(ins.ty)
            a = self.val(st, ins.a[0], ins.ty)
            b = self.val(st, ins.a[1], ins.ty)
            if t[0] == 'vec':
                env[ins.res] = Agg(self.binop(op, t[2][1], x, y) for x, y in zip(a, b))
            elif t[0] == 'fp':
                env[ins.res] = ('fp', None)
            else:
                if op in ('udiv', 'sdiv', 'urem', 'srem') and (isz(b) or b == 0):
                    self.prove(simp(bv(self.num(b, t[1]), t[1]) != 0), f'no division by zero [{self.fnlabel(st)}]', st)
                env[ins.res] = self.binop(op, t[1], a, b)
            return False
        if op == 'icmp':
            x, y = self.val(st, ins.a[1], ins.ty), self.val(st, ins.a[2], ins.ty)
            if self.icmplog is not None:
                self.icmplog.append((ins.ty, x, y))
            env[ins.res] = self.icmp(ins.a[0], ins.ty, x, y, st)
            return False
        if op == 'load':
            env[ins.res] = self.load(st, self.val(st, ins.a[0], PTR), ins.ty)
            return False
        if op == 'store':
            v, p = ins.a
            ty = ins.ty
            self.store(st, self.val(st, p, PTR), ty, self.val(st, v, ty))
            return False
        if op == 'getelementptr':
            ops = ins.a[0]
            p = self.val(st, ops[0][1], PTR)
            env[ins.res] = self.gep(p, ins.ty, [(t, self.val(st, v, t)) for t, v in ops[1:]])
            return False
        if op in CASTS:
            ty, v = ins.a
            env[ins.res] = self.cast(op, ty, self.val(st, v, ty), ins.ty, st)
            return False
        if op == 'select':
            ct, c, a, b = ins.a
            c = self.val(st, c, ct)
            a = self.val(st, a, ins.ty)
            b = self.val(st, b, ins.ty)
            env[ins.res] = self.select(st, c, a, b, ins.ty)
            return False
        if op in ('call', 'invoke'):
            return self.docall(st, f, ins, work)
        if op == 'ret':
            v = self.val(st, ins.a[0], ins.ty) if ins.a else None
            for a in f.allocas:
                o = st.mem[a].copy()
                o.alive = False
                st.mem[a] = o
            st.frames.pop()
            if not st.frames:
                return True
            g = st.frames[-1]
            if f.ret is not None:
                g.env[f.ret] = v
            if f.retblock:
                self.goto(st, f.retblock)
            else:
                g.ip += 1
            return True
        if op == 'switch':
            v, d, cases = ins.a
            x = self.val(st, v, ins.ty)
            w = self.T.res(ins.ty)[1]
            x = self.num(x, w)
            if isinstance(x, int):
                for c, l in cases:
                    if c == x:
                        self.goto(st, l)
                        return True
                self.goto(st, d)
                return True
            groups = {}
            for c, l in cases:
                groups.setdefault(l, []).append(c)
            alts = []
            neg = []
            for l, cs in groups.items():
                e = z3.Or([x == z3.BitVecVal(c, w) for c in cs]) if len(cs) > 1 else (x == z3.BitVecVal(cs[0], w))
                alts.append((e, l))
            allc = [c for c, l in cases]
            e = z3.And([x != z3.BitVecVal(c, w) for c in allc])
            alts.append((e, d))
            feas = []
            for e, l in alts:
                e = z3.simplify(e)
                if z3.is_true(e) or self.feasible(e):
                    feas.append((e, l))
            if not feas:
                raise PathEnd()
            base = list(self.trail)
            for e, l in feas[1:]:
                s2 = st.copy()
                self.goto(s2, l)
                work.append((s2, base + [e]))
            self.assume(feas[0][0])
            self.goto(st, feas[0][1])
            return True
        if op == 'extractvalue':
            v, idx = ins.a
            x = self.val(st, v, ins.ty)
            for i in idx:
                x = UNDEF if x is UNDEF else x[i]
            env[ins.res] = x
            return False
        if op == 'insertvalue':
            v, t2, v2, idx = ins.a
            x = self.val(st, v, ins.ty)
            e = self.val(st, v2, t2)
            env[ins.res] = _ins(x, idx, e)
            return False
        if op == 'alloca':
            n, al = ins.a
            size = self.T.size(ins.ty)
            if n is not None:
                k = self.val(st, n[1], n[0])
                if not isinstance(k, int):
                    raise Undecided('variable-size alloca')
                size *= k
            o = self.newobj(st, size, self.uninit(), 'alloca', False, al)
            f.allocas.append(o.id)
            env[ins.res] = Ptr(o.id)
            return False
        if op == 'unreachable':
            self.prove(0, f'unreachable code not reached [{self.fnlabel(st)}]', st)
            raise PathEnd()
        if op == 'phi':
            raise Undecided('phi out of place')
        if op == 'indirectbr':
            v = self.val(st, ins.a[0], PTR)
            if isinstance(v, BlockAddr):
                self.goto(st, v.label)
                return True
            raise Undecided('indirectbr on ' + repr(v))
        if op == 'extractelement':
            v, i = ins.a
            x = self.val(st, v, ins.ty)
            k = self.val(st, i, ('i', 64))
            if not isinstance(k, int):
                raise Undecided('symbolic vector index')
            env[ins.res] = x[k]
            return False
        if op == 'insertelement':
            v, e, i = ins.a
            x = self.val(st, v, ins.ty)
            k = self.val(st, i, ('i', 64))
            x = Agg(x)
            x[k] = self.val(st, e, self.T.res(ins.ty)[2])
            env[ins.res] = x
            return False
        if op == 'shufflevector':
            a, b, t3, m = ins.a
            x = list(self.val(st, a, ins.ty)) + list(self.val(st, b, ins.ty))
            mk = self.val(st, m, t3)
            env[ins.res] = Agg(UNDEF if i is UNDEF else x[i] for i in mk)
            return False
        if op == 'fence':
            return False
        if op == 'cmpxchg':
            p, c, n = ins.a
            pv = self.val(st, p, PTR)
            old = self.load(st, pv, ins.ty)
            cv = self.val(st, c, ins.ty)
            eq = self.icmp('eq', ins.ty, old, cv, st)
            nv = self.val(st, n, ins.ty)
            self.store(st, pv, ins.ty, self.select(st, eq, nv, old, ins.ty))
            env[ins.res] = Agg([old, eq])
            return False
        if op == 'atomicrmw':
            rop, p, v = ins.a
            pv = self.val(st, p, PTR)
            old = self.load(st, pv, ins.ty)
            x = self.val(st, v, ins.ty)
            w = self.T.res(ins.ty)[1] if self.T.res(ins.ty)[0] == 'i' else 64
            nv = x if rop == 'xchg' else self.binop(rop, w, old, x)
            self.store(st, pv, ins.ty, nv)
            env[ins.res] = old
            return False
        if op == 'fcmp':
            env[ins.res] = self.freshbool('fcmp')
            return False
        if op == 'fneg':
            env[ins.res] = ('fp', None)
            return False
        raise Undecided('instruction ' + op)

    def select(self, st, c, a, b, ty):
        t = self.T.res(ty)
        if isinstance(c, Agg):
            return Agg(self.select(st, ci, x, y, t[2]) for ci, x, y in zip(c, a, b))
        if c is UNDEF:
            c = self.freshbool('undef')
        if isinstance(c, int):
            return a if c else b
        if a is b:
            return a
        if t[0] == 'ptr':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if a.base is b.base and a.delta == b.delta:
                    return a
                base, delta = splitc(simp(z3.If(c, bv(offterm(a.base, a.delta), 64), bv(offterm(b.base, b.delta), 64))))
                return Ptr(a.obj, base, delta)
            if self.must(c):
                return a
            if self.must(z3.Not(c)):
                return b
            raise Fork([c, z3.Not(c)])
        if t[0] == 'i':
            w = t[1]
            a, b = self.num(a, w), self.num(b, w)
            return self.ite(c, a, b, w)
        if t[0] in ('struct', 'arr', 'vec'):
            el = t[2] if t[0] == 'struct' else [t[2]] * t[1]
            return Agg(self.select(st, c, x, y, e) for x, y, e in zip(a, b, el))
        return ('fp', None)

    # ------------------------------------------------------------ calls
    def docall(self, st, f, ins, work):
        cal, args, nd = ins.a
        if cal[0] == 'asm':
            if cal[1] == '""':
                return False
            raise Undecided('inline asm ' + cal[1])
        if cal[0] == 'l':
            fp = self.resolve(st, self.val(st, cal, PTR))
        else:
            fp = self.constval(PTR, cal[1])
        if not isinstance(fp, FnPtr):
            if isinstance(fp, Ptr) or isinstance(fp, int):
                self.prove(0, f'call target valid [{self.fnlabel(st)}]', st)
                raise PathEnd()
            raise Undecided('indirect call')
        name = fp.name
        import intrinsics
        h = intrinsics.lookup(name)
        if h is not None:
            av = [self.val(st, v, t) for t, v in args]
            r = h(self, st, ins, name, av, args)
            if ins.res is not None:
                f.env[ins.res] = r
            if nd:
                self.goto(st, nd[0])
                return True
            return False
        fn = self.mod.functions.get(self.redirect.get(name, name))
        if fn is None:
            raise Undecided('call of external function ' + self.demangle(name))
        av = [self.val(st, v, t) for t, v in args]
        self.call(st, fn, av, ins.res)
        if nd:
            st.frames[-1].retblock = nd[0]
        return True


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'addrspacecast'}


def _ins(x, idx, e):
    if not idx:
        return e
    r = Agg(x)
    r[idx[0]] = _ins(r[idx[0]], idx[1:], e)
    return r


def _resize(t, w):
    s = t.size()
    if s == w:
        return t
    if s < w:
        return z3.ZeroExt(w - s, t)
    return z3.Extract(w - 1, 0, t)
