"""Inductive treatment of loops: at the loop header the state is generalised (every value the loop changes becomes arbitrary,
constrained only by invariants), one arbitrary iteration is executed, and the invariants are proved on entry and preserved.
Candidates for invariants: constant steps, orderings against values the loop compares with, differences of loop variables, and
the contract's own `vinv_*` predicates; the candidates that are not inductive are discarded, the rest become obligations."""
import z3
from engine import Ptr, FnPtr, NWrite, NBase, PathEnd, Undecided, LoopLimit, bv, isz, simp, offterm, addoff, splitc, boolz, ARR, M64, UNDEF


def succs(mod, fn, label):
    ins = fn.block(label).instrs[-1]
    if ins.op == 'br':
        return list(ins.a) if len(ins.a) == 1 else [ins.a[1], ins.a[2]]
    if ins.op == 'switch':
        return [ins.a[1]] + [l for c, l in ins.a[2]]
    if ins.op in ('call', 'invoke'):
        nd = ins.a[2]
        return [nd[0]] if nd else []
    return []


def graph(mod, fn):
    """reachable blocks and their successors"""
    g = {}
    todo = [fn.entry]
    while todo:
        b = todo.pop()
        if b in g:
            continue
        g[b] = succs(mod, fn, b)
        todo += g[b]
    return g


def dominators(g, entry):
    blocks = list(g)
    pred = {b: [] for b in blocks}
    for b in blocks:
        for s in g[b]:
            pred[s].append(b)
    dom = {b: set(blocks) for b in blocks}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in blocks:
            if b == entry:
                continue
            ps = [dom[p] for p in pred[b]]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    return dom, pred


def natural_loops(mod, fn):
    """header -> set of blocks"""
    g = graph(mod, fn)
    dom, pred = dominators(g, fn.entry)
    loops = {}
    for b in g:
        for h in g[b]:
            if h in dom[b]:
                body = loops.setdefault(h, {h})
                todo = [b]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo += pred[x]
    return loops


def find_header(mod, fname, block):
    fn = mod.functions.get(fname)
    if fn is None:
        return None
    fn.parse()
    best = None
    for h, body in natural_loops(mod, fn).items():
        if block in body and (best is None or len(body) < len(best[1])):
            best = (h, body)
    return (fname, best[0]) if best else None


def infer(*a):
    return None


def written(E, node, root):
    """constant cells written since root, or None when not all are constant"""
    cells = set()
    n = 0
    while node is not root:
        if isinstance(node, NWrite) and node.base is None:
            cells.add((node.delta, node.n))
            node = node.prev
            n += 1
            if n > 200:
                return None
        else:
            return None
    return cells


class Cut:
    def __init__(self, mod, key, inv):
        self.key = key
        self.mod = mod
        self.fn = mod.functions[key[0]]
        self.body = natural_loops(mod, self.fn)[key[1]]
        self.user = sorted(f for f in mod.functions if f.startswith('vinv_'))
        self.user2 = sorted(f for f in mod.functions if f.startswith('vinv2_'))     # of the iterations done and a loop variable

    # -------------------------------------------------------------- values
    def phis(self):
        r = []
        for ins in self.fn.block(self.key[1]).instrs:
            if ins.op != 'phi':
                break
            r.append((ins.res, ins.ty))
        return r

    def at_header(self, E, st, f):
        blk = self.key[1]
        info = (f.cut or {}).get(blk)
        if info is not None and f.prev in self.body:
            if info.get('dry') is not None:
                info['dry'].append((st.copy(), list(E.trail)))
                raise PathEnd()
            self.preserved(E, st, f, info)
            raise PathEnd()
        self.enter(E, st, f)

    def current(self, E, st, f, cells):
        vals = {}
        for r, ty in self.phis():
            vals[r] = f.env[r]
        for (oid, d, n) in cells:
            o = E.getobj(st, oid)
            vals[(oid, d, n)] = E.rbytes(st, o.node, None, d, n)
        return vals

    def generalise(self, E, st, f, info):
        """st, f are modified in place: loop variables and written memory become arbitrary"""
        f.env = dict(f.env)
        E.assume(z3.ULT(info['it'], z3.BitVecVal(1 << 56, 64)))
        vals = {}
        for k, v0 in info['init'].items():
            vals[k] = v0 if info.get('exact') else self.general(E, st, k, v0, info)
        for r, ty in self.phis():
            f.env[r] = vals[r]
        for oid in info['objs']:
            o = E.getobj(st, oid).copy()
            E.nfresh += 1
            o.node = NBase('sym', z3.Const(f'loopmem!{E.nfresh}', ARR))
            st.mem[oid] = o
        for k in info['cells']:
            oid, d, n = k
            o = E.getobj(st, oid).copy()
            o.node = NWrite(o.node, None, d, n, vals[k])
            st.mem[oid] = o
        info['vals'] = vals
        info['nodes'] = {oid: o.node for oid, o in st.mem.items()}

    def general(self, E, st, k, v0, info):
        step = info['steps'].get(k)
        if step == 0:
            return v0
        if isinstance(v0, FnPtr) or v0 is UNDEF or (isinstance(v0, list)):
            raise Undecided('loop variable kind')
        if isinstance(v0, tuple):
            return ('fp', None)
        ty = None
        if isinstance(k, tuple):
            w = 8 * k[2]
        else:
            ty = E.T.res(dict(self.phis())[k])
            w = 64 if ty[0] == 'ptr' else ty[1]
        if isinstance(v0, Ptr):
            if step is not None and step != 'any':
                b, d = addoff(v0.base, v0.delta, simp(bv(step, 64) * info['it']))
            else:
                b, d = splitc(E.fresh(64, 'loopptr'))
            return Ptr(v0.obj, b, d)
        if ty is not None and ty[0] == 'ptr':
            if isinstance(v0, int) and v0 == 0:
                raise Undecided('loop variable may be null')
            raise Undecided('loop pointer')
        if step is not None and step != 'any':
            it = info['it']
            x = it if w == 64 else (z3.Extract(w - 1, 0, it) if w < 64 else z3.ZeroExt(w - 64, it))
            return simp(bv(v0, w) + bv(step % (1 << w), w) * x)
        if w == 1:
            return E.freshbool('loopflag')
        return E.fresh(w, 'loopvar')

    # -------------------------------------------------------------- inference
    def explore(self, E, st, f, info, invs):
        """all paths of one iteration from the generalised state; returns the snapshots at the back edge"""
        info['dry'] = []
        base = list(E.trail)
        h = st.copy()
        hf = h.frames[-1]
        self.generalise(E, h, hf, info)
        hf.cut = dict(hf.cut or {})
        hf.cut[self.key[1]] = info
        hf.skip = hf.ip == 0
        depth = len(h.frames)
        saved = E.dry, E.icmplog, E.covers
        covers = set(E.covers)
        E.dry = (depth, self.body, saved[0])
        E.icmplog = []
        try:
            try:
                for nm in invs:
                    E.assume(self.formula(E, h, hf, info, nm))
            except PathEnd:
                return h, [], []
            work = [(h.copy(), list(E.trail))]
            n = 0
            while work:
                s, trail = work.pop()
                E.sync(trail)
                n += 1
                if n > 3000:
                    raise Undecided('too many paths in a loop body')
                try:
                    E.runpath(s, work)
                except PathEnd:
                    pass
                except LoopLimit:
                    raise
                except Undecided as e:
                    if 'time budget' in e.why:
                        raise
                    info['why'] = e.why
            log = E.icmplog
        finally:
            E.dry, E.icmplog = saved[0], saved[1]
            E.covers = covers
            E.sync(base)
            snaps = info['dry']
            info['dry'] = None
        return h, snaps, log

    def enter(self, E, st, f):
        info = {'init': self.current(E, st, f, ()), 'steps': {}, 'objs': set(), 'cells': set(), 'it': E.fresh(64, 'it'), 'dry': None}
        E.assumption_notes.add('loops run fewer than 2^56 iterations')
        log = []
        for rnd in range(14):
            # the first iteration suggests constant steps
            info['exact'] = rnd == 0
            h, snaps, log = self.explore(E, st, f, info, [])
            changed = False
            for s, trail in snaps:
                g = s.frames[-1]
                # memory
                for oid, o in s.mem.items():
                    if oid in info['nodes'] and o.node is not info['nodes'][oid] and oid not in info['objs']:
                        if not o.alive:
                            raise Undecided('object released in a loop')
                        cells = written(E, o.node, info['nodes'][oid])
                        old = {c for c in info['cells'] if c[0] == oid}
                        new = {(oid,) + c for c in cells} if cells is not None else None
                        if new is None or any(self.overlap(a, b) for a in new | old for b in new | old if a != b):
                            info['objs'].add(oid)
                            info['cells'] -= old
                            for k in old:
                                info['init'].pop(k, None)
                                info['steps'].pop(k, None)
                            changed = True
                        elif not new <= old:
                            info['cells'] |= new
                            changed = True
                if changed:
                    continue
                now = self.current(E, s, g, info['cells'])
                for k, v in info['vals'].items():
                    d = self.difference(v, now[k])
                    if info['steps'].get(k, d) != d:
                        d = 'any'
                    if info['steps'].get(k, 'new') != d:
                        if info['steps'].get(k) != 'any':
                            info['steps'][k] = d
                            changed = changed or (k in info['steps'])
            for k in info['cells']:
                if k not in info['init']:
                    info['init'][k] = E.rbytes(st, E.getobj(st, k[0]).node, None, k[1], k[2])
                    changed = True
            if not changed and rnd > 0:
                break
        else:
            raise Undecided('loop frame not found')
        # invariants
        names = self.candidates(E, st, f, info, log)
        sf = st.frames[-1]
        info['vals'] = dict(info['init'])
        entry = dict(info, vals=info['init'], it=z3.BitVecVal(0, 64))
        keep = []
        for nm in names:
            try:
                c = self.formula(E, st, sf, entry, nm)
            except PathEnd:
                raise
            if self.holds(E, c, nm[0] == 'user'):
                keep.append(nm)
        while keep:
            h, snaps, _ = self.explore(E, st, f, info, keep)
            drop = set()
            base = list(E.trail)
            for s, trail in snaps:
                E.sync(trail)
                g = s.frames[-1]
                now = dict(info, vals=self.current(E, s, g, info['cells']), it=info['it'] + 1)
                for nm in keep:
                    if nm in drop:
                        continue
                    if not self.holds(E, self.formula(E, s, g, now, nm), nm[0] == 'user'):
                        drop.add(nm)
                        if E.opts.get('loopverbose'):
                            print('drop', self.key, nm, flush=True)
            E.sync(base)
            if not drop:
                break
            keep = [k for k in keep if k not in drop]
        if E.opts.get('loopverbose'):
            print('loop', self.key, 'steps', info['steps'], 'objs', info['objs'], 'cells', info['cells'], 'invs', keep, info.get('why'), flush=True)
        # entry obligations, then continue with an arbitrary iteration
        info['keep'] = keep
        for nm in keep:
            if nm[0] == 'user':
                E.prove(self.formula(E, st, sf, entry, nm), f'loop invariant {nm[1]} holds on entry [{E.demangle(self.key[0])}]', st)
        self.generalise(E, st, f, info)
        for nm in keep:
            E.assume(self.formula(E, st, f, info, nm))
        f.cut = dict(f.cut or {})
        f.cut[self.key[1]] = info

    def overlap(self, a, b):
        return a[0] == b[0] and a[1] < b[1] + b[2] and b[1] < a[1] + a[2]

    def difference(self, a, b):
        if a is b:
            return 0
        if isinstance(a, Ptr):
            if not isinstance(b, Ptr) or a.obj != b.obj:
                raise Undecided('loop pointer moves between objects')
            d = simp(bv(offterm(b.base, b.delta), 64) - bv(offterm(a.base, a.delta), 64))
            return d if isinstance(d, int) else 'any'
        if isinstance(a, (int,)) or isz(a):
            if isinstance(a, int) and isinstance(b, int):
                return (b - a) & M64 if a != b else 0
            if isz(a) and z3.is_bool(a) or isz(b) and z3.is_bool(b):
                return 0 if isz(a) and isz(b) and a.eq(b) else 'any'
            if isinstance(b, Ptr):
                raise Undecided('loop pointer')
            w = a.size() if isz(a) else b.size()
            d = simp(bv(b, w) - bv(a, w))
            return d if isinstance(d, int) else 'any'
        return 'any'

    def holds(self, E, c, hard=True, budget=20.0):
        if isinstance(c, int):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        r = E._check(z3.Not(c))
        if r == z3.unsat:
            return True
        if r == z3.unknown and hard:
            import portfolio
            nc = z3.Not(c)
            o, w = portfolio.solve(E.cone(nc) + [nc], budget)
            return o == 'unsat'
        return False

    # -------------------------------------------------------------- candidates
    def term(self, v):
        """(kind, term): integer value or offset within an object"""
        if isinstance(v, Ptr):
            return ('o', v.obj), bv(offterm(v.base, v.delta), 64)
        if isinstance(v, int):
            return None, v
        if isz(v) and not z3.is_bool(v):
            return ('i', v.size()), v
        return None, None

    def candidates(self, E, st, f, info, log):
        names = []
        hv = set()
        for k, v in info['vals'].items():
            _, t = self.term(v)
            if isz(t):
                hv |= set(E.varset(t))
        for oid in info['objs']:
            n = info['nodes'][oid]
            hv |= set(E.varset(z3.Select(n.data, z3.BitVecVal(0, 64)))) | {n.data.decl().name()}
        changing = [k for k in info['vals'] if info['steps'].get(k) != 0]
        bounds = {}
        def addb(kind, t):
            if t is None or kind is None:
                return
            tt = bv(t, kind[1] if kind[0] == 'i' else 64)
            if isz(t) and set(E.varset(t)) & hv:
                return
            bounds[(kind, tt.get_id())] = (kind, tt)
        for ty, a, b in log:
            for x in (a, b):
                kind, t = self.term(x)
                if kind is None and isinstance(x, int):
                    ty_ = E.T.res(ty)
                    if ty_[0] == 'i' and ty_[1] > 1:
                        kind = ('i', ty_[1])
                        t = x
                addb(kind, t)
        info['keepalive'] = list(bounds.values())
        for k in changing:
            v = info['vals'][k]
            kind, t = self.term(v)
            if kind is None:
                continue
            ik, i0 = self.term(info['init'][k])
            if ik is None and isinstance(i0, int):
                ik = kind
            bs = dict(bounds)
            if i0 is not None:
                tt = bv(i0, kind[1] if kind[0] == 'i' else 64)
                bs[(kind, tt.get_id())] = (kind, tt)
            for (bk, _), (bk2, bt) in bs.items():
                if bk != kind:
                    continue
                for op in ('ule', 'ult', 'uge', 'ugt', 'sle', 'sge', 'ne'):
                    names.append((op, k, bt))
        for i, k in enumerate(changing):
            for q in changing[:i]:
                if info['steps'].get(k) not in (None, 'any') and info['steps'].get(q) not in (None, 'any'):
                    continue
                a, ta = self.term(info['vals'][k])
                b, tb = self.term(info['vals'][q])
                if a is None or b is None or isinstance(ta, int) or isinstance(tb, int) or ta.size() != tb.size():
                    continue
                names.append(('diff', k, q))
        for u in self.user:
            for k in info['vals']:
                kind, t = self.term(info['vals'][k])
                if kind is not None and (kind[0] == 'o' or kind[1] == 64) and info['steps'].get(k) != 0:
                    names.append(('user', u, k))
            names.append(('user', u, 'it'))
        for u in self.user2:
            for k in info['vals']:
                kind, t = self.term(info['vals'][k])
                if kind is not None and (kind[0] == 'o' or kind[1] == 64) and info['steps'].get(k) in (None, 'any'):
                    names.append(('user', u, k))
        return names

    def formula(self, E, st, f, info, nm):
        op = nm[0]
        vals = info['vals']
        if op == 'user':
            t = info['it'] if nm[2] == 'it' else self.term(vals[nm[2]])[1]
            args = [simp(bv(t, 64))]
            return evalinv(E, st, nm[1], [info['it']] + args if nm[1] in self.user2 else args)
        kind, t = self.term(vals[nm[1]])
        if op == 'diff':
            b, tb = self.term(vals[nm[2]])
            i0, t0 = self.term(info['init'][nm[1]])
            i1, t1 = self.term(info['init'][nm[2]])
            w = t.size() if isz(t) else tb.size() if isz(tb) else 64
            return bv(t, w) - bv(tb, w) == bv(t0, w) - bv(t1, w)
        bt = nm[2]
        t = bv(t, bt.size())
        return {'ule': z3.ULE, 'ult': z3.ULT, 'uge': z3.UGE, 'ugt': z3.UGT, 'sle': lambda a, b: a <= b, 'sge': lambda a, b: a >= b,
                'ne': lambda a, b: a != b}[op](t, bt)

    # -------------------------------------------------------------- preservation
    def preserved(self, E, st, f, info):
        now = dict(info, vals=self.current(E, st, f, info['cells']), it=info['it'] + 1)
        for oid, o in st.mem.items():
            if oid in info['nodes'] and oid not in info['objs'] and o.node is not info['nodes'][oid]:
                cells = written(E, o.node, info['nodes'][oid])
                if cells is None or not {(oid,) + c for c in cells} <= info['cells']:
                    raise Undecided('loop writes outside its frame')
        for k, v in info['vals'].items():
            s = info['steps'].get(k)
            d = self.difference(v, now['vals'][k])
            if s not in (None, 'any') and d != s:
                raise Undecided('loop variable changes irregularly')
        for nm in info['keep']:
            lab = f'loop invariant {nm[1]}' if nm[0] == 'user' else 'loop bounds invariant'
            E.prove(self.formula(E, st, f, now, nm), f'{lab} is preserved [{E.demangle(self.key[0])}]', st)


def evalinv(E, st, fname, pos):
    """value of the contract predicate fname(*pos) in state st, as one formula"""
    base = list(E.trail)
    s = st.copy()
    s.frames = []
    E.call(s, E.mod.functions[fname], pos, None)
    sink = []
    saved = E.dry, E.invsink, E.facts
    E.facts = facts = []
    E.dry = (0, None, None)
    E.invsink = sink
    try:
        work = [(s, list(E.trail))]
        while work:
            x, trail = work.pop()
            E.sync(trail)
            try:
                E.runpath(x, work)
            except PathEnd:
                pass
    finally:
        E.dry, E.invsink, E.facts = saved
        E.sync(base)
    for c in facts:
        E.assume(boolz(c))
    out = []
    for conds, c in sink:
        pc = [x for x in conds[len(base):]]
        out.append(z3.Implies(z3.And(pc), boolz(c)) if pc else boolz(c))
    return simp(z3.And(out)) if len(out) > 1 else simp(out[0]) if out else 1
