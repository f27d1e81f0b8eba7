"""Out-of-process solver portfolio (cvc5 with integer blasting, cvc5 and z3 with bit blasting) used when the incremental solver gives up."""
import os
import subprocess
import tempfile
import time
import z3


def unselect(cs):
    """replace reads of (never stored-to) base arrays by constants with functional consistency constraints"""
    cache = {}
    sel = {}

    def rec(e):
        k = e.get_id()
        r = cache.get(k)
        if r is not None:
            return r[1]
        if z3.is_select(e) and z3.is_const(e.arg(0)):
            i = rec(e.arg(1))
            key = (e.arg(0).get_id(), i.get_id())
            if key not in sel:
                sel[key] = (e.arg(0), i, z3.BitVec('sel!%d' % len(sel), 8))
            r = sel[key][2]
        else:
            ch = e.children()
            if ch:
                ch2 = [rec(c) for c in ch]
                if any(a is not b for a, b in zip(ch, ch2)):
                    k_ = e.decl().kind()
                    if k_ == z3.Z3_OP_AND:
                        r = z3.And(ch2)
                    elif k_ == z3.Z3_OP_OR:
                        r = z3.Or(ch2)
                    elif k_ in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_CONCAT) and len(ch2) > 2:
                        r = ch2[0]
                        for c in ch2[1:]:
                            if k_ == z3.Z3_OP_BADD:
                                r = r + c
                            elif k_ == z3.Z3_OP_BMUL:
                                r = r * c
                            elif k_ == z3.Z3_OP_BAND:
                                r = r & c
                            elif k_ == z3.Z3_OP_BOR:
                                r = r | c
                            elif k_ == z3.Z3_OP_BXOR:
                                r = r ^ c
                            else:
                                r = z3.Concat(r, c)
                    else:
                        r = e.decl()(*ch2)
                else:
                    r = e
            else:
                r = e
        cache[k] = (e, r)
        return r
    out = [rec(c) for c in cs]
    l = list(sel.values())
    if len(l) > 400:
        return None
    for x in range(len(l)):
        for y in range(x):
            if l[x][0].get_id() == l[y][0].get_id():
                c = z3.simplify(l[x][1] == l[y][1])
                if z3.is_false(c):
                    continue
                out.append(z3.Implies(c, l[x][2] == l[y][2]))
    return out


def relevant(conds, goal_idx):
    """cone of influence: constraints connected to the goal through shared uninterpreted constants"""
    def vars_of(e, memo={}):
        out = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
        return out
    vs = [vars_of(c) for c in conds]
    cur = set(vs[goal_idx])
    used = {goal_idx}
    ch = True
    while ch:
        ch = False
        for i, v in enumerate(vs):
            if i not in used and v & cur:
                used.add(i)
                cur |= v
                ch = True
    return [conds[i] for i in sorted(used)]


CMDS = {
    'cvc5-int': ['cvc5', '--solve-bv-as-int=sum'],
    'cvc5': ['cvc5'],
    'z3': ['z3-new'],
}


def solve(conds, timeout, which=('cvc5-int', 'cvc5', 'z3')):
    """returns (result, solver name)"""
    cs = unselect(conds)
    if cs is None:
        cs = list(conds)
        which = [w for w in which if w != 'cvc5-int']
    s = z3.Solver()
    s.add(*cs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode())
    os.close(fd)
    procs = []
    try:
        for w in which:
            cmd = list(CMDS[w])
            if w.startswith('cvc5'):
                cmd.append('--tlimit=%d' % int(timeout * 1000))
            else:
                cmd.append('-T:%d' % max(1, int(timeout + 0.99)))
            procs.append((w, subprocess.Popen(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)))
        end = time.time() + timeout + 1
        pending = list(procs)
        while pending and time.time() < end:
            for it in list(pending):
                w, p = it
                if p.poll() is not None:
                    pending.remove(it)
                    out = p.stdout.read().decode().strip().split('\n')[0]
                    if out in ('sat', 'unsat'):
                        return out, w
            time.sleep(0.004)
        return 'unknown', ''
    finally:
        for w, p in procs:
            if p.poll() is None:
                p.kill()
            p.stdout.close()
            p.wait()
        os.unlink(path)
