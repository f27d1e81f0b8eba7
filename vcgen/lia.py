"""Over-approximation of a bit-vector problem in linear integer arithmetic.

Every bit-vector term t of width n is represented by an integer term E with bounds lo <= E <= hi and E = t (mod 2^n).  Terms outside the
linear fragment become unconstrained integers of their width's range, so `unsat` carries over to the original problem; any other answer does not."""
import z3

K = z3
LIMIT = 4000


class TooBig(Exception):
    pass


class Lia:
    def __init__(self):
        self.bv = {}
        self.bo = {}
        self.side = []
        self.keep = []
        self.n = 0
        self.divs = {}

    def fresh(self, lo, hi):
        v = z3.Int('i!%d' % self.n)
        self.n += 1
        if self.n > LIMIT:
            raise TooBig()
        self.side += [v >= lo, v <= hi]
        return v

    # -- representation changes
    def window(self, r, n, lo):
        """integer term equal to r mod 2^n within [lo, lo+2^n)"""
        E, a, b = r
        m = 1 << n
        if a >= lo and b < lo + m:
            return r
        if isinstance(E, int):
            v = (E - lo) % m + lo
            return (v, v, v)
        if a >= lo - m and b < lo + m:
            return (z3.If(E < lo, E + m, E), lo, lo + m - 1)
        if a >= lo and b < lo + 2 * m:
            return (z3.If(E >= lo + m, E - m, E), lo, lo + m - 1)
        k = self.fresh((a - lo) // m, (b - lo) // m)
        u = self.fresh(lo, lo + m - 1)
        self.side.append(E == u + m * k)
        return (u, lo, lo + m - 1)

    def uns(self, r, n):
        return self.window(r, n, 0)

    def sgn(self, r, n):
        return self.window(r, n, -(1 << (n - 1)))

    def divmod(self, r, d):
        """floor division of a non-negative integer term"""
        E, a, b = r
        if isinstance(E, int):
            return (E // d,) * 3, (E % d,) * 3
        key = (E.get_id(), d)
        if key not in self.divs:
            if b < d and a >= 0:
                self.divs[key] = ((0, 0, 0), r, E)
            else:
                q = self.fresh(a // d, b // d)
                m = self.fresh(0, d - 1)
                self.side.append(E == q * d + m)
                self.divs[key] = ((q, a // d, b // d), (m, 0, d - 1), E)
        return self.divs[key][0], self.divs[key][1]

    # -- terms
    def term(self, t):
        k = t.get_id()
        r = self.bv.get(k)
        if r is None:
            r = self._term(t)
            self.bv[k] = r
            self.keep.append(t)
        return r

    def opaque(self, n):
        return (self.fresh(0, (1 << n) - 1), 0, (1 << n) - 1)

    def _term(self, t):
        n = t.size()
        d = t.decl().kind()
        if z3.is_bv_value(t):
            v = t.as_signed_long()
            return (v, v, v)
        if d == K.Z3_OP_BADD:
            E, a, b = 0, 0, 0
            for c in t.children():
                x = self.term(c)
                E, a, b = E + x[0], a + x[1], b + x[2]
            return self.clamp((E, a, b), n)
        if d == K.Z3_OP_BSUB:
            x, y = self.term(t.arg(0)), self.term(t.arg(1))
            return self.clamp((x[0] - y[0], x[1] - y[2], x[2] - y[1]), n)
        if d == K.Z3_OP_BNEG:
            x = self.term(t.arg(0))
            return self.clamp((-x[0], -x[2], -x[1]), n)
        if d == K.Z3_OP_BNOT:
            x = self.term(t.arg(0))
            return self.clamp((-1 - x[0], -1 - x[2], -1 - x[1]), n)
        if d == K.Z3_OP_BMUL:
            cs = [c for c in t.children() if z3.is_bv_value(c)]
            vs = [c for c in t.children() if not z3.is_bv_value(c)]
            if len(vs) == 1:
                m = 1
                for c in cs:
                    m *= c.as_signed_long()
                x = self.term(vs[0])
                lo, hi = sorted((x[1] * m, x[2] * m))
                return self.clamp((x[0] * m, lo, hi), n)
            return self.opaque(n)
        if d == K.Z3_OP_ITE:
            c = self.boolean(t.arg(0))
            x, y = self.term(t.arg(1)), self.term(t.arg(2))
            return (z3.If(c, x[0], y[0]), min(x[1], y[1]), max(x[2], y[2]))
        if d == K.Z3_OP_CONCAT:
            E, a, b = 0, 0, 0
            for c in t.children():
                w = c.size()
                x = self.uns(self.term(c), w)
                E, a, b = E * (1 << w) + x[0], (a << w) + x[1], (b << w) + x[2]
            return (E, a, b)
        if d == K.Z3_OP_ZERO_EXT:
            return self.uns(self.term(t.arg(0)), t.arg(0).size())
        if d == K.Z3_OP_SIGN_EXT:
            return self.sgn(self.term(t.arg(0)), t.arg(0).size())
        if d == K.Z3_OP_EXTRACT:
            hi, lo = t.params()
            x = self.term(t.arg(0))
            if lo == 0:
                return self.clamp(x, n)       # congruent modulo the smaller power too
            u = self.uns(x, t.arg(0).size())
            q, _ = self.divmod(u, 1 << lo)
            return self.clamp(q, n)
        if d in (K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I, K.Z3_OP_BUREM, K.Z3_OP_BUREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() > 0:
            q, m = self.divmod(self.uns(self.term(t.arg(0)), n), t.arg(1).as_long())
            return q if d in (K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I) else m
        if d in (K.Z3_OP_BSDIV, K.Z3_OP_BSDIV_I, K.Z3_OP_BSREM, K.Z3_OP_BSREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_signed_long() > 0:
            x = self.sgn(self.term(t.arg(0)), n)
            c = t.arg(1).as_signed_long()
            neg = x[1] < 0
            ab = x if not neg else (z3.If(x[0] < 0, -x[0], x[0]) if not isinstance(x[0], int) else abs(x[0]), 0, max(abs(x[1]), abs(x[2])))
            q, m = self.divmod(ab, c)
            r = q if d in (K.Z3_OP_BSDIV, K.Z3_OP_BSDIV_I) else m
            if not neg:
                return r
            if isinstance(x[0], int):
                v = r[0] if x[0] >= 0 else -r[0]
                return (v, v, v)
            return (z3.If(x[0] < 0, -r[0], r[0]), -r[2], r[2])
        if d in (K.Z3_OP_BSHL, K.Z3_OP_BLSHR) and z3.is_bv_value(t.arg(1)):
            c = t.arg(1).as_long()
            if c >= n:
                return (0, 0, 0)
            x = self.term(t.arg(0))
            if d == K.Z3_OP_BSHL:
                return self.clamp((x[0] * (1 << c), x[1] << c, x[2] << c), n)
            return self.divmod(self.uns(x, n), 1 << c)[0]
        return self.opaque(n)

    def clamp(self, r, n):
        """keep the magnitude of representatives bounded"""
        E, a, b = r
        if isinstance(E, int):
            v = E % (1 << n)
            v = v - (1 << n) if v >= 1 << (n - 1) else v
            return (v, v, v)
        if b - a >= 1 << (n + 8) or b >= 1 << (n + 8) or a < -(1 << (n + 8)):
            return self.uns(r, n)
        return r

    # -- formulas
    def boolean(self, f):
        k = f.get_id()
        r = self.bo.get(k)
        if r is None:
            r = self._bool(f)
            self.bo[k] = r
            self.keep.append(f)
        return r

    def _bool(self, f):
        if z3.is_true(f) or z3.is_false(f):
            return f
        d = f.decl().kind()
        if d == K.Z3_OP_NOT:
            return z3.Not(self.boolean(f.arg(0)))
        if d == K.Z3_OP_AND:
            return z3.And([self.boolean(c) for c in f.children()])
        if d == K.Z3_OP_OR:
            return z3.Or([self.boolean(c) for c in f.children()])
        if d == K.Z3_OP_IMPLIES:
            return z3.Implies(self.boolean(f.arg(0)), self.boolean(f.arg(1)))
        if d == K.Z3_OP_XOR:
            return z3.Xor(self.boolean(f.arg(0)), self.boolean(f.arg(1)))
        if d == K.Z3_OP_ITE:
            return z3.If(self.boolean(f.arg(0)), self.boolean(f.arg(1)), self.boolean(f.arg(2)))
        if d == K.Z3_OP_EQ:
            a, b = f.arg(0), f.arg(1)
            if z3.is_bool(a):
                return self.boolean(a) == self.boolean(b)
            if z3.is_bv(a):
                n = a.size()
                x, y = self.term(a), self.term(b)
                # equal modulo 2^n
                lo, hi = min(x[1], y[1]), max(x[2], y[2])
                if hi - lo < 1 << n:
                    return self._c(x[0] == y[0])
                x, y = self.uns(x, n), self.uns(y, n)
                return self._c(x[0] == y[0])
        elif d in (K.Z3_OP_ULEQ, K.Z3_OP_ULT, K.Z3_OP_UGEQ, K.Z3_OP_UGT, K.Z3_OP_SLEQ, K.Z3_OP_SLT, K.Z3_OP_SGEQ, K.Z3_OP_SGT):
            n = f.arg(0).size()
            g = self.uns if d in (K.Z3_OP_ULEQ, K.Z3_OP_ULT, K.Z3_OP_UGEQ, K.Z3_OP_UGT) else self.sgn
            x, y = g(self.term(f.arg(0)), n)[0], g(self.term(f.arg(1)), n)[0]
            if d in (K.Z3_OP_ULEQ, K.Z3_OP_SLEQ):
                return self._c(x <= y)
            if d in (K.Z3_OP_ULT, K.Z3_OP_SLT):
                return self._c(x < y)
            if d in (K.Z3_OP_UGEQ, K.Z3_OP_SGEQ):
                return self._c(x >= y)
            return self._c(x > y)
        v = z3.Bool('b!%d' % self.n)
        self.n += 1
        return v

    def _c(self, r):
        return z3.BoolVal(r) if isinstance(r, bool) else r


def unsat(conds, timeout_ms):
    """True when the linear abstraction of the conditions is unsatisfiable"""
    l = Lia()
    try:
        fs = [l.boolean(c) for c in conds]
    except TooBig:
        return False
    s = z3.SimpleSolver()
    s.set('timeout', timeout_ms)
    s.add(*l.side)
    s.add(*fs)
    return s.check() == z3.unsat
