"""Value ranges of bit-vector terms and division by constants.  rng(t, B) is a sound interval for the two's complement
value of t given bounds B {variable name: (lo, hi)} that hold on every path; div_const rewrites t / c for constant c."""
import z3
K = z3
def full(n): return (-(1 << (n-1)), (1 << (n-1)) - 1)
def fit(lo, hi, n):
    f = full(n)
    return (lo, hi) if f[0] <= lo and hi <= f[1] else f
def sg(v, n): return v - (1 << n) if v >> (n-1) else v
class Ranges:
    def __init__(self): self.c = {}; self.keep = []; self.B = {}
    def rng(self, t):
        i = t.get_id(); r = self.c.get(i)
        if r is None: r = self.c[i] = self._rng(t); self.keep.append(t)
        return r
    def _rng(self, t):
        n = t.size(); k = t.decl().kind()
        if k == K.Z3_OP_BNUM: v = sg(t.as_long(), n); return (v, v)
        if k == K.Z3_OP_UNINTERPRETED and t.num_args() == 0: return self.B.get(t.decl().name(), full(n))
        if k == K.Z3_OP_BADD:
            a = [self.rng(x) for x in t.children()]; return fit(sum(x[0] for x in a), sum(x[1] for x in a), n)
        if k == K.Z3_OP_BSUB:
            x, y = self.rng(t.arg(0)), self.rng(t.arg(1)); return fit(x[0] - y[1], x[1] - y[0], n)
        if k == K.Z3_OP_BNEG:
            x = self.rng(t.arg(0)); return fit(-x[1], -x[0], n)
        if k == K.Z3_OP_BMUL and t.num_args() == 2:
            x, y = self.rng(t.arg(0)), self.rng(t.arg(1)); p = [a * b for a in x for b in y]; return fit(min(p), max(p), n)
        if k == K.Z3_OP_ITE:
            x, y = self.rng(t.arg(1)), self.rng(t.arg(2)); return (min(x[0], y[0]), max(x[1], y[1]))
        if k == K.Z3_OP_SIGN_EXT: return self.rng(t.arg(0))
        if k == K.Z3_OP_ZERO_EXT:
            x = self.rng(t.arg(0)); return x if x[0] >= 0 else (0, (1 << t.arg(0).size()) - 1)
        if k == K.Z3_OP_CONCAT:
            h = t.arg(0); w = sum(c.size() for c in t.children()[1:])
            if z3.is_bv_value(h) and h.as_long() == 0:
                if t.num_args() == 2:
                    x = self.rng(t.arg(1))
                    if x[0] >= 0: return x
                return (0, (1 << w) - 1)
            l = t.arg(t.num_args() - 1); y = h.arg(0) if h.decl().kind() == K.Z3_OP_EXTRACT and h.params()[0] == h.params()[1] == l.size() - 1 else None
            if y is not None and all(x.eq(h) for x in t.children()[1:-1]) and (y.eq(l) or (l.decl().kind() == K.Z3_OP_EXTRACT and l.params()[1] == 0 and l.arg(0).eq(y))): return self.rng(l)
            return full(n)
        if k == K.Z3_OP_EXTRACT:
            hi, lo = t.params()
            if lo == 0:
                x = self.rng(t.arg(0)); return fit(x[0], x[1], n)
            return full(n)
        if k in (K.Z3_OP_BUREM, K.Z3_OP_BUREM_I) and z3.is_bv_value(t.arg(1)):
            c = t.arg(1).as_long(); x = self.rng(t.arg(0))
            if 0 < c < 1 << (n-1): return (0, min(c - 1, x[1]) if x[0] >= 0 else c - 1)
        if k in (K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I) and z3.is_bv_value(t.arg(1)):
            c = t.arg(1).as_long(); x = self.rng(t.arg(0))
            if c > 0 and x[0] >= 0 and c < 1 << (n-1): return (x[0] // c, x[1] // c)
            if c > 1: return (0, ((1 << n) - 1) // c) if ((1 << n) - 1) // c < 1 << (n-1) else full(n)
        return full(n)
    def terms(self, t, n, out, mul=1):
        """t as a list of (coefficient, term) whose mathematical sum is congruent to t modulo 2^n"""
        k = t.decl().kind()
        if k == K.Z3_OP_BNUM: out.append((mul * sg(t.as_long(), n), None)); return
        if k == K.Z3_OP_BADD:
            for x in t.children(): self.terms(x, n, out, mul)
            return
        if k == K.Z3_OP_BSUB: self.terms(t.arg(0), n, out, mul); self.terms(t.arg(1), n, out, -mul); return
        if k == K.Z3_OP_BNEG: return self.terms(t.arg(0), n, out, -mul)
        if k == K.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)): return self.terms(t.arg(1), n, out, mul * sg(t.arg(0).as_long(), n))
        out.append((mul, t))
    def floordiv(self, t, c, n):
        """(q, r) terms or ints with t = q*c + r, 0 <= r < c as mathematical integers, or None"""
        ts = []; self.terms(t, n, ts)
        if sum(1 for _, x in ts if x is not None) > 24: return None
        def srng(l):
            lo = hi = 0
            for m, x in l:
                a, b = (1, 1) if x is None else self.rng(x)
                lo += min(m*a, m*b); hi += max(m*a, m*b)
            return lo, hi
        F = full(n); lo, hi = srng(ts)
        if lo < F[0] or hi > F[1]:
            ts = [(1, t)]; lo, hi = self.rng(t)
        X = [(m // c, x) for m, x in ts if m % c == 0 and x is not None]
        R = [(m, x) for m, x in ts if m % c != 0 or x is None]
        # large coefficients: keep their remainder modulo c
        S = []
        for m, x in R:
            if x is not None and abs(m) > c: X.append((m // c, x)); S.append((m % c, x))
            else: S.append((m, x))
        R = S
        xl, xh = srng(X); rl, rh = srng(R)
        base = rl // c * c; w = rh - base
        if w >= 1 << (n-2) or not (F[0] <= base <= F[1]) or xl + base // c < F[0] or xh + base // c + w // c > F[1]: return None
        def lin(l, k0):
            s = z3.BitVecVal(k0, n)
            for m, x in l: s = s + (z3.BitVecVal(m, n) * x if x is not None else z3.BitVecVal(m, n))
            return z3.simplify(s)
        A = lin(R, -base)      # 0 <= A <= w
        if w < c: q0 = z3.BitVecVal(0, n); r = A
        else:
            b = max(w.bit_length(), c.bit_length())
            if n > b:
                N = z3.simplify(z3.Extract(b-1, 0, A)); cc = z3.BitVecVal(c, b)
                q0 = z3.ZeroExt(n-b, z3.UDiv(N, cc)); r = z3.ZeroExt(n-b, z3.URem(N, cc))
            else: q0 = z3.UDiv(A, z3.BitVecVal(c, n)); r = z3.URem(A, z3.BitVecVal(c, n))
        q = z3.simplify(lin(X, base // c) + q0)
        for u, (l, h) in ((q, (xl + base // c, xh + base // c + w // c)), (z3.simplify(r), (0, min(w, c - 1)))):
            i = u.get_id(); o = self.rng(u); self.keep.append(u); self.c[i] = (max(o[0], l), min(o[1], h))
        return q, z3.simplify(r)
    def div(self, op, A, b, n):
        """value of A op b for the integer constant b, or None for the generic encoding"""
        c = sg(b, n)
        if c < 2: return None
        lo, hi = self.rng(A)
        if op.endswith('_u') and lo < 0: return None
        qr = self.floordiv(A, c, n)
        if qr is None: return None
        q, r = qr
        if lo < 0:      # truncation towards zero
            neg = z3.And(A < 0, r != 0) if hi >= 0 else r != 0
            if op == 'div_s': t = z3.If(neg, q + 1, q); l, h = self.rng(q); b2 = (l, h + 1)
            else: t = z3.If(neg, r - c, r); b2 = (1 - c, c - 1)
            t = z3.simplify(t)
            if not z3.is_bv_value(t): o = self.rng(t); self.c[t.get_id()] = (max(o[0], b2[0]), min(o[1], b2[1])); self.keep.append(t)
            return t
        return q if op.startswith('div') else r
