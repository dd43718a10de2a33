"""Path-forking symbolic executor for WebAssembly on top of z3.

Values: Python int (concrete, unsigned), z3 BitVecRef, or SB (an i32 that is 0/1,
carried as a z3 Bool).  Floats are carried as their bit patterns; float arithmetic is
either an uninterpreted function per opcode (fpmode 'uf', applied identically on both
sides of an equivalence) or SMT-LIB floating point (fpmode 'fp').
Memory: immutable initial image + byte-granular copy-on-write overlay.  Symbolic
addresses are resolved against every solver-feasible value (ite over all of them).
"""
import time, struct, math, ctypes, sys
import z3, ranges
from wasmir import SIMD_NAMES

M8 = 0xFF; M16 = 0xFFFF; M32 = 0xFFFFFFFF; M64 = 0xFFFFFFFFFFFFFFFF
PAGE = 65536

class Inconclusive(Exception): pass
class BoundExceeded(Exception):
    def __init__(self, st): self.state = st
class HostExit(Exception):
    def __init__(self, code): self.code = code

class SB:
    __slots__ = ('c',)
    def __init__(self, c): self.c = c

BV1 = z3.BitVecVal(1, 32); BV0 = z3.BitVecVal(0, 32)
_bvcache = {}
def const(v, bits):
    k = (v, bits); r = _bvcache.get(k)
    if r is None:
        r = z3.BitVecVal(v, bits)
        if len(_bvcache) < 200000: _bvcache[k] = r
    return r
def bv(v, bits):
    t = type(v)
    if t is int: return const(v, bits)
    if t is SB: return z3.If(v.c, BV1, BV0)
    return v
def norm(t):
    """simplify; return int if constant"""
    if type(t) is int or type(t) is SB: return t
    t = z3.simplify(t)
    if z3.is_bv_value(t): return t.as_long()
    return t
def fold(t):
    if z3.is_bv_value(t): return t.as_long()
    return t
def sb(c):
    """Bool -> i32 value"""
    c = z3.simplify(c)
    if z3.is_true(c): return 1
    if z3.is_false(c): return 0
    return SB(c)
def truth(v, bits=32):
    """value -> python bool or z3 Bool for (v != 0)"""
    t = type(v)
    if t is int: return v != 0
    if t is SB: return v.c
    c = z3.simplify(v != 0)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    return c

def s32(x): return x - 0x100000000 if x & 0x80000000 else x
def s64(x): return x - (1 << 64) if x >> 63 else x
def sgn(x, b): return x - (1 << b) if x >> (b-1) else x

# ------------------------------------------------------------------ float helpers
def f64_of(b): return struct.unpack('<d', struct.pack('<Q', b))[0]
def f32_of(b): return struct.unpack('<f', struct.pack('<I', b))[0]
def b_f64(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def b_f32(x):
    try: return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError: return 0x7F800000 if x > 0 else 0xFF800000
QNAN = {32: 0x7FC00000, 64: 0x7FF8000000000000}
FS = {32: z3.Float32(), 64: z3.Float64()}
def _isnan_i(x, n):
    return (x & 0x7FFFFFFF) > 0x7F800000 if n == 32 else (x & 0x7FFFFFFFFFFFFFFF) > 0x7FF0000000000000
def isnan_t(x, n):
    if type(x) is int: return z3.BoolVal(_isnan_i(x, n))
    if n == 32: return z3.UGT(x & 0x7FFFFFFF, 0x7F800000)
    return z3.UGT(x & 0x7FFFFFFFFFFFFFFF, const(0x7FF0000000000000, 64))
def feq_bits(a, b, n):
    """same float value as far as wasm observes (NaN payloads ignored)"""
    a = bv(a, n); b = bv(b, n)
    return z3.Or(a == b, z3.And(isnan_t(a, n), isnan_t(b, n)))
def flt_t(a, b, n, orequal=False):
    """a < b (or <=) on bit patterns, BV only"""
    a = bv(a, n); b = bv(b, n); mx = (1 << (n-1)) - 1
    zero = z3.And((a & mx) == 0, (b & mx) == 0)
    sa = z3.Extract(n-1, n-1, a) == 1; sbb = z3.Extract(n-1, n-1, b) == 1
    lt = z3.If(sa, z3.If(sbb, z3.UGT(a, b), z3.BoolVal(True)), z3.If(sbb, z3.BoolVal(False), z3.ULT(a, b)))
    core = z3.Or(zero, lt, a == b) if orequal else z3.And(z3.Not(zero), lt)
    return z3.And(z3.Not(isnan_t(a, n)), z3.Not(isnan_t(b, n)), core)
def feq_t(a, b, n):
    a = bv(a, n); b = bv(b, n); mx = (1 << (n-1)) - 1
    return z3.And(z3.Not(isnan_t(a, n)), z3.Not(isnan_t(b, n)), z3.Or(a == b, z3.And((a & mx) == 0, (b & mx) == 0)))
def fp_t(x, n): return z3.fpBVToFP(bv(x, n), FS[n])
_uf = {}
def uf(name, outb, *inb):
    k = (name, outb) + inb
    f = _uf.get(k)
    if f is None:
        f = z3.Function(name, *[z3.BitVecSort(i) for i in inb], z3.BitVecSort(outb)); _uf[k] = f
    return f
_fresh = [0]
def fresh_bv(pfx, bits):
    _fresh[0] += 1
    return z3.BitVec('%s!%d' % (pfx, _fresh[0]), bits)

RNE = z3.RNE(); RTZ = z3.RTZ(); RTP = z3.RTP(); RTN = z3.RTN()

def _cround(x, how):
    if math.isnan(x) or math.isinf(x) or x == 0: return x
    if how == 'ceil': r = math.ceil(x)
    elif how == 'floor': r = math.floor(x)
    elif how == 'trunc': r = math.trunc(x)
    else: r = round(x)
    r = float(r)
    return math.copysign(r, x) if r == 0 else r

def c_fbin(op, a, b, n):
    fa, fb = (f64_of(a), f64_of(b)) if n == 64 else (f32_of(a), f32_of(b))
    pk = b_f64 if n == 64 else b_f32
    if op == 'copysign':
        m = 1 << (n-1); return (a & (m-1)) | (b & m)
    if math.isnan(fa) or math.isnan(fb): return QNAN[n]
    if op == 'add': r = fa + fb
    elif op == 'sub': r = fa - fb
    elif op == 'mul': r = fa * fb
    elif op == 'div':
        if fb == 0:
            if fa == 0: return QNAN[n]
            r = math.copysign(math.inf, fa) * math.copysign(1.0, fb)
        else: r = fa / fb
    elif op == 'min':
        if fa == fb == 0: r = fa if math.copysign(1, fa) < 0 else fb
        else: r = min(fa, fb)
    elif op == 'max':
        if fa == fb == 0: r = fa if math.copysign(1, fa) > 0 else fb
        else: r = max(fa, fb)
    if math.isnan(r): return QNAN[n]
    return pk(r)

def c_fun(op, a, n):
    m = 1 << (n-1)
    if op == 'neg': return a ^ m
    if op == 'abs': return a & (m-1)
    x = f64_of(a) if n == 64 else f32_of(a); pk = b_f64 if n == 64 else b_f32
    if math.isnan(x): return QNAN[n]
    if op == 'sqrt':
        if x < 0: return QNAN[n]
        return pk(math.sqrt(x))
    return pk(_cround(x, op))

def s_fbin(op, a, b, n, mode):
    a = bv(a, n); b = bv(b, n); m = 1 << (n-1)
    if op == 'copysign': return (a & (m-1)) | (b & m)
    if mode == 'uf':     # exact identity only: x - y = x + (-y)
        if op == 'sub': op = 'add'; b = z3.simplify(b ^ const(m, n))
        return uf('f%d.%s' % (n, op), n, n, n)(a, b)
    x = fp_t(a, n); y = fp_t(b, n)
    if op == 'add': r = z3.fpAdd(RNE, x, y)
    elif op == 'sub': r = z3.fpSub(RNE, x, y)
    elif op == 'mul': r = z3.fpMul(RNE, x, y)
    elif op == 'div': r = z3.fpDiv(RNE, x, y)
    elif op in ('min', 'max'):
        lt = flt_t(a, b, n) if op == 'min' else flt_t(b, a, n)
        bothz = z3.And((a & (m-1)) == 0, (b & (m-1)) == 0)
        z = (a | b) if op == 'min' else (a & b)
        return z3.If(z3.Or(isnan_t(a, n), isnan_t(b, n)), const(QNAN[n], n), z3.If(bothz, z, z3.If(lt, a, b)))
    return z3.fpToIEEEBV(r)

def s_fun(op, a, n, mode):
    a = bv(a, n); m = 1 << (n-1)
    if op == 'neg': return a ^ const(m, n)
    if op == 'abs': return a & const(m-1, n)
    if mode == 'uf': return uf('f%d.%s' % (n, op), n, n)(a)
    x = fp_t(a, n)
    if op == 'sqrt': r = z3.fpSqrt(RNE, x)
    else: r = z3.fpRoundToIntegral({'ceil': RTP, 'floor': RTN, 'trunc': RTZ, 'nearest': RNE}[op], x)
    return z3.fpToIEEEBV(r)

def c_conv(op, a):
    """concrete conversions to/from float; returns None on trap"""
    d, s = op.split('.'); 
    if s == 'demote_f64':
        x = f64_of(a); return QNAN[32] if math.isnan(x) else b_f32(x)
    if s == 'promote_f32':
        x = f32_of(a); return QNAN[64] if math.isnan(x) else b_f64(x)
    if s.startswith('convert_'):
        sb_ = 32 if 'i32' in s else 64
        v = sgn(a, sb_) if s.endswith('_s') else a
        if d == 'f64': return b_f64(float(v))
        # correctly rounded int -> f32
        from fractions import Fraction
        from wasmir import _frac_bits
        r = _frac_bits(Fraction(abs(v)), 8, 23)
        return r | (0x80000000 if v < 0 else 0)
    sat = 'sat' in s
    x = f64_of(a) if 'f64' in s else f32_of(a)
    n = 32 if d == 'i32' else 64
    if s.endswith('_s'): lo, hi = -(1 << (n-1)), (1 << (n-1)) - 1
    else: lo, hi = 0, (1 << n) - 1
    if math.isnan(x): return 0 if sat else None
    if math.isinf(x): 
        if not sat: return None
        return (hi if x > 0 else lo) & ((1 << n) - 1)
    t = math.trunc(x)
    if t < lo or t > hi:
        if not sat: return None
        t = hi if t > hi else lo
    return t & ((1 << n) - 1)

def s_conv(op, a, mode):
    """symbolic conversions; returns (value, trapcond or None)"""
    d, s = op.split('.')
    if s == 'demote_f64':
        if mode == 'uf': return uf(op, 32, 64)(a), None
        return z3.fpToIEEEBV(z3.fpToFP(RNE, fp_t(a, 64), FS[32])), None
    if s == 'promote_f32':
        if mode == 'uf': return uf(op, 64, 32)(a), None
        return z3.fpToIEEEBV(z3.fpToFP(RNE, fp_t(a, 32), FS[64])), None
    if s.startswith('convert_'):
        sb_ = 32 if 'i32' in s else 64; n = 32 if d == 'f32' else 64
        a = bv(a, sb_)
        if mode == 'uf':     # one function of the mathematical integer, shared by all four source kinds
            x = z3.simplify(z3.SignExt(65-sb_, a) if s.endswith('_s') else z3.ZeroExt(65-sb_, a))
            return uf('int_to_' + d, n, 65)(x), None
        f = z3.fpSignedToFP if s.endswith('_s') else z3.fpUnsignedToFP
        return z3.fpToIEEEBV(f(RNE, a, FS[n])), None
    sat = 'sat' in s; n = 32 if d == 'i32' else 64; fn = 64 if 'f64' in s else 32
    sg = s.endswith('_s'); pk = b_f64 if fn == 64 else b_f32
    # valid iff lo-1 < x < hi+1
    hi1 = float(1 << (n-1)) if sg else float(1 << n)
    lob = -float(1 << (n-1)) if sg else -1.0
    # x > lo-1 : for lob exactly representable minus one maybe not; use trunc semantics
    a = bv(a, fn)
    lt_hi = flt_t(a, const(pk(hi1), fn), fn)
    if sg and fn == 64 and n == 32: gt_lo = flt_t(const(pk(-2147483649.0), fn), a, fn)
    elif sg: gt_lo = flt_t(const(pk(lob), fn), a, fn, True)
    else: gt_lo = flt_t(const(pk(-1.0), fn), a, fn)
    ok = z3.And(lt_hi, gt_lo)
    base = op.replace('_sat', '')
    if mode == 'uf': v = z3.Extract(n-1, 0, uf('trunc_f%d' % fn, 66, fn)(a))   # exact integer part, in range here
    else: v = (z3.fpToSBV if sg else z3.fpToUBV)(RTZ, fp_t(a, fn), z3.BitVecSort(n))
    if not sat: return v, z3.Not(ok)
    mx = (1 << (n-1)) - 1 if sg else (1 << n) - 1; mn = (1 << (n-1)) if sg else 0
    neg = z3.Extract(fn-1, fn-1, a) == 1
    return z3.If(ok, v, z3.If(isnan_t(a, fn), const(0, n), z3.If(neg, const(mn, n), const(mx, n)))), None

# ------------------------------------------------------------------ memory
class Mem:
    __slots__ = ('base', 'lo', 'ov', 'pages')
    def __init__(self, base=b'', lo=0, pages=0, ov=None):
        self.base = base; self.lo = lo; self.pages = pages; self.ov = {} if ov is None else ov
    def copy(self):
        return Mem(self.base, self.lo, self.pages, dict(self.ov))
    def byte(self, a):
        c = self.ov.get(a)
        if c is not None: return c
        i = a - self.lo
        if 0 <= i < len(self.base): return self.base[i]
        return 0
    def load(self, a, n):
        ov = self.ov; g = ov.get
        c0 = g(a)
        if type(c0) is tuple:
            t, k = c0
            if k == 0:
                ok = True
                for i in range(1, n):
                    c = g(a+i)
                    if type(c) is not tuple or c[0] is not t or c[1] != i: ok = False; break
                if ok:
                    sz = t.size()
                    if sz == 8*n: return t
                    return z3.Extract(8*n-1, 0, t)
        bs = [self.byte(a+i) for i in range(n)]
        if all(type(b) is int for b in bs): return int.from_bytes(bytes(bs), 'little')
        # group runs
        parts = []; i = n-1
        while i >= 0:
            b = bs[i]
            if type(b) is int:
                j = i; v = 0
                while j >= 0 and type(bs[j]) is int: v = (v << 8) | bs[j]; j -= 1
                parts.append(const(v, 8*(i-j))); i = j
            else:
                t, k = b; j = i-1; kk = k
                while j >= 0 and type(bs[j]) is tuple and bs[j][0] is t and bs[j][1] == kk-1: kk -= 1; j -= 1
                parts.append(z3.Extract(8*k+7, 8*kk, t) if t.size() != 8*(k-kk+1) else t); i = j
        return parts[0] if len(parts) == 1 else fold(z3.simplify(z3.Concat(*parts)))
    def store(self, a, v, n):
        ov = self.ov
        if type(v) is int:
            for i in range(n): ov[a+i] = (v >> (8*i)) & M8
        else:
            for i in range(n): ov[a+i] = (v, i)
    def cstr(self, a):
        out = bytearray()
        while True:
            b = self.byte(a)
            if type(b) is not int: raise Inconclusive('symbolic cstr')
            if b == 0: return bytes(out)
            out.append(b); a += 1
    def get(self, a, n): return [self.load(a+i, 1) for i in range(n)]
    def put(self, a, data):
        for i, b in enumerate(data): self.store(a+i, b, 1)

class Frame:
    __slots__ = ('code', 'pc', 'locals', 'stack', 'labels', 'func')
    def __init__(self, func, locs):
        self.func = func; self.code = func.cc; self.pc = 0; self.locals = locs; self.stack = []; self.labels = []
    def copy(self):
        f = Frame.__new__(Frame)
        f.func = self.func; f.code = self.code; f.pc = self.pc; f.locals = list(self.locals)
        f.stack = list(self.stack); f.labels = list(self.labels)
        return f

class State:
    __slots__ = ('frames', 'fr', 'mem', 'globals', 'pc', 'model', 'steps', 'user', 'trace', 'assumed')
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]; s.fr = s.frames[-1] if s.frames else None
        s.mem = self.mem.copy(); s.globals = list(self.globals); s.pc = list(self.pc); s.model = self.model
        s.steps = self.steps; s.user = dict(self.user); s.trace = self.trace; s.assumed = self.assumed
        return s

class Stats:
    def __init__(self): self.queries = 0; self.qtime = 0.0; self.paths = 0; self.steps = 0; self.forks = 0; self.proved = 0; self.unknown = 0
    def d(self): return dict(queries=self.queries, solver_s=round(self.qtime, 3), paths=self.paths, steps=self.steps, forks=self.forks, proved=self.proved, unknown=self.unknown)

# ------------------------------------------------------------------ engine
class Engine:
    def __init__(self, mod, fpmode='uf', hosts=None, hooks=None, max_steps=3000000, max_paths=20000, timeout_ms=60000, solver=None):
        self.m = mod; self.fp = fpmode; self.hosts = hosts or {}; self.hooks = hooks or {}
        self.max_steps = max_steps; self.max_paths = max_paths; self.timeout = timeout_ms
        self.solver = solver or z3.Solver(); self.solver.set('timeout', timeout_ms)
        self.stack_pc = []; self.stats = Stats(); self.regions = None; self.ro = None
        self.addr_limit = 600; self.funcs_run = set(); self.covered = set()
        self.depth_limit = 600; self.addr_fork = False; self.deadline = None
        self.step_bound = None; self.stubs = {}; self.ranges = ranges.Ranges()

    # ---- solver plumbing
    def _sync(self, pc):
        sp = self.stack_pc; k = 0; n = min(len(sp), len(pc))
        while k < n and sp[k] is pc[k]: k += 1
        d = len(sp) - k
        if d: self.solver.pop(d); del sp[k:]
        for c in pc[k:]:
            self.solver.push(); self.solver.add(c); sp.append(c)
    def check(self, pc, *extra):
        if self.deadline and time.time() > self.deadline: raise Inconclusive('time budget')
        self._sync(pc)
        t = time.time(); r = self.solver.check(*extra); self.stats.qtime += time.time() - t; self.stats.queries += 1
        if r == z3.unknown:
            # second opinion with a fresh solver
            s = z3.Solver(); s.set('timeout', self.timeout); s.add(*pc); s.add(*extra)
            t = time.time(); r = s.check(); self.stats.qtime += time.time() - t; self.stats.queries += 1
            if r == z3.unknown: raise Inconclusive('solver unknown: %s' % s.reason_unknown())
            return r, (s.model() if r == z3.sat else None)
        return r, (self.solver.model() if r == z3.sat else None)
    def branch(self, st, c):
        """returns (can_true, can_false, model_true, model_false)"""
        c = z3.simplify(c)
        if z3.is_true(c): return True, False, st.model, None
        if z3.is_false(c): return False, True, None, st.model
        mt = mf = None
        if st.model is not None:
            v = st.model.eval(c, model_completion=True)
            if z3.is_true(v): mt = st.model
            elif z3.is_false(v): mf = st.model
        if mt is None:
            r, mt2 = self.check(st.pc, c); mt = mt2
            if r == z3.unsat:
                return False, True, None, (mf or st.model)
        if mf is None:
            r, mf2 = self.check(st.pc, z3.Not(c)); mf = mf2
            if r == z3.unsat: return True, False, mt, None
        return True, True, mt, mf
    def assume(self, st, c):
        """add c to the path condition; False if infeasible"""
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)):
            st.pc.append(c); return True
        r, m = self.check(st.pc, c)
        if r == z3.unsat: return False
        st.pc.append(c); st.model = m; return True
    def split(self, st, c):
        """fork on z3 Bool c: returns list of (truth, state)"""
        if isinstance(c, bool): return [(c, st)]
        ct, cf, mt, mf = self.branch(st, c)
        if ct and not cf: return [(True, st)]
        if cf and not ct: return [(False, st)]
        self.stats.forks += 1
        o = st.copy(); o.pc.append(z3.simplify(z3.Not(c))); o.model = mf
        st.pc.append(z3.simplify(c)); st.model = mt
        return [(True, st), (False, o)]
    def prove(self, st, prop, timeout=None, alt=True):
        """None if pc => prop; else a model"""
        if isinstance(prop, bool): prop = z3.BoolVal(prop)
        prop = z3.simplify(prop)
        if z3.is_true(prop): self.stats.proved += 1; return None
        if st.model is not None and z3.is_false(st.model.eval(prop, model_completion=True)):
            r, m = self.check(st.pc, z3.Not(prop))
            if r == z3.sat: return m
        neg = z3.Not(prop)
        for mk in (lambda: z3.Solver(), lambda: z3.SolverFor('QF_UFBV') if self.fp == 'uf' else z3.SolverFor('QF_FPBV')):
            s = mk(); s.set('timeout', timeout or self.timeout); s.add(*st.pc); s.add(neg)
            t = time.time(); r = s.check(); self.stats.qtime += time.time() - t; self.stats.queries += 1
            if r == z3.unsat: self.stats.proved += 1; return None
            if r == z3.sat: return s.model()
        self.stats.unknown += 1
        raise Inconclusive('prove: unknown')
    # ---- state
    def state(self):
        s = State.__new__(State)
        s.frames = []; s.fr = None; s.pc = []; s.model = None; s.steps = 0; s.user = {}; s.trace = (); s.assumed = False
        lo = min([a for a, _ in self.m.datas], default=0); hi = max([a+len(b) for a, b in self.m.datas], default=0)
        buf = bytearray(max(0, hi-lo))
        for a, b in self.m.datas: buf[a-lo:a-lo+len(b)] = b
        s.mem = Mem(bytes(buf), lo, self.m.pages); s.globals = []
        for g in self.m.globals:
            i = g[3]
            if i is None: s.globals.append(0)
            elif i[0] == 'global.get': s.globals.append(s.globals[i[1]] if isinstance(i[1], int) else s.globals[self.m.gidx[i[1]]])
            else: s.globals.append(i[1])
        return s
    def gget(self, st, name): return st.globals[self.m.gidx[name]]
    def gset(self, st, name, v): st.globals[self.m.gidx[name]] = v

    def call(self, st, fn, args):
        """run function to completion on all paths; returns list of (kind, results, state)"""
        f = self.m.funcs[fn] if isinstance(fn, int) else self.m.func(fn)
        depth = len(st.frames)
        assert depth == 0
        st.frames = []; self.enter(st, f, list(args))
        if st.fr is None: raise Inconclusive('import call')
        return self.run([st])

    def enter(self, st, f, args):
        self.funcs_run.add(f.name)
        if f.cc is None: f.cc = compile_func(f, self.m)
        locs = args
        for t in f.locals: locs.append(0)
        fr = Frame(f, locs); st.frames.append(fr); st.fr = fr
        if len(st.frames) > self.depth_limit: raise Inconclusive('call depth')

    def run(self, work):
        prev = self.pending; self.pending = []
        try:
            done = []
            while work:
                st = work.pop()
                try: r = self.run1(st, work)
                except HostExit as e: r = ('exit', [e.code], st)
                if self.pending:
                    for p in self.pending:
                        if p[2].model is None:      # side paths: keep the feasible ones
                            rr, mm = self.check(p[2].pc)
                            if rr == z3.unsat: continue
                            p[2].model = mm
                        done.append(p); self.stats.paths += 1
                    self.pending.clear()
                if r is not None and r[0] != 'infeasible':
                    done.append(r); self.stats.paths += 1
                if len(done) > self.max_paths: raise Inconclusive('path limit %d' % self.max_paths)
            return done
        finally:
            self.pending = prev

    def run1(self, st, work):
        n = 0
        try:
            while True:
                fr = st.fr
                ins = fr.code[fr.pc]; fr.pc += 1; n += 1
                r = ins[0](self, st, fr, ins)
                if r is not None:
                    if type(r) is list:
                        work.extend(r); return None
                    if r is st: 
                        continue
                    return r
                if n > 4096:
                    st.steps += n; self.stats.steps += n; n = 0
                    if self.step_bound and st.steps > self.step_bound: raise BoundExceeded(st)
                    if st.steps > self.max_steps: raise Inconclusive('step limit')
                    if self.deadline and time.time() > self.deadline: raise Inconclusive('time budget')
        finally:
            st.steps += n; self.stats.steps += n

    # ---- symbolic addressing
    def candidates(self, st, addr):
        """all feasible concrete values of addr (list), or None if over the limit"""
        addr = z3.simplify(addr)
        if z3.is_bv_value(addr): return [addr.as_long()]
        out = []; self._sync(st.pc)
        self.solver.push()
        try:
            while True:
                t = time.time(); r = self.solver.check(); self.stats.qtime += time.time()-t; self.stats.queries += 1
                if r == z3.unknown: raise Inconclusive('address enumeration unknown')
                if r == z3.unsat: break
                v = self.solver.model().eval(addr, model_completion=True).as_long()
                out.append(v); self.solver.add(addr != v)
                if len(out) > self.addr_limit: raise Inconclusive('address has more than %d feasible values' % self.addr_limit)
        finally:
            self.solver.pop()
        out.sort()
        return out

    def checkacc(self, st, a, n, w):
        if a + n > st.mem.pages * PAGE: return 'trap: out of bounds memory access'
        if self.regions is not None:
            for lo, hi, pw in self.regions:
                if lo <= a and a + n <= hi and (pw or not w): return None
            for lo, hi, pw in st.user.get('regions', ()):
                if lo <= a and a + n <= hi and (pw or not w): return None
            return 'access outside every object: %s of %d bytes at %d' % ('write' if w else 'read', n, a)
        return None

def trapped(st, msg):
    return ('trap', msg, st)

def load_val(eng, st, fr, a, off, n):
    """returns (value, finished) """
    if type(a) is int:
        a += off
        e = eng.checkacc(st, a, n, False) if (eng.regions is not None or a + n > st.mem.pages*PAGE) else None
        if e: return None, trapped(st, e)
        return st.mem.load(a, n), None
    a = bv(a, 32)
    c = eng.candidates(st, a)
    vals = []
    bad = []
    for x in c:
        e = eng.checkacc(st, x+off, n, False)
        if e: bad.append((x, e))
        else: vals.append((x, st.mem.load(x+off, n)))
    if bad:
        # keep the in-bounds paths only if infeasible to reach bad: report
        o = st.copy(); cond = z3.Or(*[a == const(x, 32) for x, _ in bad])
        o.pc.append(cond); o.model = None
        fin = trapped(o, bad[0][1])
        if not vals: return None, fin
        st.pc.append(z3.Not(cond)); st.model = None
        eng_pending(eng, fin)
    r = bv(vals[-1][1], 8*n)
    for x, v in vals[:-1][::-1]: r = z3.If(a == const(x, 32), bv(v, 8*n), r)
    return fold(z3.simplify(r)), None

def eng_pending(eng, fin):
    eng.pending.append(fin)

def store_val(eng, st, fr, a, off, v, n):
    if type(a) is int:
        a += off
        e = eng.checkacc(st, a, n, True) if (eng.regions is not None or a + n > st.mem.pages*PAGE) else None
        if e: return trapped(st, e)
        if type(v) is not int:
            v = bv(v, 32)
            if z3.is_bv_value(v): v = v.as_long()
            elif v.size() > 8*n: v = z3.Extract(8*n-1, 0, v)
        st.mem.store(a, v, n); return None
    a = bv(a, 32)
    c = eng.candidates(st, a)
    if len(c) == 1: return store_val(eng, st, fr, c[0], off, v, n)
    for x in c:
        e = eng.checkacc(st, x+off, n, True)
        if e:
            o = st.copy(); o.pc.append(a == const(x, 32)); o.model = None
            return trapped(o, e)
    vv = bv(v, max(32, 8*n)) if type(v) is int else bv(v, 32)
    upd = {}
    for x in c:
        for i in range(n):
            vb = z3.Extract(8*i+7, 8*i, vv)
            y = x+off+i
            old = upd.get(y)
            if old is None: old = bv(st.mem.load(y, 1), 8)
            upd[y] = z3.If(a == const(x, 32), vb, old)
    for y, t in upd.items():
        t = fold(z3.simplify(t))
        st.mem.store(y, t, 1)
    return None

Engine.pending = None

# ------------------------------------------------------------------ instruction handlers
def popcnt(x): return bin(x).count('1')
def _clz(x, n): return n - x.bit_length()
def _ctz(x, n): return n if x == 0 else (x & -x).bit_length() - 1
def s_clz(x, n):
    r = const(n, n)
    for i in range(n): r = z3.If(z3.Extract(i, i, x) == 1, const(n-1-i, n), r)
    return r
def s_ctz(x, n):
    r = const(n, n)
    for i in reversed(range(n)): r = z3.If(z3.Extract(i, i, x) == 1, const(i, n), r)
    return r
def s_popcnt(x, n):
    r = const(0, n)
    for i in range(n): r = r + z3.ZeroExt(n-1, z3.Extract(i, i, x))
    return r

def sext_idiom(a, b, n):
    """((x & (2^(k+1)-1)) ^ 2^k) - 2^k is the sign extension of the low k+1 bits of x"""
    if b & (b - 1) or type(a) is SB or not z3.is_app(a) or a.decl().kind() != z3.Z3_OP_CONCAT or a.num_args() < 3: return None
    k = b.bit_length() - 1; h, m, *r = a.children(); l = r[0] if len(r) == 1 else z3.Concat(*r)
    if not (z3.is_bv_value(h) and h.as_long() == 0 and h.size() == n - k - 1 and m.size() == 1 and l.size() == k and m.decl().kind() == z3.Z3_OP_BNOT): return None
    return fold(z3.simplify(z3.SignExt(n - k - 1, z3.Concat(m.arg(0), l))))

def mk_bin(n, op):
    M = (1 << n) - 1; sh = n - 1
    c = {
     'add': lambda a, b: (a+b) & M, 'sub': lambda a, b: (a-b) & M, 'mul': lambda a, b: (a*b) & M,
     'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
     'shl': lambda a, b: (a << (b & sh)) & M, 'shr_u': lambda a, b: a >> (b & sh),
     'shr_s': lambda a, b: (sgn(a, n) >> (b & sh)) & M,
     'rotl': lambda a, b: ((a << (b & sh)) | (a >> ((n - (b & sh)) % n) if (b & sh) else 0)) & M if (b & sh) else a,
     'rotr': lambda a, b: ((a >> (b & sh)) | (a << (n - (b & sh)))) & M if (b & sh) else a,
    }[op]
    s = {
     'add': lambda a, b: a+b, 'sub': lambda a, b: a-b, 'mul': lambda a, b: a*b,
     'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
     'shl': lambda a, b: a << (b & sh), 'shr_u': lambda a, b: z3.LShR(a, b & sh), 'shr_s': lambda a, b: a >> (b & sh),
     'rotl': lambda a, b: z3.RotateLeft(a, b & sh), 'rotr': lambda a, b: z3.RotateRight(a, b & sh),
    }[op]
    def h(eng, st, fr, ins):
        k = fr.stack; b = k.pop(); a = k[-1]
        if type(a) is int and type(b) is int: k[-1] = c(a, b); return
        if op in ('and', 'or') and type(a) is SB and type(b) is SB:
            k[-1] = sb(z3.And(a.c, b.c) if op == 'and' else z3.Or(a.c, b.c)); return
        if type(b) is int:
            if b == 0:
                if op in ('add', 'sub', 'or', 'xor', 'shl', 'shr_u', 'shr_s'): return
                if op in ('and', 'mul'): k[-1] = 0; return
            elif op == 'and':
                if b == M: return
                if b == 1 and type(a) is SB: return
            elif b == 1:
                if op == 'mul': return
                if op == 'xor' and type(a) is SB: k[-1] = SB(z3.Not(a.c)); return
        elif type(a) is int:
            if a == 0:
                if op in ('add', 'or', 'xor'): k[-1] = b; return
                if op in ('and', 'mul'): k[-1] = 0; return
        if type(b) is int and op in ('shl', 'shr_u', 'shr_s'):
            q = b & sh; A = bv(a, n)
            if q == 0: return
            if op == 'shl': t = z3.Concat(z3.Extract(n-1-q, 0, A), const(0, q))
            elif op == 'shr_u': t = z3.ZeroExt(q, z3.Extract(n-1, q, A))
            else: t = z3.SignExt(q, z3.Extract(n-1, q, A))
            k[-1] = fold(z3.simplify(t)); return
        if op in ('sub', 'add') and type(b) is int and type(a) is not int:
            t = sext_idiom(a, b if op == 'sub' else (-b) & M, n)
            if t is not None: k[-1] = t; return
        k[-1] = s(bv(a, n), bv(b, n))
        if type(a) is not int and op in ('sub', 'add', 'and', 'shl', 'shr_u', 'or', 'xor'):
            k[-1] = fold(z3.simplify(k[-1]))
    return h

def mk_div(n, op):
    M = (1 << n) - 1; mn = 1 << (n-1)
    def conc(a, b):
        if b == 0: return None
        if op == 'div_u': return a // b
        if op == 'rem_u': return a % b
        x, y = sgn(a, n), sgn(b, n)
        if op == 'div_s':
            if x == -mn and y == -1: return None
            q = abs(x) // abs(y); return (-q if (x < 0) != (y < 0) else q) & M
        r = abs(x) % abs(y); return (-r if x < 0 else r) & M
    def h(eng, st, fr, ins):
        k = fr.stack; b = k.pop(); a = k.pop()
        if type(a) is int and type(b) is int:
            r = conc(a, b)
            if r is None: return trapped(st, 'trap: integer divide')
            k.append(r); return
        A = bv(a, n); B = bv(b, n)
        if type(b) is int:
            t = eng.ranges.div(op, A, b, n)
            if t is not None: k.append(fold(t)); return
        bad = []
        if type(b) is int:
            if b == 0: return trapped(st, 'trap: integer divide by zero')
            if op == 'div_s' and b == M: bad.append(A == const(mn, n))
        else:
            bad.append(B == 0)
            if op == 'div_s': bad.append(z3.And(A == const(mn, n), B == const(M, n)))
        f = {'div_u': lambda: z3.UDiv(A, B), 'rem_u': lambda: z3.URem(A, B), 'div_s': lambda: A / B, 'rem_s': lambda: z3.SRem(A, B)}[op]
        if bad:
            res = eng.split(st, z3.Or(*bad)); out = []; live = None
            for t, s in res:
                if t: eng.pending.append(trapped(s, 'trap: integer divide'))
                else: live = s
            if live is None: return ('infeasible', None, st)
            live.fr.stack.append(f())
            return None if live is st else [live]
        k.append(f())
    return h

def mk_cmp(n, op):
    c = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
      'lt_u': lambda a, b: a < b, 'gt_u': lambda a, b: a > b, 'le_u': lambda a, b: a <= b, 'ge_u': lambda a, b: a >= b,
      'lt_s': lambda a, b: sgn(a, n) < sgn(b, n), 'gt_s': lambda a, b: sgn(a, n) > sgn(b, n),
      'le_s': lambda a, b: sgn(a, n) <= sgn(b, n), 'ge_s': lambda a, b: sgn(a, n) >= sgn(b, n)}[op]
    s = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt_u': z3.ULT, 'gt_u': z3.UGT, 'le_u': z3.ULE, 'ge_u': z3.UGE,
      'lt_s': lambda a, b: a < b, 'gt_s': lambda a, b: a > b, 'le_s': lambda a, b: a <= b, 'ge_s': lambda a, b: a >= b}[op]
    def h(eng, st, fr, ins):
        k = fr.stack; b = k.pop(); a = k[-1]
        if type(a) is int and type(b) is int: k[-1] = 1 if c(a, b) else 0; return
        if type(a) is SB and type(b) is int:
            if op == 'ne' and b == 0 or op == 'eq' and b == 1: return
            if op == 'eq' and b == 0 or op == 'ne' and b == 1: k[-1] = SB(z3.Not(a.c)); return
        if type(b) is SB and type(a) is int:
            if op == 'ne' and a == 0: k[-1] = b; return
            if op == 'eq' and a == 0: k[-1] = SB(z3.Not(b.c)); return
        k[-1] = sb(s(bv(a, n), bv(b, n)))
    return h

def mk_fcmp(n, op):
    def conc(a, b):
        if _isnan_i(a, n) or _isnan_i(b, n): return op == 'ne'
        x, y = (f64_of(a), f64_of(b)) if n == 64 else (f32_of(a), f32_of(b))
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[op]
    def h(eng, st, fr, ins):
        k = fr.stack; b = k.pop(); a = k[-1]
        if type(a) is int and type(b) is int: k[-1] = 1 if conc(a, b) else 0; return
        if eng.fp == 'fp':
            x = fp_t(a, n); y = fp_t(b, n)
            r = {'eq': z3.fpEQ, 'ne': lambda p, q: z3.Not(z3.fpEQ(p, q)), 'lt': z3.fpLT, 'gt': z3.fpGT, 'le': z3.fpLEQ, 'ge': z3.fpGEQ}[op](x, y)
        elif op == 'eq': r = feq_t(a, b, n)
        elif op == 'ne': r = z3.Not(feq_t(a, b, n))
        elif op == 'lt': r = flt_t(a, b, n)
        elif op == 'gt': r = flt_t(b, a, n)
        elif op == 'le': r = flt_t(a, b, n, True)
        else: r = flt_t(b, a, n, True)
        k[-1] = sb(r)
    return h

H = {}
def op(name):
    def d(f): H[name] = f; return f
    return d

for _n in (32, 64):
    for _o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'shr_s', 'shr_u', 'rotl', 'rotr'): H['i%d.%s' % (_n, _o)] = mk_bin(_n, _o)
    for _o in ('div_s', 'div_u', 'rem_s', 'rem_u'): H['i%d.%s' % (_n, _o)] = mk_div(_n, _o)
    for _o in ('eq', 'ne', 'lt_s', 'lt_u', 'gt_s', 'gt_u', 'le_s', 'le_u', 'ge_s', 'ge_u'): H['i%d.%s' % (_n, _o)] = mk_cmp(_n, _o)
    for _o in ('eq', 'ne', 'lt', 'gt', 'le', 'ge'): H['f%d.%s' % (_n, _o)] = mk_fcmp(_n, _o)
    def _mk(n):
        def eqz(eng, st, fr, ins):
            k = fr.stack; a = k[-1]; t = truth(a)
            k[-1] = (0 if t else 1) if isinstance(t, bool) else SB(z3.Not(t))
        H['i%d.eqz' % n] = eqz
        def un(nm, c, s):
            def h(eng, st, fr, ins):
                k = fr.stack; a = k[-1]
                k[-1] = c(a, n) if type(a) is int else s(bv(a, n), n)
            H['i%d.%s' % (n, nm)] = h
        un('clz', _clz, s_clz); un('ctz', _ctz, s_ctz); un('popcnt', lambda x, n: popcnt(x), s_popcnt)
        def ext(w):
            def h(eng, st, fr, ins):
                k = fr.stack; a = k[-1]
                if type(a) is int: k[-1] = sgn(a & ((1 << w)-1), w) & ((1 << n)-1)
                elif type(a) is SB: pass
                else: k[-1] = fold(z3.simplify(z3.SignExt(n-w, z3.Extract(w-1, 0, a))))
            H['i%d.extend%d_s' % (n, w)] = h
        ext(8); ext(16)
        if n == 64: ext(32)
        for o in ('add', 'sub', 'mul', 'div', 'min', 'max', 'copysign'):
            def fb(eng, st, fr, ins, o=o):
                k = fr.stack; b = k.pop(); a = k[-1]
                k[-1] = c_fbin(o, a, b, n) if type(a) is int and type(b) is int else s_fbin(o, a, b, n, eng.fp)
            H['f%d.%s' % (n, o)] = fb
        for o in ('abs', 'neg', 'ceil', 'floor', 'trunc', 'nearest', 'sqrt'):
            def fu(eng, st, fr, ins, o=o):
                k = fr.stack; a = k[-1]
                k[-1] = c_fun(o, a, n) if type(a) is int else fold(z3.simplify(s_fun(o, a, n, eng.fp)))
            H['f%d.%s' % (n, o)] = fu
    _mk(_n)

def mk_conv(name):
    def h(eng, st, fr, ins):
        k = fr.stack; a = k.pop()
        if type(a) is int:
            r = c_conv(name, a)
            if r is None: return trapped(st, 'trap: float to int')
            k.append(r); return
        v, bad = s_conv(name, bv(a, 32) if type(a) is SB else a, eng.fp)
        if bad is not None:
            live = None
            for t, s in eng.split(st, bad):
                if t: eng.pending.append(trapped(s, 'trap: float to int'))
                else: live = s
            if live is None: return ('infeasible', None, st)
            live.fr.stack.append(v)
            return None if live is st else [live]
        k.append(v)
    return h
for _d in ('i32', 'i64'):
    for _f in ('f32', 'f64'):
        for _s in ('s', 'u'):
            H['%s.trunc_%s_%s' % (_d, _f, _s)] = mk_conv('%s.trunc_%s_%s' % (_d, _f, _s))
            H['%s.trunc_sat_%s_%s' % (_d, _f, _s)] = mk_conv('%s.trunc_sat_%s_%s' % (_d, _f, _s))
            H['%s.convert_%s_%s' % (_f, _d, _s)] = mk_conv('%s.convert_%s_%s' % (_f, _d, _s))
H['f32.demote_f64'] = mk_conv('f32.demote_f64'); H['f64.promote_f32'] = mk_conv('f64.promote_f32')

@op('i32.wrap_i64')
def _(eng, st, fr, ins):
    k = fr.stack; a = k[-1]
    k[-1] = a & M32 if type(a) is int else fold(z3.simplify(z3.Extract(31, 0, a)))
@op('i64.extend_i32_s')
def _(eng, st, fr, ins):
    k = fr.stack; a = k[-1]
    k[-1] = s32(a) & M64 if type(a) is int else z3.SignExt(32, bv(a, 32))
@op('i64.extend_i32_u')
def _(eng, st, fr, ins):
    k = fr.stack; a = k[-1]
    k[-1] = a if type(a) is int else z3.ZeroExt(32, bv(a, 32))
def _nop(eng, st, fr, ins): pass
for _o in ('i32.reinterpret_f32', 'i64.reinterpret_f64', 'f32.reinterpret_i32', 'f64.reinterpret_i64', 'nop'): H[_o] = _nop
@op('unreachable')
def _(eng, st, fr, ins): return trapped(st, 'trap: unreachable')
@op('drop')
def _(eng, st, fr, ins): fr.stack.pop()
@op('local.get')
def _(eng, st, fr, ins): fr.stack.append(fr.locals[ins[1]])
@op('local.set')
def _(eng, st, fr, ins): fr.locals[ins[1]] = fr.stack.pop()
@op('local.tee')
def _(eng, st, fr, ins): fr.locals[ins[1]] = fr.stack[-1]
@op('global.get')
def _(eng, st, fr, ins): fr.stack.append(st.globals[ins[1]])
@op('global.set')
def _(eng, st, fr, ins): st.globals[ins[1]] = fr.stack.pop()
for _o in ('i32.const', 'i64.const', 'f32.const', 'f64.const', 'v128.const'):
    H[_o] = lambda eng, st, fr, ins: fr.stack.append(ins[1])
@op('select')
def _(eng, st, fr, ins):
    k = fr.stack; c = truth(k.pop()); b = k.pop(); a = k[-1]
    if isinstance(c, bool): k[-1] = a if c else b; return
    if type(a) is int and type(b) is int and a == b: return
    if (type(a) is SB or a in (0, 1) if not isinstance(a, z3.ExprRef) else False) and (type(b) is SB or b in (0, 1) if not isinstance(b, z3.ExprRef) else False) and (type(a) is SB or type(b) is SB):
        ca = a.c if type(a) is SB else z3.BoolVal(a == 1); cb = b.c if type(b) is SB else z3.BoolVal(b == 1)
        k[-1] = sb(z3.If(c, ca, cb)); return
    n = ins[1]
    if n == 32 and type(a) is int and type(b) is int and a in (0, 1) and b in (0, 1): k[-1] = SB(c if a else z3.Not(c)); return
    k[-1] = z3.If(c, bv(a, n), bv(b, n))

def mk_load(n, ext, bits):
    def h(eng, st, fr, ins):
        k = fr.stack; a = k.pop()
        if type(a) is SB: a = bv(a, 32)
        v, fin = load_val(eng, st, fr, a, ins[1], n)
        if fin: return fin
        if type(v) is int:
            if ext == 's': v = sgn(v, 8*n) & ((1 << bits)-1)
        else:
            w = v.size()
            if w < bits: v = fold(z3.simplify(z3.SignExt(bits-w, v) if ext == 's' else z3.ZeroExt(bits-w, v)))
        k.append(v)
    return h
for _nm, _a in {'i32.load': (4, 'u', 32), 'i64.load': (8, 'u', 64), 'f32.load': (4, 'u', 32), 'f64.load': (8, 'u', 64),
  'i32.load8_s': (1, 's', 32), 'i32.load8_u': (1, 'u', 32), 'i32.load16_s': (2, 's', 32), 'i32.load16_u': (2, 'u', 32),
  'i64.load8_s': (1, 's', 64), 'i64.load8_u': (1, 'u', 64), 'i64.load16_s': (2, 's', 64), 'i64.load16_u': (2, 'u', 64),
  'i64.load32_s': (4, 's', 64), 'i64.load32_u': (4, 'u', 64), 'v128.load': (16, 'u', 128)}.items(): H[_nm] = mk_load(*_a)
def mk_store(n, bits):
    def h(eng, st, fr, ins):
        k = fr.stack; v = k.pop(); a = k.pop()
        if type(a) is SB: a = bv(a, 32)
        if type(v) is SB: v = bv(v, 32)
        if type(v) is not int and v.size() != bits: raise Inconclusive('internal width mismatch in store')
        return store_val(eng, st, fr, a, ins[1], v, n)
    return h
for _nm, _a in {'i32.store': (4, 32), 'i64.store': (8, 64), 'f32.store': (4, 32), 'f64.store': (8, 64), 'i32.store8': (1, 32), 'i32.store16': (2, 32),
  'i64.store8': (1, 64), 'i64.store16': (2, 64), 'i64.store32': (4, 64), 'v128.store': (16, 128)}.items(): H[_nm] = mk_store(*_a)
@op('memory.size')
def _(eng, st, fr, ins): fr.stack.append(st.mem.pages)
@op('memory.grow')
def _(eng, st, fr, ins):
    k = fr.stack; n = norm(bv(k.pop(), 32))
    hk = eng.hooks.get('memory.grow')
    if hk: return hk(eng, st, n)
    if type(n) is not int: raise Inconclusive('symbolic memory.grow')
    old = st.mem.pages
    if old + n > 4096: k.append(M32)
    else: st.mem.pages = old + n; k.append(old)

def concretize_fork(eng, st, v, limit=64):
    """list of (value, state) for all feasible values of term v"""
    if type(v) is int: return [(v, st)]
    v = bv(v, 32); c = eng.candidates(st, v)
    if len(c) > limit: raise Inconclusive('too many values (%d) to concretise' % len(c))
    out = []
    for i, x in enumerate(c):
        s = st if i == len(c)-1 else st.copy()
        if len(c) > 1: s.pc.append(v == const(x, v.size())); s.model = None
        out.append((x, s))
    return out
@op('memory.copy')
def _(eng, st, fr, ins):
    k = fr.stack; n = k.pop(); s = k.pop(); d = k.pop()
    alls = []
    for nv, st1 in concretize_fork(eng, st, n, 200):
        for sv, st2 in concretize_fork(eng, st1, s):
            for dv, st3 in concretize_fork(eng, st2, d):
                e = None
                if nv or eng.regions is None:
                    e = eng.checkacc(st3, sv, nv, False) if nv else None
                    e = e or (eng.checkacc(st3, dv, nv, True) if nv else None)
                if e: eng.pending.append(trapped(st3, e)); continue
                cells = [st3.mem.byte(sv+i) for i in range(nv)]
                for i in range(nv): st3.mem.ov[dv+i] = cells[i]
                alls.append(st3)
    if len(alls) == 1 and alls[0] is st: return None
    return alls
@op('memory.fill')
def _(eng, st, fr, ins):
    k = fr.stack; n = k.pop(); v = k.pop(); d = k.pop()
    if type(v) is not int: v = norm(z3.Extract(7, 0, bv(v, 32)))
    else: v &= M8
    alls = []
    for nv, st1 in concretize_fork(eng, st, n, 200):
        for dv, st3 in concretize_fork(eng, st1, d):
            e = eng.checkacc(st3, dv, nv, True) if nv else None
            if e: eng.pending.append(trapped(st3, e)); continue
            for i in range(nv): st3.mem.store(dv+i, v, 1)
            alls.append(st3)
    if len(alls) == 1 and alls[0] is st: return None
    return alls

# ---- control
def do_br(fr, d):
    L = fr.labels; i = len(L) - 1 - d
    if i < 0: return False
    t, ar, h, loop = L[i]
    k = fr.stack
    if ar:
        keep = k[-ar:]; del k[h:]; k.extend(keep)
    else: del k[h:]
    if loop: del L[i+1:]
    else: del L[i:]
    fr.pc = t
    return True
def do_return(eng, st, fr):
    nr = len(fr.func.results)
    res = fr.stack[-nr:] if nr else []
    st.frames.pop()
    if not st.frames:
        st.fr = None
        return ('ret', res, st)
    st.fr = st.frames[-1]; st.fr.stack.extend(res)
    return st
@op('block')
def _(eng, st, fr, ins): fr.labels.append((ins[2], len(ins[1]), len(fr.stack), False))
@op('loop')
def _(eng, st, fr, ins): fr.labels.append((fr.pc, 0, len(fr.stack), True))
@op('if')
def _(eng, st, fr, ins):
    c = truth(fr.stack.pop())
    def go(s, t):
        f = s.fr
        f.labels.append((ins[2], len(ins[1]), len(f.stack), False))
        if not t:
            if ins[3] is None: f.labels.pop(); f.pc = ins[2]
            else: f.pc = ins[3]
    if isinstance(c, bool): go(st, c); return
    r = eng.split(st, c)
    for t, s in r: go(s, t)
    if len(r) == 1: return
    return [s for _, s in r]
@op('else')
def _(eng, st, fr, ins): fr.labels.pop(); fr.pc = ins[2]
@op('end')
def _(eng, st, fr, ins): fr.labels.pop()
@op('br')
def _(eng, st, fr, ins):
    if not do_br(fr, ins[1]): return do_return(eng, st, fr)
@op('br_if')
def _(eng, st, fr, ins):
    c = truth(fr.stack.pop())
    if isinstance(c, bool):
        if c and not do_br(fr, ins[1]): return do_return(eng, st, fr)
        return
    r = eng.split(st, c); out = []
    for t, s in r:
        if t and not do_br(s.fr, ins[1]):
            x = do_return(eng, s, s.fr)
            if x is not s: eng.pending.append(x); continue
        out.append(s)
    if len(r) == 1 and out and out[0] is st: return
    return out
@op('br_table')
def _(eng, st, fr, ins):
    v = fr.stack.pop(); ds = ins[1]; n = len(ds) - 1
    if type(v) is not int: v = norm(bv(v, 32))
    if type(v) is int:
        if not do_br(fr, ds[v] if v < n else ds[n]): return do_return(eng, st, fr)
        return
    out = []; rest = st
    for i in range(n):
        if rest is None: break
        nxt = None
        for t, s in eng.split(rest, v == i):
            if t:
                if not do_br(s.fr, ds[i]):
                    x = do_return(eng, s, s.fr)
                    if x is not s: eng.pending.append(x); continue
                out.append(s)
            else: nxt = s
        rest = nxt
    if rest is not None:
        x = rest
        if not do_br(rest.fr, ds[n]):
            x = do_return(eng, rest, rest.fr)
            if x is not rest: eng.pending.append(x); x = None
        if x is not None: out.append(rest)
    return out
@op('return')
def _(eng, st, fr, ins): return do_return(eng, st, fr)
@op('$funcend')
def _(eng, st, fr, ins): return do_return(eng, st, fr)

def invoke(eng, st, f, args):
    hk = eng.hooks.get(f.name)
    if hk is not None:
        r = hk(eng, st, args)
        return host_result(eng, st, r)
    if f.imp is not None:
        if f.imp[1] in eng.stubs: return eng.enter(st, eng.stubs[f.imp[1]], args)
        if f.imp[1] == 'proc_exit': return ('exit', args, st)
        h = eng.hosts.get(f.imp) or eng.hosts.get(f.imp[1])
        if h is None: raise Inconclusive('unmodelled import %s.%s' % f.imp)
        return host_result(eng, st, h(eng, st, args))
    eng.enter(st, f, args)
def host_result(eng, st, r):
    """None / list of values / ('fork', [(state, values)])"""
    if r is None: return None
    if type(r) is tuple and r[0] == 'fork':
        out = []
        for s, vals in r[1]:
            s.fr.stack.extend(vals); out.append(s)
        return out
    if type(r) is tuple: return r   # finished
    st.fr.stack.extend(r)
@op('call')
def _(eng, st, fr, ins):
    f = eng.m.funcs[ins[1]]; n = len(f.params)
    k = fr.stack
    if n: args = k[-n:]; del k[-n:]
    else: args = []
    return invoke(eng, st, f, args)
@op('call_indirect')
def _(eng, st, fr, ins):
    t = fr.stack.pop()
    def go(s, i):
        fi = eng.m.tables.get(i)
        if fi is None: return trapped(s, 'trap: undefined table element %d' % i)
        f = eng.m.funcs[fi]
        if (tuple(f.params), tuple(f.results)) != ins[1]: return trapped(s, 'trap: indirect call type mismatch')
        n = len(f.params); k = s.fr.stack
        if n: args = k[-n:]; del k[-n:]
        else: args = []
        return invoke(eng, s, f, args)
    if type(t) is int: return go(st, t)
    cs = concretize_fork(eng, st, t)
    if len(cs) == 1: return go(cs[0][1], cs[0][0])
    out = []
    for i, s in cs:
        r = go(s, i)
        if type(r) is tuple: eng.pending.append(r)
        elif type(r) is list: out.extend(r)
        else: out.append(s)
    return out
@op('ref.func')
def _(eng, st, fr, ins): raise Inconclusive('ref.func in linked code')

def compile_func(f, mod):
    """resolve structured control, attach handlers"""
    from wasmtype import select_widths
    sw = select_widths(f, mod)
    out = []; stack = []
    code = list(f.code)
    end = {}; els = {}
    for i, x in enumerate(code):
        o = x[0]
        if o in ('block', 'loop', 'if'): stack.append(i)
        elif o == 'else': els[stack[-1]] = i
        elif o == 'end':
            j = stack.pop(); end[j] = i
            if j in els: end[els[j]] = i
    for i, x in enumerate(code):
        o = x[0]; h = H.get(o)
        if h is None:
            def h(eng, st, fr, ins, o=o): raise Inconclusive('opcode not modelled: ' + o)
        if o == 'block': out.append((h, x[1], end[i]+1))
        elif o == 'loop': out.append((h, x[1]))
        elif o == 'if': out.append((h, x[1], end[i]+1, els[i]+1 if i in els else None))
        elif o == 'else': out.append((h, None, end[i]+1))
        elif o == 'select': out.append((h, sw.get(i, 32)))
        else: out.append((h,) + x[1:])
    out.append((H['$funcend'],))
    return out

