"""Constant evaluation (C06): numval_unop/numval_binop/numval_convert of c.c on every type pair, all operand values."""
T = [('BOOL', 'bool'), ('CHAR', 'char'), ('UCHAR', 'unsigned char'), ('SHORT', 'short'), ('USHORT', 'unsigned short'), ('INT', 'int'), ('UINT', 'unsigned'), ('LONG', 'long'), ('ULONG', 'unsigned long'),
     ('LLONG', 'long long'), ('ULLONG', 'unsigned long long'), ('FLOAT', 'float'), ('DOUBLE', 'double'), ('ENUM', 'int')]
IOPS = [('PLUS', '+'), ('MINUS', '-'), ('STAR', '*'), ('SLASH', '/'), ('REM', '%'), ('AND', '&'), ('OR', '|'), ('XOR', '^'), ('SHL', '<<'), ('SHR', '>>'), ('EQ', '=='), ('NE', '!='), ('LT', '<'), ('GT', '>'), ('LE', '<='), ('GE', '>=')]
UOPS = [('PLUS', '+'), ('MINUS', '-'), ('TILDE', '~'), ('NOT', '!')]
FL = ('FLOAT', 'DOUBLE')
def wide(k, c, x, l):
    """integer operand of a floating operation, converted (exactly, or by one rounding) from the widest integer of its signedness"""
    return x if k in FL else '(%s)(%s long long)%s' % ('double' if 'DOUBLE' == l else 'float', 'unsigned' if k == 'BOOL' or c.startswith('unsigned') else '', x)
def unit():
    n = len(T); o = ['#ifdef __WCPL__', 'ts_t TSX[%d]; tt_t BOP[%d]; tt_t UOP[%d];' % (n, len(IOPS), len(UOPS)), 'void tabs(void){ %s %s %s }' % (
        ' '.join('TSX[%d] = TS_%s;' % (i, t[0]) for i, t in enumerate(T)), ' '.join('BOP[%d] = TT_%s;' % (i, t[0]) for i, t in enumerate(IOPS)), ' '.join('UOP[%d] = TT_%s;' % (i, t[0]) for i, t in enumerate(UOPS)))]
    o.append('void mkv(int t, long long a, numval_t *p){ p->i = 0; switch (t) {')
    for i, (k, c) in enumerate(T):
        if k == 'FLOAT': o.append('case %d: { union { unsigned u; float f; } x; x.u = (unsigned)a; p->f = x.f; break; }' % i)
        elif k == 'DOUBLE': o.append('case %d: { union { long long i; double d; } x; x.i = a; p->d = x.d; break; }' % i)
        elif k == 'BOOL': o.append('case %d: p->u = (unsigned long long)(a & 1); break;' % i)
        elif c.startswith('unsigned'): o.append('case %d: p->u = (unsigned long long)(%s)a; break;' % (i, c))
        else: o.append('case %d: p->i = (long long)(%s)a; break;' % (i, c))
    o.append('} }')
    o.append('void res(long long *o, ts_t z, numval_t *v){ int i; o[0] = -1; for (i = 0; i < %d; ++i) if (TSX[i] == z) { o[0] = i; break; } if (z == TS_FLOAT) { union { unsigned u; float f; } x; x.f = v->f; o[1] = (long long)x.u; } else if (z == TS_DOUBLE) { union { long long i; double d; } x; x.d = v->d; o[1] = x.i; } else o[1] = v->i; }' % n)
    o.append('void bin(long long *o, int op, int tx, int ty, long long a, long long b){ tabs(); numval_t x, y, z; mkv(tx, a, &x); mkv(ty, b, &y); z.i = 0; ts_t t = numval_binop(BOP[op], TSX[tx], &x, TSX[ty], &y, &z); res(o, t, &z); }')
    o.append('void una(long long *o, int op, int tx, long long a){ tabs(); numval_t x, z; mkv(tx, a, &x); z.i = 0; ts_t t = numval_unop(UOP[op], TSX[tx], &x, &z); res(o, t, &z); }')
    o.append('void cnv(long long *o, int to, int tx, long long a){ tabs(); numval_t x; mkv(tx, a, &x); numval_convert(TSX[to], TSX[tx], &x); res(o, TSX[to], &x); }')
    o += ['#else', 'typedef _Bool bool;', 'static double gd(long long a){ union { long long i; double d; } x; x.i = a; return x.d; }', 'static float gf(long long a){ union { unsigned u; float f; } x; x.u = (unsigned)a; return x.f; }']
    o.append('#define W(e) __typeof__(_Generic((e), int: 0LL, long: 0LL, long long: 0LL, default: 0ULL))')
    idx = {c: i for i, (k, c) in reversed(list(enumerate(T)))}
    o.append('#define TY(e) _Generic((e), int: %d, unsigned: %d, long: %d, unsigned long: %d, long long: %d, unsigned long long: %d, float: %d, double: %d)' % tuple(idx[x] for x in ('int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double')))
    o.append('static long long bd(double d){ union { long long i; double d; } x; x.d = d; return x.i; } static long long bf(float d){ union { unsigned u; float f; } x; x.f = d; return (long long)x.u; } static long long bi(long long v){ return v; }')
    o.append('#define BITS(e) _Generic((e), float: bf, double: bd, default: bi)(e)')
    o.append('#define R(e) do { o[0] = TY(e); o[1] = BITS(e); } while (0)')
    def get(k, c, a): return 'gf(%s)' % a if k == 'FLOAT' else 'gd(%s)' % a if k == 'DOUBLE' else '(%s & 1) != 0' % a if k == 'BOOL' else '(%s)%s' % (c, a)
    for i, (k, c) in enumerate(T):
        for j, (l, d) in enumerate(T):
            o.append('static void b_%d_%d(long long *o, int op, long long a, long long b){ %s x = %s; %s y = %s; switch (op) {' % (i, j, c, get(k, c, 'a'), d, get(l, d, 'b')))
            for m, (_, op) in enumerate(IOPS):
                if (k in FL or l in FL) and op in ('%', '&', '|', '^', '<<', '>>'): continue
                if k in FL or l in FL: o.append('case %d: R(%s %s %s); break;' % (m, wide(k, c, 'x', l), op, wide(l, d, 'y', k)))
                elif op in '*/%': o.append('case %d: { __typeof__(x + y) v = (__typeof__(x + y))((W%s)(__typeof__(x + y))x %s (W%s)(__typeof__(x + y))y); R(v); break; }' % (m, '(x + y)', op, '(x + y)'))
                else: o.append('case %d: R(x %s y); break;' % (m, op))
            o.append('} }')
        o.append('static void u_%d(long long *o, int op, long long a){ %s x = %s; switch (op) { case 0: R(+x); break; case 1: R(-x); break; %s case 3: R(!x); break; } }' % (i, c, get(k, c, 'a'), '' if k in FL else 'case 2: R(~x); break;'))
        o.append('static void c_%d(long long *o, int to, long long a){ %s x = %s; o[0] = to; switch (to) { %s } }' % (i, c, get(k, c, 'a'), ' '.join('case %d: { %s z = (%s)%s; o[1] = BITS(z); break; }' % (j, d, d, '(%s long long)x' % ('unsigned' if k == 'BOOL' or c.startswith('unsigned') else '') if l in FL and k not in FL else '(%s long long)x' % ('unsigned' if d.startswith('unsigned') else '') if k in FL and l not in FL and l != 'BOOL' else 'x') for j, (l, d) in enumerate(T))))
    o.append('void bin(long long *o, int op, int tx, int ty, long long a, long long b){ switch (tx * %d + ty) { %s } }' % (n, ' '.join('case %d: b_%d_%d(o, op, a, b); break;' % (i * n + j, i, j) for i in range(n) for j in range(n))))
    o.append('void una(long long *o, int op, int tx, long long a){ switch (tx) { %s } }' % ' '.join('case %d: u_%d(o, op, a); break;' % (i, i) for i in range(n)))
    o.append('void cnv(long long *o, int to, int tx, long long a){ switch (tx) { %s } }' % ' '.join('case %d: c_%d(o, to, a); break;' % (i, i) for i in range(n)))
    o.append('#endif')
    o.append('int pin(int n, int lo, int hi){ for (int i = lo; i < hi; ++i) if (n == i) return i; return hi; }')
    ints = [i for i, t in enumerate(T) if t[0] not in FL]
    W = {'BOOL': 1, 'CHAR': 8, 'UCHAR': 8, 'SHORT': 16, 'USHORT': 16, 'INT': 32, 'UINT': 32, 'LONG': 32, 'ULONG': 32, 'LLONG': 64, 'ULLONG': 64, 'FLOAT': 32, 'DOUBLE': 64, 'ENUM': 32}
    F1 = '(op <= 3 || op >= 10)'
    for i, (k, c) in enumerate(T):
        for j, (l, d) in enumerate(T):
            pre = []
            if k in FL or l in FL: pre.append(F1)
            # division by zero is refused, not folded (checked by the last clause); shifts only by less than the width
            if k in FL or l in FL: pre.append('!(op == 3 && %s == 0)' % ('0' if 0 else 'dv%d(b)' % j))
            else:
                pre.append('!((op == 3 || op == 4) && dv%d(b) == 0)' % j)
                w = max(W[k], 32); pre.append('!((op == 8 || op == 9) && (sh%d(b) < 0 || sh%d(b) >= %d))' % (j, j, w))
                pre.append('!((op == 3 || op == 4) && sh%d(b) == -1 && sm%d(a))' % (j, i))
            o.append('//@ val op=0..%d\n//@ buf o=16\n//@ pre: %s\n//@ opt deadline=120 paths=9000\nvoid t_b_%s_%s(long long *o, int op, long long a, long long b){ bin(o, pin(op, 0, %d), %d, %d, a, b); }' % (len(IOPS) - 1, ' && '.join(pre), k, l, len(IOPS) - 1, i, j))
        o.append('//@ val op=0..3\n//@ buf o=16\n//@ pre: %s\nvoid t_u_%s(long long *o, int op, long long a){ una(o, pin(op, 0, 3), %d, a); }' % ('op != 2' if k in FL else 'op >= 0', k, i))
        # float to integer: only values the target can hold
        o.append('//@ val to=0..%d\n//@ buf o=16\n//@ pre: fits%d(to, a)\n//@ opt deadline=60\nvoid t_c_%s(long long *o, int to, long long a){ cnv(o, pin(to, 0, %d), %d, a); }' % (n - 1, i, k, n - 1, i))
    p = ['typedef _Bool bool_;']
    for i, (k, c) in enumerate(T):
        cc = '_Bool' if k == 'BOOL' else c
        if k == 'DOUBLE': val = 'union { long long i; double d; } x; x.i = a; double v = x.d;'
        elif k == 'FLOAT': val = 'union { unsigned u; float f; } x; x.u = (unsigned)a; float v = x.f;'
        elif k == 'BOOL': val = 'int v = (int)(a & 1);'
        else: val = '%s v = (%s)a;' % (c, c)
        p.append('static int dv%d(long long a){ %s return v != 0; }' % (i, val))
        p.append('static long long sh%d(long long a){ %s return %s; }' % (i, val, '0' if k in FL else '(v > 1000 ? 1000 : (long long)v)'))
        p.append('static int sm%d(long long a){ return %s; }' % (i, '1' if k in FL else {8: '0', 16: '0', 1: '0', 32: '(int)a == (-0x7fffffff-1)', 64: 'a == (-0x7fffffffffffffffLL-1)'}[W[k]]))
        if k in FL:
            lim = {'BOOL': '1', 'FLOAT': '1', 'DOUBLE': '1'}
            for l, d in T:
                if l in lim: continue
                w = W[l]; u = d.startswith('unsigned')
                lim[l] = '(v > %s && v < %s)' % ('-1.0' if u else '-%s.0' % (1 << (w - 1)) + ('' if w == 64 else ''), '%d.0' % ((1 << w) if u else (1 << (w - 1))))
            p.append('static int fits%d(int to, long long a){ %s switch (to) { %s } return 0; }' % (i, val, ' '.join('case %d: return %s;' % (j, lim[l]) for j, (l, d) in enumerate(T))))
        else: p.append('static int fits%d(int to, long long a){ return 1; }' % i)
    return '\n'.join(o) + '\n', '\n'.join(p) + '\n'

# ---- constant expressions in every context the compiler folds them in
import random, struct
from gen_expr import usual, promote, isf, isu, width, signed, SH
NUM = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'bool']
SUF = {'int': '', 'unsigned': 'u', 'long': 'L', 'unsigned long': 'UL', 'long long': 'LL', 'unsigned long long': 'ULL'}
def f32(x):
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return float('inf') if x > 0 else float('-inf')
def wrap(t, v):
    w = width(t); v &= (1 << w) - 1
    return v - (1 << w) if signed(t) and v >> (w - 1) else v
def conv(t, v):
    """value v converted to t; None where C leaves it undefined"""
    if t == 'bool': return int(v != 0)
    if t == 'double': return float(v)
    if t == 'float': return f32(float(v))
    if isinstance(v, float):
        if v != v or abs(v) == float('inf'): return None
        v = int(v)
        return v if wrap(t, v) == v else None
    return wrap(t, v)
class CG:
    def __init__(s, seed): s.r = random.Random(seed)
    def lit(s):
        r = s.r; x = r.random()
        if x < 0.12: c = r.choice("a09~ !"); return "'%s'" % c, 'char', ord(c)
        if x < 0.3:
            t = r.choice(['float', 'double']); v = r.choice([0.0, 0.5, 1.0, 2.5, 0.25, 3.0, 100.0, 1024.0, 65536.0, 1e10, 4294967296.0, 0.1])
            txt = repr(v) + ('f' if t == 'float' else ''); return txt, t, f32(v) if t == 'float' else v
        t = r.choice(list(SUF)); w = width(t) - (0 if isu(t) else 1)
        v = r.choice([0, 0, 1, 1, 2, 3, 7, 8, 31, 32, 63, 100, 255, 256, 65535, 65536, (1 << w) - 1, 1 << (w - 1), (1 << w) - 2, r.getrandbits(w), r.getrandbits(8)])
        return ('%d' if r.random() < 0.6 else '0x%x')% v + SUF[t], t, v
    def expr(s, d, leaves=()):
        """(text, type, value); value None = not a constant (uses one of leaves)"""
        r = s.r
        while 1:
            e = s.try_expr(d, leaves)
            if e: return e
    def try_expr(s, d, leaves):
        r = s.r; x = r.random()
        if d == 0 or x < 0.1:
            if leaves and r.random() < 0.35: n, t = r.choice(leaves); return n, t, None
            return s.lit()
        if x < 0.28:
            a, t, v = s.expr(d - 1, leaves); op = r.choice('-~!+-~!')
            if op == '!': return '(!%s)' % a, 'int', None if v is None else int(v == 0)
            if isf(t) and op == '~': return None
            p = promote(t); 
            if v is None: return '(%s%s)' % (op, a), p, None
            v = -v if op == '-' else ~v if op == '~' else v
            if not isf(p):
                if signed(p) and wrap(p, v) != v: return None
                v = wrap(p, v)
            return '(%s%s)' % (op, a), p, v
        if x < 0.42:
            a, t, v = s.expr(d - 1, leaves); c = r.choice(NUM)
            if v is None:
                if isf(t) and not isf(c) and c != 'bool': return None
                return '((%s)%s)' % (c, a), c, None
            v = conv(c, v)
            return None if v is None else ('((%s)%s)' % (c, a), c, v)
        if x < 0.52:
            (a, ta, va), (b, tb, vb), (c, tc, vc) = [s.expr(d - 1, leaves) for _ in range(3)]; t = usual(tb, tc)
            v = None if va is None else vb if va else vc
            if va is not None and (vb is None or vc is None): v = None
            return '(%s ? %s : %s)' % (a, b, c), t, None if v is None else conv(t, v)
        a, ta, va = s.expr(d - 1, leaves); b, tb, vb = s.expr(d - 1, leaves)
        if x < 0.62:
            op = r.choice(['&&', '||'])
            v = None if va is None or vb is None else int(bool(va) and bool(vb)) if op == '&&' else int(bool(va) or bool(vb))
            return '(%s %s %s)' % (a, op, b), 'int', v
        t = usual(ta, tb); both = va is not None and vb is not None
        if x < 0.75:
            op = r.choice(['==', '!=', '<', '>', '<=', '>='])
            if not both: return '(%s %s %s)' % (a, op, b), 'int', None
            p, q = conv(t, va), conv(t, vb)
            return '(%s %s %s)' % (a, op, b), 'int', int({'==': p == q, '!=': p != q, '<': p < q, '>': p > q, '<=': p <= q, '>=': p >= q}[op])
        op = r.choice(['+', '-', '*'] * 2 + ['/', '/', '%', '&', '|', '^', '<<', '>>', '<<', '>>'])
        txt = '(%s %s %s)' % (a, op, b)
        if op in ('<<', '>>'):
            if isf(ta) or isf(tb): return None
            p = promote(ta)
            if vb is None or not 0 <= vb < width(p): return None
            if va is None: return txt, p, None
            if op == '>>': return txt, p, va >> vb
            v = va << vb
            if signed(p) and (va < 0 or wrap(p, v) != v): return None
            return txt, p, wrap(p, v)
        if isf(t):
            if op in '%&|^': return None
            if not both: return None if op == '/' and (vb is None or vb == 0) else (txt, t, None)
            p, q = conv(t, va), conv(t, vb)
            if op == '/' and q == 0: return None
            v = p + q if op == '+' else p - q if op == '-' else p * q if op == '*' else p / q
            v = f32(v) if t == 'float' else v
            return None if v != v or abs(v) == float('inf') else (txt, t, v)
        if op in '/%':
            if vb is None: return None
            q = conv(t, vb)
            if q == 0 or q == -1: return None
            if va is None: return txt, t, None
            p = conv(t, va); z = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            return txt, t, z if op == '/' else p - z * q
        if not both: return txt, t, None
        p, q = conv(t, va), conv(t, vb)
        v = p + q if op == '+' else p - q if op == '-' else p * q if op == '*' else p & q if op == '&' else p | q if op == '|' else p ^ q
        if signed(t) and wrap(t, v) != v: return None
        return txt, t, wrap(t, v)
HEADC = '#ifndef __WCPL__\ntypedef _Bool bool;\n#endif\n'
def exprs(seed, n=24):
    """n functions: constants returned, in initialisers, as case labels, array sizes, enumerators; and mixed with unknown operands"""
    g = CG(seed); r = g.r; o = [HEADC]; fi = 0
    def const(d, ints=False, big=True):
        while 1:
            e = g.expr(d)
            if e[2] is None or (ints and isf(e[1])): continue
            if isinstance(e[2], float) and (abs(e[2]) > 1e30 or 0 < abs(e[2]) < 1e-30): continue
            return e
    for k in range(n):
        fi += 1; kind = k % 6
        if kind == 0:    # folded where an expression is expected
            t = r.choice(NUM); es = []
            while len(es) < 6:
                e = const(3)
                if conv(t, e[2]) is not None: es.append(e)
            o.append('//@ val k=0..%d\n%s t_%d(int k){ %s return (%s)1; }\n' % (len(es), t, fi, ' '.join('if (k == %d) return (%s)%s;' % (i, t, e[0]) for i, e in enumerate(es)), t))
        elif kind == 1:  # static initialisers, selected by an unknown index
            es = [const(3) for _ in range(6)]; t = r.choice(NUM); es = [(e[0], e[1], conv(t, e[2])) for e in es]
            es = [e if e[2] is not None else ('0', 'int', 0) for e in es]
            o.append('%s g%d[%d] = { %s };\n%s h%d = %s;\n//@ val k=0..%d\n%s t_%d(int k){ return k == %d ? h%d : g%d[k]; }\n' % (
                t, fi, len(es), ', '.join('(%s)%s' % (t, e[0]) for e in es), es[0][1], fi, es[0][0] if es[0][0] != '0' else '0', len(es), t, fi, len(es), fi, fi) if False else
                '%s g%d[%d] = { %s };\n//@ val k=0..%d\n%s t_%d(int k){ return g%d[k]; }\n' % (t, fi, len(es), ', '.join('(%s)%s' % (t, e[0]) for e in es), len(es) - 1, t, fi, fi))
            e = const(3); o.append('%s s%d = %s;\n%s t_q%d(void){ return s%d; }\n' % (e[1], fi, e[0], e[1], fi, fi))
        elif kind == 2:  # case labels
            es = {}
            while len(es) < 5:
                e = const(2, True)
                if wrap('int', e[2]) == e[2] and width(e[1]) <= 32 and signed(e[1]): es[e[2]] = e
            o.append('int t_%d(int x){ switch (x) { %s default: break; } return -1; }\n' % (fi, ' '.join('case %s: return %d;' % (e[0], 10 + i) for i, e in enumerate(es.values()))))
        elif kind == 3:  # array sizes and enumerators
            e = const(2, True); c = const(2, True)
            while wrap('int', c[2]) != c[2] or isu(c[1]): c = const(2, True)
            o.append('enum { e%d_a = %s, e%d_b };\nint t_%d(int x){ char a[((int)(%s) & 31) + 1]; return (int)sizeof(a) * 2 + (x == e%d_a ? 100 : 0) + (x == e%d_b ? 1000 : 0); }\n' % (fi, c[0], fi, fi, e[0], fi, fi) if c[2] < 2**31 - 1 else
                     'enum { e%d_a = %s };\nint t_%d(int x){ return x == e%d_a; }\n' % (fi, c[0], fi, fi))
        elif kind == 4:  # controlling expressions
            a, b, c = const(2), const(2), const(2)
            o.append('int t_%d(int x){ int r = 0; if (%s) r += 1; else r += 2; while (%s) { r += 4; break; } r += %s ? x : 16; if (%s && x) r += 32; if (%s || x) r += 64; do { ++r; if (r %% 7 == 3) break; } while (%s && r < 200); return r; }\n' % (fi, a[0], b[0], c[0], b[0], c[0], '0' if a[2] == 0 else '0'))
        else:            # folded subexpressions next to unknown operands
            leaves = [('a', r.choice(NUM)), ('b', r.choice(NUM))]
            while 1:
                e = g.expr(3, leaves)
                if e[2] is None and not ('*' in e[0] and isf(e[1])) : break
            o.append('%s t_%d(%s a, %s b){ return %s; }\n' % (e[1], fi, leaves[0][1], leaves[1][1], e[0]))
    return ''.join(o)
