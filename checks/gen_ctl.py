"""Random structured functions over symbolic int inputs (C03): nested if/loops/switch/goto/break/continue/return."""
import random
class G:
    def __init__(s, rnd): s.r = rnd; s.n = 0; s.lab = 0
    def k(s): s.n += 1; return s.n
    def var(s): return s.r.choice(['a', 'b', 'c'])
    def cond(s, d=0):
        r = s.r; x = r.random()
        if d < 2 and x < 0.15: return '(%s && %s)' % (s.cond(d+1), s.cond(d+1))
        if d < 2 and x < 0.30: return '(%s || %s)' % (s.cond(d+1), s.cond(d+1))
        if d < 2 and x < 0.36: return '!(%s)' % s.cond(d+1)
        v = s.var(); x = r.random()
        if x < 0.2: return '(%s & %d)' % (v, r.choice([1, 2, 4, 8, 3]))
        if x < 0.3: return v
        if x < 0.45: return '%s %s %s' % (v, r.choice(['<', '<=', '==', '!=', '>', '>=']), s.var())
        if x < 0.55: return '(unsigned)%s %s %du' % (v, r.choice(['<', '>=', '>']), r.choice([1, 5, 100]))
        return '%s %s %d' % (v, r.choice(['<', '<=', '==', '!=', '>', '>=']), r.choice([-7, -1, 0, 1, 2, 3, 10, 1000]))
    def block(s, d, ctx):
        n = s.r.choice([1, 2, 2, 3]) if d else 3
        return ''.join(s.stmt(d + 1, ctx) for _ in range(n))
    def tr(s): return 'r = r * 31 + %d; ' % s.k()
    def stmt(s, d, ctx):
        r = s.r; x = r.random()
        if d > 4 or x < 0.22: return s.tr()
        if x < 0.30 and ctx['loop']: return 'if (%s) { %s%s; } ' % (s.cond(), s.tr(), r.choice(['break', 'continue']) if ctx['brk'] else 'continue')
        if x < 0.35: return 'if (%s) return r + %d; ' % (s.cond(), s.k())
        if x < 0.40: return '%s = %s; ' % (s.var(), r.choice(['%s + 1' % s.var(), '%s - %s' % (s.var(), s.var()), '%s ^ 5' % s.var(), '-%s' % s.var(), '%s >> 1' % s.var()]))
        if x < 0.44 and ctx['labels']: return 'if (%s) goto %s; ' % (s.cond(), r.choice(ctx['labels']))
        if x < 0.62:
            t = 'if (%s) { %s} ' % (s.cond(), s.block(d, ctx))
            return t + ('else { %s} ' % s.block(d, ctx) if r.random() < 0.6 else '')
        if x < 0.70:
            i = 'i%d' % s.k(); c = dict(ctx, loop=1, brk=1)
            return 'for (int %s = 0; %s < %d; ++%s) { %s} ' % (i, i, r.choice([1, 2, 2, 3]), i, s.block(d+1, c))
        if x < 0.75:
            i = 'i%d' % s.k(); c = dict(ctx, loop=1, brk=1)
            return '{ int %s = %d; while (%s-- > 0) { %s} } ' % (i, r.choice([1, 2]), i, s.block(d+1, c))
        if x < 0.80:
            i = 'i%d' % s.k(); c = dict(ctx, loop=1, brk=1)
            return '{ int %s = %d; do { %s} while (--%s > 0 && %s); } ' % (i, r.choice([1, 2]), s.block(d+1, c), i, s.cond())
        if x < 0.92:
            if r.random() < 0.5: b0 = r.choice([-2, 0, 0, 1, 5, 100]); vals = [b0 + i for i in range(6)]
            else: vals = [-1000000, -5, 0, 1, 7, 300, 65536, 2147483647]
            vals = sorted(r.sample(vals, r.choice([2, 3, 4, 5]))); r.shuffle(vals)
            out = 'switch (%s) { ' % r.choice([s.var(), s.var() + ' & 7', s.var() + ' + 1'])
            dp = r.choice([None, None, 0, len(vals)]) if r.random() < 0.5 else len(vals)
            c = dict(ctx, brk=1)
            for j in range(len(vals) + 1):
                if dp == j: out += 'default: %s%s' % (s.block(d+1, dict(c, loop=ctx['loop'])), 'break; ' if r.random() < 0.7 else '')
                if j < len(vals):
                    v = vals[j]
                    out += 'case %d: %s%s' % (v, s.block(d+1, c) if r.random() < 0.9 else '', 'break; ' if r.random() < 0.7 else '')
            return out + '} '
        L = 'L%d' % s.k()
        return '{ %s%s:; } ' % (s.block(d, dict(ctx, labels=ctx['labels'] + [L])), L)
def gen(n, seed, prefix='t_rnd'):
    out = []
    for i in range(n):
        g = G(random.Random('%s/%d' % (seed, i)))
        body = ''
        while not ('switch' in body or 'for' in body or 'while' in body or 'goto' in body) or len(body) < 250 or len(body) > 1500: g.n = 0; body = g.block(0, dict(loop=0, brk=0, labels=[]))
        out += ['//@ opt deadline=8 paths=400', 'int %s%d(int a, int b, int c){' % (prefix, i), '  int r = 1; ' + body, '  return r;', '}', '']
    return '\n'.join(out)
TY = {'int': ('int', 'int'), 'll': ('long long', 'long long'), 'd': ('double', 'double'), 'uc': ('unsigned char', 'int'), 'sh': ('short', 'int'), 'f': ('float', 'float'), 'bool': ('bool', 'int'), 'u': ('unsigned', 'unsigned')}
def seqs():
    """sequence points: the effects of a condition come before the operand it selects"""
    out = ['#ifdef __WCPL__\n#include <stdbool.h>\n#else\n#define bool _Bool\n#define true ((_Bool)1)\n#endif\n']
    for k, (t, rt) in TY.items():
        out.append('%s g_%s; int set_%s(%s v){ g_%s = v; return (int)v; }\n' % (t, k, k, t, k))
        one = 'true' if k == 'bool' else '(%s)1' % t
        conds = ['(a = b) != (%s)0' % t, 'set_%s(b)' % k, '(n++ > 0)', '--n', 'n-- && n', '(n = (int)b) || n > 3', '(a = b, n)', '(n += 2) & 3', 'n', '(n ? set_%s(a) : set_%s(b))' % (k, k), '(p[0] = n) != 0']
        if k in ('d', 'f'): conds = [c for c in conds if '(int)b' not in c and 'set_' not in c] + ['(g_%s = a) < b' % k, '((set0_%s(b), n) > 1)' % k]; out.append('void set0_%s(%s v){ g_%s = v; }\n' % (k, t, k))
        if k == 'bool': conds.append('!(a = !b)')
        ops = [('a', 'b'), ('b', 'a'), ('g_' + k, 'a'), (one, 'a'), ('g_' + k, 'g_' + k), ('b', 'g_' + k)]
        for i, c in enumerate(conds):
            for j, (x, y) in enumerate(ops):
                out.append('int t_seq_%s_%d_%d(%s a, %s b, int n){ int p[1]; p[0] = 1; g_%s = b; %s r = (%s)((%s) ? %s : %s); return (r == (%s)a) + 2 * (r == (%s)b) + 4 * (r == (%s)g_%s) + 8 * (r == (%s)1) + 16 * (n & 7) + 128 * p[0]; }\n' % (k, i, j, t, t, k, rt, rt, c, x, y, rt, rt, rt, k, rt))
    out.append('''int t_seqn_1(int n){ return n++ ? n : -1; }
int t_seqn_2(int n, int m){ return (n = m) ? n : m + 1; }
int t_seqn_3(int n, int m){ int r = (m-- > 0 ? m : n) * 3; return r + m; }
int t_seqn_4(int n){ return n++ && n > 1; }
int t_seqn_5(int n, int m){ return (n = m) || n + 1; }
int t_seqn_6(int *p, int n){ return p[0]++ ? p[0] : n; }
''')
    return ''.join(out)
def logic():
    """the int value of && || ! ?: whatever operator ends the operands"""
    vals = {  # last operator -> expression, over a,b ints; l,m long longs; x,y doubles; p pointer
        'and': '(b & 6)', 'and1': '(b & 1)', 'or': '(b | 8)', 'xor': '(b ^ 5)', 'shl': '(b << 3)', 'shr': '(b >> 2)', 'ushr': '((unsigned)b >> 3)', 'add': '(int)((unsigned)b + 7u)', 'sub': '(int)((unsigned)b - (unsigned)a)', 'mul': '(int)((unsigned)b * 3u)',
        'neg': '(int)(0u - (unsigned)b)', 'compl': '~b', 'lnot': '!b', 'var': 'b', 'lt': '(a < b)', 'eq': '(a == b)', 'ne': '(a != 3)', 'cast8': '(char)b', 'castu8': '(unsigned char)b', 'cast16': '(short)b', 'load': 'p[0]', 'loadb': 'c[1]', 'call': 'idc(b)', 'rem': '(b % 4)', 'div': '(b / 3)',
        'll': 'l', 'lland': '(l & 6ll)', 'llshr': '(l >> 40)', 'lllow': '(int)l', 'llcmp': '(l < m)', 'dbl': 'x', 'dlt': '(x < y)', 'dne': '(x != y)', 'flt': '(float)x', 'ptr': 'p', 'nptr': 'q', 'asg': '(b = a)', 'asgop': '(b &= 6)', 'post': 'b--', 'pre': '--b', 'comma': '(b = 2, a & 4)', 'sel': '(a ? b : 4)', 'land': '(b && a)', 'lor': '(b || a)', 'bool': 'tb', 'c0': '0', 'c2': '2', 'cond': '(a > 1 ? 2 : b & 4)', 'bitf': 'u8', 'sz': 'idu(b)', 'cll': 'idl(l)', 'cd': 'idd(x)'}
    lefts = ['a', '(a & 4)', 'l', 'x', 'p', '(a < 3)', 'a++', '(a ? 2 : b & 8)']
    pre = 'int idc(int v){ return v & 12; } unsigned idu(unsigned v){ return v & 10u; } long long idl(long long v){ return v << 1; } double idd(double v){ return v; }\n'
    out = ['#ifdef __WCPL__\n#include <stdbool.h>\n#else\n#define bool _Bool\n#endif\n', pre]
    for k, e in vals.items():
        c = lambda e: e.replace('tb', '((bool)b)').replace('u8', '((unsigned char)a)')
        nul = lambda e: e if e not in ('p', 'q') else '(%s != NULL0)' % e
        e = nul(c(e))
        res = [('%s && %s', 0), ('%s || %s', 0)]
        sig = '(int a, int b, long long l, long long m, double x, double y, int *p, char *c)'
        for i, L in enumerate(lefts):
            L = nul(L)
            if i > 1 and k not in ('and', 'lland', 'dbl', 'load', 'call', 'sel', 'asg', 'post'): continue
            t = []
            for op in ('&&', '||'):
                t += ['%s %s %s' % (L, op, e)]
            for j, v in enumerate(t):
                out.append('//@ buf p=4\n//@ buf c=4\nlong long t_lv_%s_%d_%d%s{ int *q; q = p; long long r = %s; return r * 64 + (a & 7) * 8 + (b & 7); }\n' % (k, i, j, sig, v))
        forms = ['!%s', '!!%s', '(%s) ? 5 : 9', '(%s && a) + (%s || a)', '(a && %s) * 2 + (%s && b)', 'idc(a && %s)', '-(b || %s)', '(a || %s) == 1', '(a && %s) & 2', '(bool)%s', '(%s) && 1', '(%s) || 0', '1 && (%s)', '0 || (%s)']
        for j, f in enumerate(forms):
            n = f.count('%s')
            if n == 2 and k in ('asg', 'asgop', 'post', 'pre', 'comma'): continue
            out.append('//@ buf p=4\n//@ buf c=4\nlong long t_lf_%s_%d%s{ int *q; q = p; long long r = (long long)(%s); return r * 64 + (a & 7) * 8 + (b & 7); }\n' % (k, j, sig, f % ((e,) * n)))
    return ''.join(out).replace('NULL0', '(int *)0')
