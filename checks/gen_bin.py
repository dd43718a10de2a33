"""Programs whose encoding stresses the binary and object formats (C09, C10): boundary constants, many locals, functions,
blocks and switch targets, large and odd data, indirect calls, every load and store width."""
import random, struct
INTS = sorted({s * v + d for k in (6, 7, 13, 14, 20, 21, 27, 28, 31) for v in (1 << k,) for s in (1, -1) for d in (-1, 0, 1) if -2**31 <= s * v + d < 2**31} | {0, 1, -1, -2**31, 2**31 - 1})
LLS = sorted({s * (1 << k) + d for k in (6, 7, 31, 32, 34, 35, 41, 42, 48, 49, 55, 56, 62, 63) for s in (1, -1) for d in (-1, 0, 1) if -2**63 <= s * (1 << k) + d < 2**63} | {0, -2**63, 2**63 - 1})
DBL = ['0.0', '1.0', '0.1', '1e-5', '3.141592653589793', '1e22', '1e23', '123456789.125', '1.7976931348623157e308', '2.2250738585072014e-308', '4.9406564584124654e-324', '2.2250738585072009e-308', '1e-310', '5e-320', '0.3333333333333333', '9007199254740993.0', '1e100', '6.02214076e23', '4294967295.0', '2147483648.0', '0.5', '255.0', '1.0000000000000002', '0.99999999999999989']
FLT = ['0.0f', '1.0f', '0.1f', '3.4028234e38f', '1.17549435e-38f', '1.4e-45f', '1.1754942e-38f', '1e-40f', '16777216.0f', '0.33333334f', '1e10f', '3.1415927f', '1.00000012f', '65504.0f', '0.99999994f']
def lit(v): return '(-2147483647-1)' if v == -2**31 else '(-9223372036854775807ll-1ll)' if v == -2**63 else '%dll' % v if not -2**31 <= v < 2**31 else str(v)
def bind(seed=1, big=True):
    r = random.Random('bin%s' % seed); o = ['#ifdef __WCPL__\n#include <math.h>\n#else\n#define INFINITY __builtin_inf()\n#define HUGE_VAL __builtin_inf()\n#define NAN __builtin_nan("")\n#endif\n']
    def sw(name, t, vals, suf=''):
        o.append('//@ val k=0..%d\n%s t_%s(int k){ switch (k) { %s default: break; } return (%s)1; }\n' % (len(vals), t, name, ' '.join('case %d: return %s;' % (i, v + suf) for i, v in enumerate(vals)), t))
        o.append('%s g_%s[%d] = { %s };\n//@ val k=0..%d\n%s t_g%s(int k){ return g_%s[k]; }\n' % (t, name, len(vals), ', '.join(v + suf for v in vals), len(vals) - 1, t, name, name))
    sw('ci', 'int', [lit(v) for v in INTS]); sw('cl', 'long long', [lit(v) + ('' if lit(v)[-1] in 'l)' else 'll') for v in LLS])
    sw('cd', 'double', DBL + ['-' + x for x in DBL[1:]]); sw('cf', 'float', FLT + ['-' + x for x in FLT[1:]])
    for i, v in enumerate(INTS): o.append('int t_xi%d(int x){ return (x ^ %s) == %s; }\n' % (i, lit(v), lit(INTS[-1 - i])))
    for i, v in enumerate(LLS): o.append('long long t_xl%d(long long x){ return x ^ %s; }\n' % (i, lit(v) + ('' if lit(v)[-1] in 'l)' else 'll')))
    for i, (e, t) in enumerate((('INFINITY', 'double'), ('-HUGE_VAL', 'double'), ('(float)HUGE_VAL', 'float'), ('-(float)INFINITY', 'float'))): o.append('int t_inf%d(%s x){ return x == %s; }\n' % (i, t, e))
    o.append('int t_nan1(double x){ double y = NAN; return (y != y) + 2 * (x == y); }\n')
    # many locals: indices beyond one byte
    n = 150
    for t, f in (('int', 'x + %d'), ('long long', 'x ^ %dll'), ('double', '(double)%d')):
        o.append('%s t_loc_%s(%s x, int k){ %s switch (k & 3) { case 0: v3 = v140; break; case 1: v127 = v128; v130 = v2; break; case 2: v149 = v0; break; default: break; } return %s; }\n' % (
            t, t[:2].strip(), t, ' '.join('%s v%d = %s;' % (t, i, f % i) for i in range(n)).replace('x + ', 'k + ') if t == 'int' else ' '.join('%s v%d = %s;' % (t, i, f % i) for i in range(n)),
            'x ^ v3 ^ v127 * 3 ^ v128 * 5 ^ v130 * 7 ^ v149 * 11' if t == 'int' and 0 else ('v3 == v128 ? x : v127' if t == 'double' else 'v3 ^ (v127 << 3) ^ v128 ^ (v130 << 5) ^ v149 ^ v64')))
    o.append('int t_mix(int a, long long b, double c, float d){ %s return a0 + (int)b5 + (c7 > 1.0 ? 1 : 2) + (d9 < 2.0f ? 4 : 8) + a11 * 2; }\n' % ' '.join('int a%d = a + %d; long long b%d = b + %dll; double c%d = c; float d%d = d;' % ((i,) * 6) for i in range(12)))
    # wide and sparse switches
    o.append('//@ opt paths=400\nint t_sw1(int k){ switch (k) { %s default: return -7; } return -1; }\n' % ' '.join('case %d: return %d;' % (i, r.randrange(100000)) for i in range(140)))
    o.append('//@ opt paths=400\nint t_sw2(int k){ int s = 0; switch (k) { %s default: s = -7; break; } return s; }\n' % ' '.join('case %d: s += %d; %s' % (i * 3 - 60, r.randrange(1000), 'break;' if i % 3 else '') for i in range(40)))
    # nested blocks: branch depths
    o.append('int t_nest(int a, int b){ int r = 0; %s if (a == b) r += 1000; %s return r; }\n' % (' '.join('if (a > %d) { r += %d; while (b > %d) { --b; if (b == %d) break;' % (i, i + 1, 40 - i, i + 30) for i in range(12)), ' '.join('if (b < 35) continue; ++r; } }' for i in range(12))) if False else
             'int t_nest(int a){ int r = 0; %s r = 99; %s return r; }\n' % (' '.join('if (a > %d) {' % (i * 7) for i in range(40)), ' '.join('++r; }' for i in range(40))))
    # functions in a table
    m = 140
    for i in range(m): o.append('int fn%d(int x){ return x * %d + %d; }\n' % (i, r.randrange(1, 99), r.randrange(1000)))
    o.append('int (*g_fp)(int) = &fn77;\n')
    o.append('//@ val k=0..%d\nint t_fp(int k, int x){ int (*p)(int) = &fn0; switch (k) { %s default: break; } return (*p)(x); }\n' % (m - 1, ' '.join('case %d: p = &fn%d; break;' % (i, i) for i in range(m))))
    o.append('//@ val k=0..%d\nint t_fn(int k, int x){ switch (k) { %s default: break; } return (*g_fp)(x); }\n' % (m, ' '.join('case %d: return fn%d(x);' % (i, i) for i in range(0, m, 7))))
    # memory of every width
    for t in ('char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long long', 'unsigned long long', 'float', 'double'):
        nm = t.replace(' ', '_')
        for off in (0, 1, 15, 130):
            o.append('//@ buf p=1100\n//@ opt fp=fp\n%s t_m_%s_%d(%s *p, %s v){ %s w = p[%d]; p[%d] = v; return w; }\n' % (t, nm, off, t, t, t, off, off // 2))
    # data: every byte value, strings with escapes, sizes around LEB boundaries, zeroes, addresses
    o.append('unsigned char g_all[256] = { %s };\n//@ val k=0..255\nint t_all(int k){ return g_all[k]; }\n' % ', '.join(str((i * 7 + 3) & 255) for i in range(256)))
    o.append('unsigned char g_asc[256] = { %s };\n//@ val k=0..255\nint t_asc(int k){ return g_asc[k]; }\n' % ', '.join(str(i) for i in range(256)))
    o.append('const char *g_str(int k){ switch (k) { case 0: return "a\\"b\\\\c\'d\\n\\t\\r\\0e"; case 1: return "\\x01" "f" "\\x7f" "9" "\\\\x41"; case 2: return "\\303\\251\\342\\202\\254z"; case 3: return "\\377\\0001a;;(;;)$)"; default: break; } return "%"; }\n//@ val k=0..4\n//@ val i=0..1\nint t_str(int k, int i){ return g_str(k)[i]; }\n')
    for i in range(12): o.append('//@ val k=0..3\nint t_st%d(int k){ return g_str(k)[%d]; }\n' % (i, i) if i < 5 else '')
    for n in (1, 127, 128, 129, 16384): o.append('int g_z%d[%d]; int g_n%d = %d;\n//@ val k=0..%d\nint t_z%d(int k, int v){ g_z%d[k] = v; g_z%d[%d] = 3; return g_z%d[k] + g_n%d; }\n' % (n, n, n, n, min(n - 1, 9), n, n, n, n - 1, n, n))
    o.append('long long g_tail[5] = { 1ll, 0ll, 0ll, -1ll, 0ll };\n//@ val k=0..4\nlong long t_tail(int k){ return g_tail[k]; }\nint *g_adr = &g_z128[0]; char *g_sp = "tail";\n//@ val k=0..9\nint t_adr(int k, int v){ g_z128[k] = v; return g_adr[k] + g_sp[k & 3]; }\n')
    return ''.join(o)
