"""Cases for L10: exact functions by exponent class, transcendental functions against fdlibm."""
import os, struct
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
THR = dict(exp=[0x40862e42, 0x3fd62e42, 0x3ff0a2b2, 0x3e300000, 0x40874910], expm1=[0x4043687a, 0x40862e42, 0x3fd62e42, 0x3ff0a2b2, 0x3c900000], sinh=[0x40360000, 0x3e300000, 0x3ff00000, 0x40862e42, 0x408633ce], cosh=[0x3fd62e43, 0x3c800000, 0x40360000, 0x40862e42, 0x408633ce], tanh=[0x40360000, 0x3c800000, 0x3ff00000], acos=[0x3c600000], sin=[0x3fe921fb, 0x3e400000], cos=[0x3fe921fb, 0x3e400000, 0x3fd33333, 0x3fe90000], tan=[0x3fe921fb, 0x3fe59428, 0x3e300000])
SLOW = {('exp', 0x40862e42), ('sinh', 0x40862e42), ('cosh', 0x40862e42), ('tanh', 0x40360000), ('tanh', 0x3ff00000), ('cosh', 0x408633ce), ('sinh', 0x408633ce), ('expm1', 0x4043687a), ('expm1', 0x40862e42)}
M = '0x7fffffffffffffffull'
def exact(tier):
    t = open(HERE + '/corpus/math.c').read()
    ks = [0, 1, 26, 50, 51] if tier == 'quick' else range(52)
    for k in ks:
        t += '//@ opt fp=fp deadline=60\n//@ pre: (bits(x) & %s) >= 1ull << %d && (bits(x) & %s) < 1ull << %d\ndouble t_ldexp_s%d(double x, int n){ return ldexp(x, n); }\n' % (M, k, M, k + 1, k)
    return t
def trans(tier):
    t = '#ifdef __WCPL__\n#include <math.h>\n#include <stdint.h>\n#include <sys/intrs.h>\n#else\n' + open(HERE + '/corpus/fdlibm.h').read()
    one = 'log log10 exp expm1 sin cos tan asin acos atan sinh cosh tanh'.split()
    for f in one + ['pow', 'atan2', 'fmod']: t += '#define %s ieee754_%s\n' % (f, f)
    t += '#endif\n'
    for f in one:
        t += '//@ pre: ((_dasull(x) & %s) >= 0x7ff0000000000000ull && (_dasull(x) << 20) == 0) || (_dasull(x) & %s) == 0%s\ndouble t_%s_sp(double x){ return %s(x); }\n' % (M, M, ' || (_dasull(x) & %s) == 0x3ff0000000000000ull' % M if f in ('asin', 'acos') else '', f, f)
        E = lambda lo, hi: '(_dasull(x) & %s) >> 52 >= 0x%xull && (_dasull(x) & %s) >> 52 < 0x%xull' % (M, lo, M, hi)
        if f in ('sin', 'cos', 'tan'):
            for i, (lo, hi) in enumerate([(0, 0x3fe921fc), (0x3fe921fb, 0x4002d97c)]):
                t += '//@ opt deadline=40\n//@ pre: (_dasull(x) & %s) >> 32 >= 0x%xull && (_dasull(x) & %s) >> 32 < 0x%xull\ndouble t_%s_%d(double x){ return %s(x); }\n' % (M, lo, M, hi, f, i, f)
        elif f in ('asin', 'acos'): t += '//@ opt deadline=40\n//@ pre: %s\ndouble t_%s_lo(double x){ return %s(x); }\n' % (E(0x3e5, 0x3fe), f, f)
        elif f in ('log', 'log10', 'atan'): t += '//@ opt deadline=40\ndouble t_%s(double x){ return %s(x); }\n' % (f, f)
        else:
            for lo, hi in ([(0x3f0, 0x3f1), (0x3fe, 0x3ff)] if tier == 'quick' else [(0x3f0, 0x3f1), (0x3fe, 0x3ff), (0x401, 0x402), (0x406, 0x407), (0x408, 0x409)]):
                if lo != 0x3f0 and f == 'tanh': continue
                for s in (0, 1): t += '//@ opt deadline=%d\n//@ pre: %s && (_dasull(x) >> 63) == %d\ndouble t_%s_%x%s(double x){ return %s(x); }\n' % (40 if lo < 0x400 else 200, E(lo, hi), s, f, lo, 'pn'[s], f)
        for h in THR.get(f, []):
            if tier == 'quick' and (f, h) in SLOW: continue
            for s in (0, 1): t += '//@ opt deadline=%d\n//@ pre: (_dasull(x) >> 32) >= 0x%xull && (_dasull(x) >> 32) <= 0x%xull\ndouble t_%s_h%x%s(double x){ return %s(x); }\n' % (60 if tier == 'quick' else 200, h - 1 | s << 31, h + 1 | s << 31, f, h, 'pn'[s], f)
    t += '//@ opt deadline=60\ndouble t_atan2(double x, double y){ return atan2(x, y); }\n'
    e = lambda v: '(int)(_dasull(%s) >> 52 & 0x7ff)' % v
    t += '//@ opt deadline=60\n//@ pre: %s == 1023 && %s == 1023\ndouble t_fmod_0(double x, double y){ return fmod(x, y); }\n' % (e('x'), e('y'))
    for k, y in enumerate([1.0, 3.0, 0.7, 1e10, 5e-324, 2.2250738585072014e-308, 2.5e-310, 1.7e308, -1.0, -4.75]):
        u = struct.unpack('<Q', struct.pack('<d', y))[0]; ey = u >> 52 & 0x7ff
        for d in ([0, 1, 2] if tier == 'quick' else range(6)):
            if ey == 0: continue
            if ey + d < 2047: t += '//@ opt deadline=60\n//@ pre: %s == %d && _dasull(y) == 0x%xull\ndouble t_fmod_y%d_%d(double x, double y){ return fmod(x, y); }\n' % (e('x'), ey + d, u, k, d)
            if ey + d < 2047 and ey > d: t += '//@ opt deadline=60\n//@ pre: %s == %d && _dasull(x) == 0x%xull\ndouble t_fmod_x%d_%d(double x, double y){ return fmod(x, y); }\n' % (e('y'), ey - d, u, k, d)
    for a, b in ([(16, 8), (64, 4)] if tier == 'quick' else [(16, 16), (64, 8), (256, 8)]): t += '//@ opt deadline=60\n//@ pre: (_dasull(x) & %s) < %d && (_dasull(y) & %s) < %d\ndouble t_fmod_sub%d(double x, double y){ return fmod(x, y); }\n' % (M, a, M, b, a)
    e = lambda v: '(int)(_dasull(%s) >> 52 & 0x7ff)' % v
    t += '//@ pre: %s == 0x7ff || %s == 0x7ff || (_dasull(y) & %s) == 0\ndouble t_fmod_sp(double x, double y){ return fmod(x, y); }\n' % (e('x'), e('y'), M)
    t += '//@ pre: (_dasull(y) & %s) == 0 || (_dasull(x) & %s) > 0x7ff0000000000000ull || (_dasull(y) & %s) > 0x7ff0000000000000ull || _dasull(y) == 0x3ff0000000000000ull\ndouble t_pow_sp(double x, double y){ return pow(x, y); }\n' % (M, M, M)
    t += '//@ pre: (_dasull(x) & 0xfffffffffffffull) == 0 && ((_dasull(x) & %s) >= 0x7ff0000000000000ull || (_dasull(x) & %s) == 0 || (_dasull(x) & %s) == 0x3ff0000000000000ull)\ndouble t_pow_sp2(double x, double y){ return pow(x, y); }\n' % (M, M, M)
    t += '//@ opt deadline=40\n//@ pre: (_dasull(y) & %s) >> 32 >= 0x43f00001ull\ndouble t_pow_huge(double x, double y){ return pow(x, y); }\n' % M
    for lo, hi in [(0x41e00001, 0x41e00010), (0x42f00000, 0x42f0000f), (0x43400000, 0x4340000f)]:
        for xh in (0xbfe00000, 0xc0000000, 0x3fe00000, 0x40000000): t += '//@ opt deadline=60\n//@ pre: (_dasull(y) & %s) >> 32 >= 0x%xull && (_dasull(y) & %s) >> 32 < 0x%xull && _dasull(x) >> 32 == 0x%xull\ndouble t_pow_odd_%x_%x(double x, double y){ return pow(x, y); }\n' % (M, lo, M, hi, xh, lo, xh)
    return t
