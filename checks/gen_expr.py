"""Generator of the expression corpora (C01): every operator over every pair of arithmetic operand types."""
TYPES = ['bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double']
SH = {'bool': 'b', 'char': 'c', 'signed char': 'sc', 'unsigned char': 'uc', 'short': 's', 'unsigned short': 'us', 'int': 'i', 'unsigned': 'u', 'long': 'l', 'unsigned long': 'ul', 'long long': 'll', 'unsigned long long': 'ull', 'float': 'f', 'double': 'd'}
RANK = {'int': 0, 'unsigned': 0, 'long': 1, 'unsigned long': 1, 'long long': 2, 'unsigned long long': 2}
def promote(t): return 'int' if t in ('bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short') else t
def isf(t): return t in ('float', 'double')
def isu(t): return t.startswith('unsigned')
def width(t): return {'bool': 8, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned': 32, 'long': 32, 'unsigned long': 32, 'long long': 64, 'unsigned long long': 64, 'float': 32, 'double': 64}[t]
def signed(t): return not isu(t) and t != 'bool'
def usual(a, b):
    if 'double' in (a, b): return 'double'
    if 'float' in (a, b): return 'float'
    a, b = promote(a), promote(b)
    if a == b: return a
    if isu(a) == isu(b): return a if RANK[a] >= RANK[b] else b
    u, s = (a, b) if isu(a) else (b, a)
    if RANK[u] >= RANK[s]: return u
    if width(s) > width(u): return s
    return 'unsigned ' + s
ARITH = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
INTOP = {'rem': '%', 'and': '&', 'or': '|', 'xor': '^'}
SHIFT = {'shl': '<<', 'shr': '>>'}
CMP = {'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}
LOG = {'land': '&&', 'lor': '||'}
def fn(out, ret, name, params, expr, pre=None):
    if pre: out.append('//@ pre: ' + pre)
    out.append('%s t_%s(%s){ return %s; }' % (ret, name, ', '.join('%s %s' % p for p in params), expr))
    out.append('')
def div_pre(a, b, x='a', y='b'):
    r = usual(a, b)
    if isf(r): return None
    p = '%s != 0' % y
    if not isu(r):
        mn = '(-2147483647-1)' if width(r) == 32 else '(-9223372036854775807LL-1)'
        p += ' && !((%s)%s == %s && (%s)%s == -1)' % (r, x, mn, r, y)
    return p
def binary(types=TYPES):
    out = []
    for a in types:
        for b in types:
            r = usual(a, b); sfx = SH[a] + '_' + SH[b]; ps = [(a, 'a'), (b, 'b')]
            for n, o in ARITH.items(): fn(out, r, n + '_' + sfx, ps, 'a %s b' % o, div_pre(a, b) if n == 'div' else None)
            if not isf(a) and not isf(b):
                for n, o in INTOP.items(): fn(out, r, n + '_' + sfx, ps, 'a %s b' % o, div_pre(a, b) if n == 'rem' else None)
                pr = promote(a)
                for n, o in SHIFT.items():
                    fn(out, pr, n + '_' + sfx, ps, 'a %s b' % o, ('b >= 0 && ' if signed(b) else '') + 'b < %d' % width(pr))
            for n, o in CMP.items(): fn(out, 'int', n + '_' + sfx, ps, 'a %s b' % o)
            for n, o in LOG.items(): fn(out, 'int', n + '_' + sfx, ps, 'a %s b' % o)
    return out
def cast_pre(a, t, x='a'):
    """float -> integer conversions are undefined outside the target range"""
    if isf(a) and not isf(t) and t != 'bool':
        w = width(t)
        if isu(t): return '%s > -1.0 && %s < %s.0' % (x, x, 1 << w)
        if w == 64 or a == 'float' and w == 32: return '%s >= -%d.0 && %s < %d.0' % (x, 1 << (w-1), x, 1 << (w-1))
        return '%s > -%d.0 && %s < %d.0' % (x, (1 << (w-1)) + 1, x, 1 << (w-1))
    return None
def unary(types=TYPES):
    out = []
    for a in types:
        p = [(a, 'a')]; pr = promote(a)
        fn(out, pr, 'neg_' + SH[a], p, '-a'); fn(out, pr, 'plus_' + SH[a], p, '+a'); fn(out, 'int', 'lnot_' + SH[a], p, '!a')
        fn(out, 'int', 'lnot2_' + SH[a], p, '!!a')
        if not isf(a): fn(out, pr, 'bnot_' + SH[a], p, '~a')
        fn(out, 'int', 'szof_' + SH[a], p, '(int)sizeof(a) + (int)(sizeof(-a)*16)' if True else '')
        for t in types:
            fn(out, t, 'cast_%s_%s' % (SH[a], SH[t]), p, '(%s)a' % t, cast_pre(a, t))
    return out
def cond(types=TYPES):
    out = []
    for a in types:
        for b in types:
            r = usual(a, b)
            fn(out, r, 'cond_%s_%s' % (SH[a], SH[b]), [('int', 'c'), (a, 'a'), (b, 'b')], 'c ? a : b')
        fn(out, 'int', 'condt_%s' % SH[a], [(a, 'a')], 'a ? 17 : -3')
    return out
HEAD = '#ifdef __WCPL__\n#include <stdbool.h>\n#include <stddef.h>\n#else\n#include <stdbool.h>\n#include <stddef.h>\n#endif\n'
