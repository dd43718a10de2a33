"""Generator of the assignment corpora (C02): =, op=, ++, -- on every kind of lvalue and every arithmetic type."""
import re
from gen_expr import *
OPS = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'rem': '%', 'and': '&', 'or': '|', 'xor': '^', 'shl': '<<', 'shr': '>>'}
# kind: (extra params, annotations, setup, lvalue, readback)
def kinds(T, s):
    return {
        'loc': ('', [], '%s x = a;' % T, 'x', 'x'),
        'par': ('', [], '', 'a', 'a'),
        'glo': ('', [], 'g_%s = a;' % s, 'g_%s' % s, 'g_%s' % s),
        'ptr': (', %s *p' % T, ['buf p=8'], '*p = a;', '*p', '*p'),
        'idx': (', %s *p, int i' % T, ['buf p=32', 'val i=0..3'], 'p[i] = a;', 'p[i]', 'p[i]'),
        'mem': (', struct S_%s *p' % s, ['buf p=32'], 'p->b = a;', 'p->b', 'p->b'),
        'lst': (', int i', [], 'struct S_%s v; v.a = (char)i; v.b = a; v.c = (short)i;' % s, 'v.b', 'v.b + v.a - v.c'),
        'gst': ('', [], 'gs_%s.b = a;' % s, 'gs_%s.b' % s, 'gs_%s.b' % s),
        'lar': (', int i', ['val i=0..3'], '%s v[4]; v[i] = a; v[3-i] = a;' % T, 'v[i]', 'v[i]'),
        'gar': (', int i', ['val i=0..3'], 'ga_%s[i] = a;' % s, 'ga_%s[i]' % s, 'ga_%s[i]' % s),
        'unp': (', union U_%s *p' % s, ['buf p=16'], 'p->v = a;', 'p->v', 'p->v'),
        'seq': (', %s *p' % T, ['buf p=32'], 'p[0] = a; p[1] = a;', '*p++', 'p[0]'),
        'pre': (', %s *p' % T, ['buf p=32'], 'p[0] = a; p[1] = a;', '*++p', 'p[0]'),
    }
def head(types=TYPES):
    o = [HEAD]
    for T in types:
        s = SH[T]
        o.append('struct S_%s { char a; %s b; short c; };' % (s, T) if True else '')
        o.append('union U_%s { char c[2]; %s v; };' % (s, T))
        o.append('%s g_%s; struct S_%s gs_%s; %s ga_%s[4];' % (T, s, s, s, T, s))
    t = '\n'.join(o) + '\n'
    return re_lst(t, types)
def re_lst(t, types):
    return t
def narrow(T, R): return '' if T == R else '(%s)' % T
NARROW = ('bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short')
def wide(T, k): return T in NARROW and k in ('loc', 'par', 'glo')   # narrow scalars kept in registers take no cast
def strict(p, r='double'): # the boundary values are left to C01
    if p and r == 'float': p = re.sub(r'(\d+\.0)', r'\1f', p)
    return p and re.sub(r'> -1\.0', '>= 0.0', re.sub(r'>= -(\d+)', r'> -\1', p.replace('-2147483649.0', '-2147483648.0')))
def pre_of(op, T, U, x='a', y='b'):
    r = usual(T, U)
    if op in ('div', 'rem'): p = div_pre(T, U, x, y)
    elif op in ('shl', 'shr'): p = ('%s >= 0 && ' % y if signed(U) else '') + '%s < %d' % (y, width(promote(T))); r = promote(T)
    else: p = None
    if isf(r) and not isf(T):
        q = strict(cast_pre(r, T, '((%s)%s %s %s)' % (r, x, OPS[op], y)) if op in OPS else cast_pre(r, T, y), r)
        p = '%s && %s' % (p, q) if p and q else p or q
    return p, r
def gen(types=TYPES, rhs=None, kindsel=None, ops=OPS):
    w = []; r = []
    for T in types:
        s = SH[T]; K = kinds(T, s)
        for k, (ep, ann, setup, lv, rb) in K.items():
            if kindsel and k not in kindsel: continue
            if k == 'lst': rb = 'v.b'
            for U in (rhs(T, k) if rhs else TYPES):
                # plain assignment
                items = []
                p = strict(cast_pre(U, T, 'b'), U)
                c = '' if T == U else '(%s)' % T
                items.append(('asn', '%s = %sb' % (lv, c), '%s = %sb' % (lv, c), p, [(U, 'b')]))
                for o, sym in ops.items():
                    if (k not in ('loc', 'ptr', 'mem', 'par', 'glo') and o in ('mul', 'div', 'rem')): continue
                    if o in ('rem', 'and', 'or', 'xor', 'shl', 'shr') and (isf(T) or isf(U)): continue
                    if isf(U) and not isf(T) and width(T) < 32 and not (o == 'add' and k in ('loc', 'ptr') and U == 'float'): continue
                    p, R = pre_of(o, T, U)
                    items.append((o, '%s%s %s= b' % ('' if wide(T, k) else narrow(T, R), lv, sym), '%s %s= b' % (lv, sym), p, [(U, 'b')]))
                for n, ew, er, p, ps in items:
                    nm = 't_%s_%s_%s_%s' % (k, n, s, SH[U])
                    emit(w, r, nm, T, k, ep, ann, setup, rb, ew, er, p, ps)
            # ++ --
            R = usual(T, 'int'); nc = '' if T == R or wide(T, k) else '(%s)' % T
            for n, o, post in (('preinc', '++', 0), ('predec', '--', 0), ('postinc', '++', 1), ('postdec', '--', 1)):
                if T == 'bool': continue
                if k in ('seq', 'pre', 'ptr') and not (k == 'ptr' and nc): lvw = '(%s)' % lv
                else: lvw = lv
                if nc: ew = ('(%s%s)%s' % (nc, lvw, o)) if post else '%s(%s%s)' % (o, nc, lvw)
                else: ew = lvw + o if post else o + lvw
                er = '(%s)%s' % (lv, o) if post else '%s(%s)' % (o, lv)
                emit(w, r, 't_%s_%s_%s' % (k, n, s), T, k, ep, ann, setup, rb, ew, er, None, [])
    return w, r
def emit(w, r, nm, T, k, ep, ann, setup, rb, ew, er, p, ps):
    hd = ['//@ ' + a for a in ann] + ['//@ buf o=16']
    if p: hd.append('//@ pre: ' + p)
    V = T if isf(T) else 'long long'; c = '' if T == V else '(%s)' % V   # the value seen by a wider context
    sig = '%s %s(%s, %s%s){' % (V, nm, ', '.join(['%s a' % T] + ['%s %s' % x for x in ps]), '%s *o' % V, ep)
    for dst, e in ((w, ew), (r, er)):
        dst += hd + [sig, '  %s' % setup, '  %s y = %s(%s);' % (V, c, e), '  *o = %s(%s);' % (c, rb), '  return y;', '}', '']
