"""Random call signatures (C05): fixed and variadic calls with symbolic arguments of every type, direct and through pointers."""
import random
TY = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'bool']
FL = ('float', 'double')
VA = {'int': 'i', 'unsigned': 'u', 'long': 'l', 'unsigned long': 'm', 'long long': 'L', 'unsigned long long': 'M', 'double': 'd'}
PROM = lambda t: 'double' if t == 'float' else 'int' if t in ('char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'bool') else t
HEAD = '''#include <stdarg.h>
#include <stdbool.h>
unsigned long long mixd(double d){ union { double d; unsigned long long u; } v; v.d = d; return v.u != v.u ? 0 : v.u; }
char *probe(void){ char b[24]; b[0] = 1; return &b[0]; }
unsigned long long va(const char *f, ...){ va_list ap; unsigned long long s = 0; va_start(ap, f);
  for (; *f; ++f) { s = (s << 5) | (s >> 59); switch (*f) {
    case 'i': s ^= (unsigned long long)va_arg(ap, int); break; case 'u': s ^= va_arg(ap, unsigned); break;
    case 'l': s ^= (unsigned long long)va_arg(ap, long); break; case 'm': s ^= va_arg(ap, unsigned long); break;
    case 'L': s ^= (unsigned long long)va_arg(ap, long long); break; case 'M': s ^= va_arg(ap, unsigned long long); break;
    case 'd': { double d = va_arg(ap, double); s ^= d > 1.0 ? 3 : d < -1.0 ? 5 : 7; break; } } }
  va_end(ap); return s; }
'''
def gen(n, seed):
    r = random.Random('calls%s' % seed); o = [HEAD]
    for k in range(n):
        np = r.choice([1, 2, 3, 4, 5, 7, 9]); ts = [r.choice(TY) for _ in range(np)]; R = r.choice(TY)
        ps = ', '.join('%s p%d' % x for x in zip(ts, range(np)))
        acc = ' '.join('s = ((s << 5) | (s >> 59)) ^ %s;' % ('(p%d > 1 ? 3 : p%d < -1 ? 5 : 7)' % (i, i) if t in FL else '(unsigned long long)p%d' % i) for i, t in enumerate(ts))
        loc = ' int loc[%d]; loc[%d] = 3; s += loc[%d];' % (r.randint(1, 9), 0, 0) if r.random() < 0.5 else ''
        ret = '(%s)(int)(s & 1023)' % R if R in FL else 's != 0' if R == 'bool' else '(%s)s' % R
        o.append('%s f%d(%s){ unsigned long long s = 7;%s %s return %s; }' % (R, k, ps, loc, acc, ret))
        perm = list(range(np)); r.shuffle(perm)
        ps2 = ', '.join('%s p%d' % (ts[i], i) for i in perm)
        args = ', '.join('p%d' % i for i in range(np))
        how = r.random()
        if how < 0.4: call = 'f%d(%s)' % (k, args); pre = ''
        elif how < 0.7: pre = '%s (*fp)(%s) = &f%d; ' % (R, ', '.join(ts), k); call = '(*fp)(%s)' % args
        else:
            pre = 'unsigned long long w = 0; for (int i = 0; i < 2; ++i) { w = (w << 1) ^ (unsigned long long)(%sf%d(%s)); } ' % ('(int)' if R in FL else '', k, args); call = '(%s)(w & 63)' % R if R not in FL else '(%s)(int)(w & 63)' % R
            if R == 'bool': call = 'w > 5'
        o.append('%s t_c%d(%s){ %sreturn %s; }' % (R, k, ps2, pre, call))
        va = [PROM(t) for t in ts]
        vc = 'va("%s", %s)' % (''.join(VA[t] for t in va), args); ind = r.random() < 0.5
        if ind: vc = '(*vf)' + vc[2:]
        if r.random() < 0.3: vc = 'va("Mi", %s, 3) ^ %s' % (vc, vc)
        o.append('int t_v%d(%s){ %schar *q = probe(); unsigned long long s = %s; return (int)(s ^ (s >> 32)) * 2 + (q == probe()); }' % (k, ps, 'unsigned long long (*vf)(const char *f, ...) = &va; ' if ind or 'vf' in vc else '', vc))
    return '\n'.join(o) + '\n'
