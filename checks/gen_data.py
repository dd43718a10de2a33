"""Random aggregate types, static initialisers and accesses to them (C04)."""
import random
SC = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'long long', 'unsigned long long', 'float', 'double']
SZ = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned': 4, 'long': 4, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8}
class T: pass
def sc(n): t = T(); t.k = 's'; t.n = n; t.size = t.al = SZ[n]; return t
def arr(e, n): t = T(); t.k = 'a'; t.e = e; t.len = n; t.size = e.size * n; t.al = e.al; return t
def rnd(x, a): return (x + a - 1) // a * a
def agg(name, kind, ms):
    t = T(); t.k = kind; t.n = '%s %s' % ('struct' if kind == 'r' else 'union', name); t.ms = ms; o = 0; t.al = 1
    for n, m in ms:
        t.al = max(t.al, m.al); o = rnd(o, m.al) + m.size if kind == 'r' else max(o, m.size)
    t.size = rnd(o, t.al); return t
def decl(t, n):
    d = ''
    while t.k == 'a': d += '[%d]' % t.len; t = t.e
    return '%s %s%s' % (t.n, n, d)
class G:
    def __init__(s, seed): s.r = random.Random(seed); s.types = []; s.out = []; s.idx = 0
    def ty(s, d, small=False):
        x = s.r.random()
        if d and x < 0.25: return arr(s.ty(d - 1), s.r.choice([2, 3, 4]))
        if d and x < 0.45 and s.types: return s.r.choice(s.types)
        return sc(s.r.choice(SC))
    def lit(s, t):
        r = s.r; n = t.n
        if n in ('float', 'double'): v = r.choice(['0.5', '-1.25', '3.0', '1e10', '-0.0', '255.75']); return v + ('f' if n == 'float' else '')
        b = SZ[n] * 8
        if 'unsigned' in n:
            v = r.choice([0, 1, (1 << b) - 1, 1 << (b - 1), r.getrandbits(b)])
            return '%d%s' % (v, 'ULL' if b == 64 else 'u' if b == 32 else '')
        v = r.choice([0, 1, -1, (1 << (b-1)) - 1, r.getrandbits(b - 1), -r.getrandbits(b - 1)])
        return '%d%s' % (v, 'LL' if b == 64 else '')
    def init(s, t):
        if t.k == 's': return s.lit(t)
        if t.k == 'a':
            n = t.len if s.r.random() < 0.6 else s.r.randint(1, t.len)
            if t.e.k == 's' and t.e.n == 'char' and s.r.random() < 0.6: return '"%s"' % 'abcdefgh'[:s.r.randint(0, t.len - 1)]
            return '{ %s }' % ', '.join(s.init(t.e) for _ in range(n))
        ms = t.ms if t.k == 'r' else t.ms[:1]
        n = len(ms)
        return '{ %s }' % ', '.join(s.init(m) for _, m in ms[:n])
    def path(s, t, e, idx):
        """random access path from expression e of type t down to a scalar or aggregate"""
        while t.k != 's':
            if t.k == 'a':
                if s.r.random() < 0.7: v = 'i%d' % len(idx); idx.append((v, t.len)); e = '%s[%s]' % (e, v)
                else: e = '%s[%d]' % (e, s.r.randrange(t.len))
                t = t.e
            else:
                if idx is not None and e != '(*p)' and s.r.random() < 0.08: break
                n, m = s.r.choice(t.ms); e = ('p->%s' % n) if e == '(*p)' else '%s.%s' % (e, n); t = m
        return t, e
    def sig(s, idx): return ''.join(', int %s' % v for v, _ in idx)
    def ann(s, idx): return ''.join('//@ val %s=0..%d\n' % (v, n - 1) for v, n in idx)
    def wexpr(s, t, v='v'): return '(%s)%s' % (t.n, v)
def gen(seed, ntypes=7, nfun=10):
    g = G(seed); o = []; fi = 0
    for k in range(ntypes):
        while 1:
            kind = 'u' if g.r.random() < 0.2 else 'r'
            t = agg('S%d' % k, kind, [('m%d' % j, g.ty(2)) for j in range(g.r.randint(2, 5))])
            if t.size <= 160: break
        o.append('%s { %s };' % (t.n, ' '.join(decl(m, n) + ';' for n, m in t.ms)))
        g.types.append(t)
    for k, t in enumerate(g.types):
        o.append('%s g%d = %s;' % (t.n, k, g.init(t)))
        o.append('%s h%d[3] = %s;' % (t.n, k, g.init(arr(t, 3))))
        o.append('%s z%d;' % (t.n, k))
    for k, t in enumerate(g.types):
        o.append('//@ opt paths=50\nint t_sz%d(int k){ return (int)(k == 0 ? sizeof(%s) : k == 1 ? sizeof(h%d)%s : 0); }' % (k, t.n, k, ''.join(' : k == %d ? offsetof(%s, %s)' % (j + 2, t.n, n) for j, (n, _) in enumerate(t.ms))))
        for j in range(nfun):
            x = g.r.random(); idx = []
            if x < 0.3:
                u, e = g.path(t, '(*p)', idx)
                if u.k != 's': o.append('//@ buf p=%d q=%d\n%svoid t_c%d_%d(%s *p, %s *q%s){ *q = %s; }' % (t.size, u.size, g.ann(idx), k, j, t.n, u.n, g.sig(idx), e))
                else: o.append('//@ buf p=%d\n%s%s t_r%d_%d(%s *p%s){ return %s; }' % (t.size, g.ann(idx), u.n, k, j, t.n, g.sig(idx), e))
            elif x < 0.5:
                u, e = g.path(t, '(*p)', idx)
                if u.k != 's': o.append('//@ buf p=%d q=%d\n%svoid t_d%d_%d(%s *p, %s *q%s){ %s = *q; }' % (t.size, u.size, g.ann(idx), k, j, t.n, u.n, g.sig(idx), e))
                else: o.append('//@ buf p=%d\n%svoid t_w%d_%d(%s *p%s, %s v){ %s = v; }' % (t.size, g.ann(idx), k, j, t.n, g.sig(idx), u.n, e))
            elif x < 0.8:
                b, bt = g.r.choice([('g%d' % k, t), ('h%d' % k, arr(t, 3)), ('h%d' % k, arr(t, 3))])
                u, e = g.path(bt, b, idx)
                if u.k != 's': continue
                o.append('%s%s t_g%d_%d(%s){ return %s; }' % (g.ann(idx), u.n, k, j, g.sig(idx)[2:] or 'void', e))
            else:
                u, e = g.path(t, 'l', idx)
                if u.k != 's': continue
                o.append('//@ buf p=%d\n%s%s t_l%d_%d(%s *p%s, %s v){ %s l; l = *p; %s; %s a[2]; a[0] = *p; a[1] = l; *p = a[1]; return %s; }' % (
                    t.size, g.ann(idx), u.n, k, j, t.n, g.sig(idx), u.n, t.n, '%s = (%s)(%s + v)' % (e, u.n, e), t.n, e.replace('l.', 'a[1].', 1)))
    return '#include <stddef.h>\n' + '\n'.join(o) + '\n'
def layouts():
    """sizes and offsets for every ordered pair (and many triples) of member types, in structures and unions"""
    M = ['char m', 'short m', 'int m', 'long long m', 'double m', 'char m[3]', 'short m[3]', 'char m[9]', 'int m[3]', 'char *m', 'struct I m', 'union J m', 'float m[2]']
    o = ['#include <stddef.h>', 'struct I { short a; char b; };', 'union J { char c[5]; int i; };']; n = 0; body = []
    def put(kind, ms):
        nonlocal n
        nm = '%s L%d' % (kind, n); n += 1
        o.append('%s { %s };' % (nm, ' '.join(m.replace('m', 'm%d' % i, 1) + ';' if 'struct' not in m and 'union' not in m else m[:-1] + 'm%d;' % i for i, m in enumerate(ms))))
        body.append(['sizeof(%s)' % nm, 'sizeof(struct { char c; %s x; })' % nm if 0 else 'sizeof(%s[3])' % nm] + ['offsetof(%s, m%d)' % (nm, i) for i in range(len(ms))])
    for a in M:
        for b in M: put('struct', [a, b]); put('union', [a, b])
    r = random.Random('lay')
    for _ in range(60): put('struct', ['char m'] + r.choices(M, k=r.randint(2, 4))); put('union', r.choices(M, k=3))
    c = 0
    for i in range(0, len(body), 20):
        es = [e for b in body[i:i + 20] for e in b]
        o.append('//@ buf p=%d\nvoid t_lay%d(int *p){ %s }' % (4 * len(es), c, ' '.join('p[%d] = (int)%s;' % x for x in enumerate(es)))); c += 1
    for k in range(n // 4):
        o.append('struct W%d { char c; %s L%d x; char d; };' % (k, 'union' if k % 2 else 'struct', k))
    o.append('//@ buf p=%d\nvoid t_wrap(int *p){ %s }' % (8 * (n // 4), ' '.join('p[%d] = (int)sizeof(struct W%d); p[%d] = (int)offsetof(struct W%d, x);' % (2 * k, k, 2 * k + 1, k) for k in range(n // 4))))
    return '\n'.join(o) + '\n'
if __name__ == '__main__':
    import sys; print(gen(sys.argv[1]))
