"""Programs of several modules (C08): the same names used as statics in every module, cross-module calls, data, globals and address initialisers."""
import random
TY = ['int', 'unsigned', 'char', 'unsigned char', 'short', 'long long', 'double', 'float']
INTS = ['int', 'unsigned', 'char', 'unsigned char', 'short', 'long long']
def val(r, t):
    if t in ('double', 'float'): return r.choice(['1.5', '0.25', '-3.0', '1024.0', '-0.125'])
    return str(r.randint(-100, 100) if t in ('int', 'short', 'long long', 'char') and t != 'char' else r.randint(0, 120))
def gen(seed, nmod=3):
    r = random.Random('link/%s' % seed); mods = ['ma', 'mb', 'mc', 'md'][:nmod]; files = {}; ref = []; main = []; cases = []
    pub = {}    # module -> [(kind, name, type, n)]
    for i, m in enumerate(mods):
        P = []
        for j in range(r.choice([2, 3])):
            t = r.choice(TY); n = r.choice([1, 2, 3, 5, 7])
            P.append(('arr', '%s_arr%d' % (m, j), t, n))
        for j in range(2): P.append(('glo', '%s_g%d' % (m, j), r.choice(['int', 'unsigned', 'long long', 'double']), 1))
        P.append(('str', '%s_s' % m, 'char', 8))
        for j in range(3): P.append(('fun', '%s_f%d' % (m, j), 'int', 0))
        pub[m] = P
    def decl(k, n, t, c):
        return {'arr': 'extern %s %s[%d];' % (t, n, c), 'glo': 'extern %s %s;' % (t, n), 'str': 'extern char %s[%d];' % (n, c), 'fun': 'extern int %s(int a, int b);' % n}[k]
    for i, m in enumerate(mods): files[m + '.h'] = '#pragma once\n#pragma module "%s"\n' % m + '\n'.join(decl(*p) for p in pub[m]) + '\n'
    hdr = '\n'.join(decl(*p) for m in mods for p in pub[m]) + '\n'
    S = lambda m, n: '@%s@%s@' % (m, n)          # module-local name
    strs = ['abc', 'abcd', '', 'x', 'abc', 'hello', 'bc']
    for i, m in enumerate(mods):
        others = [x for x in mods if x != m]; T = []
        # statics with the same names in every module, same and different contents
        t = r.choice(TY); n = r.choice([2, 3, 5])
        T.append('static %s %s[%d] = { %s };' % (t, S(m, 'tab'), n, ', '.join(val(r, t) for _ in range(n)))); tabn = n
        T.append('static int %s = %d;' % (S(m, 'cnt'), r.randint(-9, 9)))
        T.append('static const char *%s[3] = { "%s", "%s", "%s" };' % (S(m, 'nam'), *[r.choice(strs) for _ in range(3)]))
        T.append('static const int %s[3] = { 1, 2, %d };' % (S(m, 'ro'), r.choice([3, 3, 4])))
        T.append('struct %s { char c; %s v; int *p; };' % (S(m, 'st'), r.choice(TY)))
        ints = [p for q in mods for p in pub[q] if p[0] == 'arr' and p[2] == 'int']
        T.append('static int %s(int a, int b){ return a * %d + b; }' % (S(m, 'hlp'), r.choice([2, 4, 8])))
        for k, nme, t, c in pub[m]:
            if k == 'arr': T.append('%s %s[%d]%s;' % (t, nme, c, ' = { %s }' % ', '.join(val(r, t) for _ in range(c)) if r.random() < 0.7 else ''))
            elif k == 'glo': T.append('%s %s%s;' % (t, nme, ' = ' + val(r, t) if r.random() < 0.7 else ''))
            elif k == 'str': T.append('char %s[%d] = "%s";' % (nme, c, r.choice(strs)))
        fs = [p[1] for q in mods for p in pub[q] if p[0] == 'fun']
        T.append('static int (*%s)(int a, int b) = &%s;' % (S(m, 'op'), r.choice([S(m, 'hlp')] + [f for f in fs if f.endswith('f0')])))
        ip = r.choice(ints)[1] if ints else None
        T.append('static struct %s %s = { \'q\', %s, %s };' % (S(m, 'st'), S(m, 'one'), '5', '&%s[0]' % ip if ip else 'NULL'))
        allp = [p for q in mods for p in pub[q]]
        def expr():
            x = r.random(); k, nme, t, c = r.choice([p for p in allp if p[0] in ('arr', 'glo', 'str')])
            if x < 0.45:
                if k == 'glo': return '(int)%s' % nme
                if t in ('double', 'float'): return '(int)%s[%d]' % (nme, r.randrange(c))
                return '(int)%s[(unsigned)(a + %d) %% %du]' % (nme, r.randrange(4), c)
            return r.choice(['(int)%s[%d]' % (S(m, 'tab'), r.randrange(tabn)), S(m, 'cnt'), '%s[(unsigned)b %% 3u]' % S(m, 'ro'), '(int)%s[%d][0]' % (S(m, 'nam'), r.randrange(3)), '(int)%s.v + %s.c' % (S(m, 'one'), S(m, 'one'))])
        def stm():
            x = r.random(); k, nme, t, c = r.choice([p for p in allp if p[0] in ('arr', 'glo', 'str')])
            cast = '' if t in ('double', 'long long') else '(%s)' % t
            if x < 0.35:
                lv = nme if k == 'glo' else '%s[%d]' % (nme, r.randrange(c))
                return '  %s = %s(a & 1023);' % (lv, '(%s)' % t)
            if x < 0.5: return '  %s += b;' % S(m, 'cnt')
            if x < 0.6: return '  %s[%d] = (%s)(b & 63);' % (S(m, 'tab'), r.randrange(tabn), [l for l in T[0].split() if 1] and T[0].split(' @')[0][7:])
            if x < 0.7 and ip: return '  %s.p[0] = a;' % S(m, 'one')
            return '  %s.c += (char)1;' % S(m, 'one')
        for j in range(3):
            nme = '%s_f%d' % (m, j); body = [stm() for _ in range(r.choice([1, 2, 3]))] if j else []
            e = ' + '.join(expr() for _ in range(3))
            if j == 1: e += ' + (*%s)(a, b)' % S(m, 'op')
            if j == 2 and others: e += ' + %s(b, a)' % r.choice(['%s_f1' % q for q in others] + [S(m, 'hlp')])
            if j == 0: e += ' + %s(a, %d)' % (S(m, 'hlp'), j)
            T += ['int %s(int a, int b){' % nme] + body + ['  return (int)((unsigned)(%s) + 0u);' % e, '}']
        txt = '\n'.join(T) + '\n'
        import re
        wt = re.sub(r'@(\w+)@(\w+)@', r'\2', txt); rt = re.sub(r'@(\w+)@(\w+)@', r'\1__\2', txt)
        files[m + '.c'] = '#include <stddef.h>\n' + ''.join('#include "%s.h"\n' % q for q in mods) + wt
        ref.append(rt)
    # cases: sequences of calls and the state seen afterwards
    dump = ['static void dump(long long *p){']; n = 1
    for q in mods:
        for k, nme, t, c in pub[q]:
            if k == 'glo': dump.append('  p[%d] = (long long)%s;' % (n, nme)); n += 1
            elif k in ('arr', 'str'):
                for x in range(c): dump.append('  p[%d] = (long long)%s[%d];' % (n, nme, x)); n += 1
    dump += ['}']
    fs = [p[1] for q in mods for p in pub[q] if p[0] == 'fun']
    cs = []; an = '//@ buf p=%d\n' % (8 * n)
    for i, f in enumerate(fs): cs.append(an + 'int t_l%s_%s(int a, int b, long long *p){ int x = %s(a, b); dump(p); return x; }' % (seed, f, f))
    for i in range(8):
        q = [r.choice(fs) for _ in range(r.choice([2, 3]))]
        cs.append(an + 'int t_l%s_q%d(int a, int b, long long *p){ int x = %s(a, b); ' % (seed, i, q[0]) + ''.join('p[0] = x; x = x ^ %s(b & %d, %d); ' % (f, r.choice([3, 7, 255]), r.randint(0, 5)) for f in q[1:]) + 'dump(p); return x; }')
    for i in range(3):
        f, g2 = r.choice(fs), r.choice(fs)
        cs.append('int t_l%s_p%d(int a, int b){ int (*p)(int a, int b); int (*q)(int a, int b); p = &%s; q = &%s; return (*p)(a, b) ^ ((p == q) ? 1000 : 0) ^ (*q)(b, 1); }' % (seed, i, f, g2))
    for q in mods:
        for k, nme, t, c in pub[q]:
            if k == 'arr': cs.append('int t_l%s_a_%s(void){ return (int)(sizeof(%s) * 100u) + (int)((size_t)&%s[0] %% (size_t)sizeof(%s)); }' % (seed, nme, nme, nme, t))
    tests = '\n'.join(dump + cs) + '\n'
    main = '#include <stddef.h>\n' + ''.join('#include "%s.h"\n' % q for q in mods) + tests
    return files, main, '#define NULL ((void *)0)\ntypedef unsigned long size_t;\n' + hdr + '\n'.join(ref) + tests
