import libc
LEVEL = 'model_checking'
Q = [  # format, input bytes
 ('%d', 4), ('%u', 3), ('%i', 4), ('%x', 3), ('%X', 3), ('%o', 4), ('%hhd', 4), ('%hd', 3), ('%ld', 3), ('%lld', 4), ('%llu', 3), ('%jd', 3), ('%zu', 3), ('%p', 3), ('%hhi', 4), ('%hx', 3), ('%llx', 3), ('%hhu%n', 3),
 ('%1d', 3), ('%2d', 4), ('%3d', 4), ('%1i', 3), ('%2i', 4), ('%3i', 4), ('%2x', 4), ('%3x', 4), ('%1o', 3), ('%*d', 3), ('%*2d%d', 4), ('%d%d', 4), ('%d %d', 4), ('%d,%d', 4), ('%d%n', 4), ('%2d%1d%n', 4), ('%i%c', 3), ('%x%c', 3), ('%d%s', 3),
 ('%c', 2), ('%2c', 3), ('%3c', 3), ('%c%c%c', 4), ('%*c%c', 3), (' %c', 3), ('%c %c', 4), ('%2c%n', 4),
 ('%s', 4), ('%2s', 4), ('%s%s', 3), ('%*s%s', 3), ('%s%c', 3), ('%s %c', 3), ('%1s%s%n', 3), ('%s%n', 3),
 ('%[abc]', 4), ('%[^abc]', 4), ('%[a-c]', 3), ('%[]x]', 3), ('%[^]x]', 3), ('%[-x]', 3), ('%[x-]', 3), ('%[a-cx-z]', 3), ('%2[0-9]%c', 4), ('%*[a-z]%d', 4), ('%[a-z]%[0-9]', 4), ('%[0-9]%n', 3), ('%[^\\n]', 3), ('%[\\200-\\377]', 3),
 ('a%d', 4), ('%d%%', 4), ('%%%d', 4), (' a b', 4), ('ab%n', 3), ('%da%n', 4), ('%n', 2), (' %n', 3), ('%*d%n', 3), ('%n%d', 3), ('x %d', 4), ('%d/%d', 4),
 ('%f', 3), ('%lf', 3), ('%lf%c', 3), ('%2lf%c', 3), ('%1f', 2), ('%e', 3), ('%lg', 3), ('%*f%c', 3), ('%f%n', 3), ('%3lf', 3), ('%f %f', 3)]
def pre(f, n):    # the sign of a NaN is not specified
    if f[-1] not in 'fgen' and 'f' not in f: return ''
    return '//@ opt fp=fp\n' + ''.join("//@ pre: !((s[%d] | 32) == 'n' && (s[%d] | 32) == 'a' && (s[%d] | 32) == 'n')\n" % (i, i + 1, i + 2) for i in range(n - 2))
def cases(q):
    o = '''//@ buf o=48
int t_nan(char *o){ double d; int r = h_scan(o, "-nan", "%lf"); d = *(double *)o; *(double *)o = 0.0; return r == 1 && d != d; }
'''
    for i, (f, n) in enumerate(q):
        o += '//@ buf o=48 s=%d\n//@ str s\n%sint t_s%d(char *o, char *s){ return h_scan(o, s, "%s"); }\n' % (n, pre(f, n), i, f)
    for i, f in enumerate(['%d', '%s', '%c%c', '%2d%s', '%[a-z]%n', 'ab', '%x']):
        o += '//@ buf o=48 s=3\n//@ str s\n//@ val n=0..4\nint t_n%d(char *o, char *s, int n){ return h_nscan(o, s, n, "%s"); }\n' % (i, f)
    return o
F = [('%d', 3), ('%d %d', 3), ('%2d%c', 3), ('%x', 3), ('%i', 3), ('%s', 3), ('%2s', 3), ('%[a-z]', 3), ('%c%c', 3), ('ab', 3), ('%d,', 3), (' %n', 3), ('%*s', 3), ('%lf', 3), ('%2lf', 3)]
def fcases(q):
    o = """#ifdef __WCPL__
int h_fscan(char *o, const char *f){ return fscanf(F, f, &o[0], &o[16], &o[32]); }
#else
int h_fscan(char *o, const char *f){ S_ = (const char *)V + VP; SI = 0; SN = VN - VP; int r = doscan(o, f); VP += SI; return r; }
#endif
"""
    for i, (f, n) in enumerate(q):
        for md in (5, 0, 2):
            o += '//@ buf o=48 l=64 s=%d\n%sint t_f%d_%d(char *o, int *l, char *s){ K = 0; start((unsigned char *)s, %d, "r", %d, 60, -1, -1); log1(l, h_fscan(o, "%s")); log1(l, Ftell()); log1(l, Getc()); log1(l, Getc()); return K; }\n' % (n, pre(f, n), i, md, n, md, f)
    return o
def corpora(tier):
    base = libc.spec('scanf', tier)['text']; d = 0 if tier == 'quick' else 1; io = libc.spec('stdio', tier)['text']
    io = io[:io.index('void op(int')]
    yield libc.spec('scanf', tier, text=base + cases([(f, n + d) for f, n in Q]), deadline=200 if tier == 'quick' else 400)
    yield libc.spec('scanf', tier, name='fscanf', text=io + base + fcases([(f, n + d) for f, n in F]), deadline=200 if tier == 'quick' else 400)
def run(rep, tier):
    libc.run(rep, list(corpora(tier)), 'about 110 formats with one to three conversions (every conversion, size, width 1..3, suppression, scansets, literals, %n) on every input text of 2 to 4 bytes (thorough: one more), strings, bounded strings and streams with three buffer sizes', ['%NaN(...) forms and long double are not covered'])
