"""Harnesses for w.c: the binary encoders (C09) and the text writer and reader (C10)."""
import wasmir
OPTAB = [(n, bytes([k])) for k, n in sorted(wasmir.OPS.items())]
def uleb(v):
    o = b''
    while 1:
        b = v & 127; v >>= 7
        if v: o += bytes([b | 128])
        else: return o + bytes([b])
OPTAB += [(n, b'\xfc' + uleb(k)) for k, n in sorted(wasmir.OPS_FC.items())] + [(n, b'\xfd' + uleb(k)) for k, n in sorted(wasmir.OPS_FD.items())]
SKIP = {'else', 'end', 'delegate'}
ENC = '''
int pin(int n, int lo, int hi){ for (int i = lo; i < hi; ++i) if (n == i) return i; return hi; }
#ifdef __WCPL__
cbuf_t hb;
void hopen(void){ cbinit(&hb); g_curbuf = &hb; }
void hclose(unsigned char *o, int max){ int i, n; char *hp; hp = cbdata(&hb); n = (int)cblen(&hb); for (i = 0; i < n && i < max; ++i) o[i] = (unsigned char)hp[i]; o[max] = (unsigned char)n; g_curbuf = NULL; }
#else
static unsigned char *ho; static int hn, hm;
static void P(unsigned b){ if (hn < hm) ho[hn] = (unsigned char)b; ++hn; }
static void U(unsigned long long v){ while (v >= 128) { P(128 | (unsigned)(v % 128)); v = v / 128; } P((unsigned)v); }
static void S(long long v){ for (int n = 1; n <= 10; ++n) { int last = n == 10 || (v >= -(1LL << (7 * n - 1)) && v < (1LL << (7 * n - 1)));
  if (last) { for (int i = 0; i < n; ++i) P((unsigned)((v >> (i == 9 ? 63 : 7 * i)) & 127) | (i < n - 1 ? 128 : 0)); return; } } }
static void F(unsigned long long v, int n){ for (int i = 0; i < n; ++i) P((unsigned)(v >> (8 * i)) & 255); }
#define hopen() do { ho = o; hn = 0; } while (0)
#define hclose(o, max) (o[max] = (unsigned char)hn)
#define MAX(n) (hm = (n))
#endif
'''
def args(sig): return ', '.join(x.split()[-1].lstrip('*') for x in sig.split(','))
def fn(name, ty, buf, sig, w, r, pre='', ann=''):
    return '#ifdef __WCPL__\nvoid h_%s(%s *o, %s){ %s }\n#else\nvoid h_%s(%s *o, %s){ %s }\n#endif\n//@ buf o=%d\n%s%svoid t_%s(%s *o, %s){ h_%s(o, %s); }\n' % (
        name, ty, sig, w, name, ty, sig, r, buf, '//@ pre: %s\n' % pre if pre else '', ann, name, ty, sig, name, args(sig))
def _case(name, sig, w, r, max, pre='', ann=''):
    return fn(name, 'unsigned char', max + 1, sig, 'hopen(); %s hclose(o, %d);' % (w, max), 'MAX(%d); hopen(); %s hclose(o, %d);' % (max, r, max), pre, ann)
def enc():
    o = []
    o.append(_case('uleb', 'unsigned long long v', 'wasm_unsigned(v);', 'U(v);', 10))
    o.append(_case('sleb', 'long long v', 'wasm_signed(v);', 'S(v);', 10))
    o.append(_case('f32', 'unsigned v', 'union { unsigned u; float f; } x; x.u = v; wasm_float(x.f);', 'F(v, 4);', 4))
    o.append(_case('f64', 'unsigned long long v', 'union { unsigned long long u; double f; } x; x.u = v; wasm_double(x.f);', 'F(v, 8);', 8))
    o.append('//@ str s\n' + _case('name', 'char *s', 'wasm_name(s);', 'int n = 0; while (s[n]) ++n; U((unsigned)n); for (int i = 0; i < n; ++i) P((unsigned char)s[i]);', 8))
    o.append(_case('data', 'unsigned v', 'cbuf_t cb; cbinit(&cb); cbputc((int)(v & 255u), &cb); cbputc((int)(v >> 8 & 255u), &cb); cbputc((int)(v >> 16 & 255u), &cb); wasm_data(&cb);', 'F(v, 3);', 4))
    # one instruction of each immediate class, all immediates
    I = 'icbuf_t b; inscode_t *p; icbinit(&b); p = icbnewbk(&b); p->in = %s; %s wasm_expr(&b);'
    def ins(name, sig, inn, setup, r, mx=24, pre='', ann=''): o.append(_case('ins_' + name, sig, I % (inn, setup), r, mx, pre, ann))
    for n, e, op in (('local_get', 'IN_LOCAL_GET', 0x20), ('global_set', 'IN_GLOBAL_SET', 0x24), ('call', 'IN_CALL', 0x10), ('br', 'IN_BR', 0x0c), ('br_if', 'IN_BR_IF', 0x0d)):
        ins(n, 'unsigned v', e, 'p->arg.u = (unsigned long long)v;', 'P(%d); U(v);' % op)
    ins('i64const', 'long long v', 'IN_I64_CONST', 'p->arg.i = v;', 'P(0x42); S(v);')
    ins('i32const', 'int v', 'IN_I32_CONST', 'p->arg.i = (long long)v;', 'P(0x41); S(v);')
    ins('f32const', 'unsigned v', 'IN_F32_CONST', 'union { unsigned u; float f; } x; x.u = v; p->arg.f = x.f;', 'P(0x43); F(v, 4);')
    ins('f64const', 'unsigned long long v', 'IN_F64_CONST', 'union { unsigned long long u; double f; } x; x.u = v; p->arg.d = x.f;', 'P(0x44); F(v, 8);')
    ins('v128const', 'unsigned long long v, unsigned long long w', 'IN_V128_CONST', 'p->arg.u = v; p->arg2.u = w;', 'P(0xfd); U(12); F(v, 8); F(w, 8);')
    ins('callind', 'unsigned v', 'IN_CALL_INDIRECT', 'p->arg.u = (unsigned long long)v; p->arg2.u = 0ull;', 'P(0x11); U(v); P(0);')
    for n, e, op in (('ld8', 'IN_I32_LOAD8_U', 0x2d), ('ld64', 'IN_I64_LOAD', 0x29), ('st16', 'IN_I32_STORE16', 0x3b), ('stf64', 'IN_F64_STORE', 0x39)):
        ins(n, 'unsigned off, unsigned al', e, 'p->arg.u = (unsigned long long)off; p->arg2.u = (unsigned long long)al;', 'P(%d); U(al); U(off);' % op, pre='al <= 4')
    ins('lane', 'unsigned v', 'IN_I8X16_EXTRACT_LANE_S', 'p->arg.u = (unsigned long long)v;', 'P(0xfd); U(21); P(v);', pre='v < 16')
    ins('shuffle', 'unsigned long long v', 'IN_I8X16_SHUFFLE', 'p->arg.u = v;', 'P(0xfd); U(13); for (int i = 15; i >= 0; --i) P((unsigned)(v >> (4 * i)) & 15);')
    ins('ldlane', 'unsigned off, unsigned al, unsigned l', 'IN_V128_LOAD32_LANE', 'p->arg.u = (unsigned long long)l; p->arg2.ux2[0] = off; p->arg2.ux2[1] = al;', 'P(0xfd); U(86); U(al); U(off); P(l);', pre='al <= 4 && l < 16')
    ins('memfill', 'int v', 'IN_MEMORY_FILL', '', 'P(0xfc); U(11); P(0);'); ins('memcopy', 'int v', 'IN_MEMORY_COPY', '', 'P(0xfc); U(10); P(0); P(0);')
    ins('memgrow', 'int v', 'IN_MEMORY_GROW', '', 'P(0x40); P(0);'); ins('memsize', 'int v', 'IN_MEMORY_SIZE', '', 'P(0x3f); P(0);')
    for n in (0, 1, 3, 130):
        o.append(_case('brtable%d' % n, 'unsigned a, unsigned b', 'icbuf_t b1; inscode_t *p; int i; icbinit(&b1); p = icbnewbk(&b1); p->in = IN_BR_TABLE; p->arg.u = %dull; for (i = 0; i <= %d; ++i) { p = icbnewbk(&b1); p->in = IN_BR; p->arg.u = (unsigned long long)(i == %d ? b : i == 0 ? a : (unsigned)i); } p = icbnewbk(&b1); p->in = IN_NOP; wasm_expr(&b1);' % (n, n, n),
                       'P(0x0e); U(%d); for (int i = 0; i <= %d; ++i) U(i == %d ? b : i == 0 ? a : (unsigned)i); P(1);' % (n, n, n), 200, pre='a < 300 && b < 300'))
    # the opcode of every instruction, by its standard name
    tab = [(n, e) for n, e in OPTAB if n not in SKIP]
    for c in range(0, len(tab), 40):
        t = tab[c:c+40]
        w = 'instr_t in; in = name_instr("nop"); in = IN_PLACEHOLDER; switch (pin(k, 0, %d)) { %s default: break; } if (in == IN_PLACEHOLDER) { cbputc(254, &hb); } else wasm_in(in);' % (len(t) - 1, ' '.join('case %d: in = name_instr("%s"); break;' % (i, n) for i, (n, e) in enumerate(t)))
        r = 'switch (k) { %s }' % ' '.join('case %d: %s break;' % (i, ' '.join('P(%d);' % x for x in e)) for i, (n, e) in enumerate(t))
        o.append(_case('opcode_%d' % c, 'int k', w, r, 6, ann='//@ val k=0..%d\n//@ opt deadline=60 paths=200 steps=40000000\n' % (len(t) - 1)))
    return ENC + ''.join(o)
# what wcpl's tables know of the standard instructions is decided once, on the unchanged tree: names outside are not in the instruction set of wcpl
TXT = '''
int pin(int n, int lo, int hi){ for (int i = lo; i < hi; ++i) if (n == i) return i; return hi; }
#ifdef __WCPL__
sws_t hw;
char *nolb(cbuf_t *p, FILE *f){ return NULL; }
sws_t *hsws(const char *s){ memset(&hw, 0, sizeof(sws_t)); bufinit(&hw.chars, sizeof(char)); cbputs(s, &hw.chars); cbputc('\\n', &hw.chars); hw.inateof = true; hw.ctk = WT_EOF; cbinit(&hw.token); return &hw; }
/* the instruction as text, read again */
void rt(inscode_t *p, inscode_t *q){ cbuf_t cb; sws_t *pw; cbinit(&cb); format_inscode(p, &cb); pw = hsws(cbdata(&cb)); memset(q, 0, sizeof(inscode_t)); parse_ins(pw, q, NULL); }
int hx(int c){ return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* bits of the WAT float literal s: eb exponent bits, mb mantissa bits */
unsigned long long wf(const char *s, int eb, int mb){
  unsigned long long m = 0ull, sg = 0ull, em; int e = 0, es = 1, fd = 0, dot = 0, bias = (1 << (eb - 1)) - 1; em = (1ull << eb) - 1ull;
  if (*s == '-') { sg = 1ull << (eb + mb); ++s; } else if (*s == '+') ++s;
  if (s[0] == 'i') return sg | (em << mb);
  if (s[0] == 'n') { s += 3; if (*s != ':') return sg | (em << mb) | (1ull << (mb - 1)); s += 3; while (hx(*s) >= 0) { m = m * 16ull + (unsigned long long)hx(*s); ++s; } return sg | (em << mb) | m; }
  if (s[0] != '0' || s[1] != 'x') return 0xdeadull;
  s += 2;
  for (; *s && *s != 'p'; ++s) { if (*s == '.') { dot = 1; continue; } if (hx(*s) < 0) return 0xdead1ull; m = m * 16ull + (unsigned long long)hx(*s); if (dot) fd += 4; }
  if (*s == 'p') { ++s; if (*s == '-') { es = -1; ++s; } else if (*s == '+') ++s; for (; *s >= '0' && *s <= '9'; ++s) e = e * 10 + (*s - '0'); if (*s) return 0xdead2ull; }
  e = e * es - fd;   /* value = m * 2^e */
  if (m == 0ull) return sg;
  while (!(m >> mb)) { m = m << 1; --e; }
  while (m >> (mb + 1)) { if (m & 1ull) return 0xdead3ull; m = m >> 1; ++e; }
  e = e + mb + bias;
  while (e < 1) { if (m & 1ull) return 0xdead4ull; m = m >> 1; ++e; if (!(m >> mb) && e == 1) return sg | m; }
  if (!(m >> mb)) return sg | m;
  return sg | ((unsigned long long)e << mb) | (m & ((1ull << mb) - 1ull));
}
#endif
'''
BOUND = sorted({0, 1, -1, 2, 9, 10, 63, 64, 99, 100, 127, 128, 255, 256, -64, -65, -128, -129, 8191, 8192, 65535, 65536, 999999, 1000000, 2**31 - 1, -2**31, -2**31 + 1})
BOUND64 = sorted(set(BOUND) | {2**31, 2**32 - 1, 2**32, -2**31 - 1, 2**63 - 1, -2**63, -2**63 + 1, 10**18, -10**18, 10**19 - 2**64, 2**53, 123456789012345678})
def lit(v, ll):
    if not ll: return '(-2147483647-1)' if v == -2**31 else str(v)
    return '(-9223372036854775807ll-1ll)' if v == -2**63 else '%dll' % v
def text():
    o = []
    def case(name, sig, w, r, buf=16, ann='', pre=''): o.append(fn(name, 'long long', buf, sig, w, r, pre, ann))
    D = 'inscode_t i, q; memset(&i, 0, sizeof(inscode_t)); '
    # integers: ranges of unknown values and boundary values
    for nm, inn, ll, bs in (('i32', 'IN_I32_CONST', 0, BOUND), ('i64', 'IN_I64_CONST', 1, BOUND64)):
        t = 'long long' if ll else 'int'; rd = 'o[0] = q.in == i.in ? 1ll : 0ll; o[1] = %s;' % ('q.arg.i' if ll else '(long long)(int)q.arg.i'); ref = 'o[0] = 1; o[1] = v;'
        case('rt_%s' % nm, '%s v' % t, D + 'i.in = %s; i.arg.i = (long long)v; rt(&i, &q); %s' % (inn, rd), ref, ann='//@ opt deadline=60 steps=100000000\n', pre='v >= -99 && v <= 999')
        case('rtb_%s' % nm, 'int k', D + '%s v; v = %s; switch (pin(k, 0, %d)) { %s default: break; } i.in = %s; i.arg.i = (long long)v; rt(&i, &q); %s' % (t, '0ll' if ll else '0', len(bs) - 1, ' '.join('case %d: v = %s; break;' % (j, lit(x, ll)) for j, x in enumerate(bs)), inn, rd),
             '%s v = 0; switch (k) { %s } %s' % (t, ' '.join('case %d: v = %s; break;' % (j, lit(x, ll)) for j, x in enumerate(bs)), ref), ann='//@ val k=0..%d\n//@ opt deadline=60 steps=100000000\n' % (len(bs) - 1))
    case('rt_i32u', 'int v', D + 'i.in = IN_I32_CONST; i.arg.u = (unsigned long long)(unsigned)v; rt(&i, &q); o[0] = q.in == i.in ? 1ll : 0ll; o[1] = (long long)(int)q.arg.i;', 'o[0] = 1; o[1] = v;', ann='//@ opt steps=100000000\n', pre='v >= -99 && v <= 99')
    case('rt_mem', 'unsigned off, int al', D + 'i.in = IN_I64_STORE; i.arg.u = (unsigned long long)off; i.arg2.u = (unsigned long long)pin(al, 0, 4); rt(&i, &q); o[0] = q.in == i.in ? 1ll : 0ll; o[1] = (long long)(q.arg.u * 8ull + q.arg2.u);', 'o[0] = 1; o[1] = (long long)off * 8 + al;', ann='//@ opt deadline=60 steps=100000000\n//@ val al=0..4\n', pre='off <= 300')
    case('rt_refd', 'int off', D + 'i.in = IN_REF_DATA; i.id = intern("dat"); i.arg2.mod = intern("mo"); i.arg.i = (long long)off; rt(&i, &q); o[0] = q.in == i.in && q.id == i.id && q.arg2.mod == i.arg2.mod ? 1ll : 0ll; o[1] = q.arg.i;', 'o[0] = 1; o[1] = off;', ann='//@ opt deadline=60 steps=100000000\n', pre='off >= 0 && off <= 300')
    for j, (inn, idm) in enumerate((('IN_CALL', 1), ('IN_GLOBAL_GET', 1), ('IN_LOCAL_SET', 0), ('IN_BR_IF', 0), ('IN_REF_FUNC', 1), ('IN_LOOP', 0))):
        case('rt_id%d' % j, 'int c', D + 'char b[4]; b[0] = (char)c; b[1] = \'z\'; b[2] = \'\\0\'; i.in = %s; i.id = intern(&b[0]); %s %s rt(&i, &q); o[0] = q.in == i.in && q.id == i.id %s ? 1ll : 0ll; o[1] = 0ll;' % (inn, 'i.arg2.mod = intern("mo");' if idm else '', 'i.arg.u = (unsigned long long)BT_VOID;' if inn == 'IN_LOOP' else '', '&& q.arg2.mod == i.arg2.mod' if idm else ''),
             'o[0] = 1; o[1] = 0;', ann='//@ opt deadline=60 paths=4000 steps=100000000\n', pre="(c >= 'a' && c <= 'f') || c == 'Z' || c == '_'")
    for nm, inn, sig, chk in (('lane', 'IN_I16X8_REPLACE_LANE', 'unsigned v', 'v < 8'),):
        case('rt_' + nm, sig, D + 'i.in = %s; i.arg.u = (unsigned long long)v; rt(&i, &q); o[0] = q.in == i.in ? 1ll : 0ll; o[1] = q.arg.i;' % inn, 'o[0] = 1; o[1] = v;', ann='//@ opt steps=100000000\n', pre=chk)
    # floats: the text names the value, and reads back as the value
    for nm, u, eb, mb, f, h in (('f32', 'unsigned', 8, 23, 'uftohex', 'hextouf'), ('f64', 'unsigned long long', 11, 52, 'udtohex', 'hextoud')):
        es = [0, 1, 2, (1 << (eb-1)) - 2, (1 << (eb-1)) - 1, 1 << (eb-1), (1 << (eb-1)) + 9, (1 << eb) - 2]
        sx = 'u' if nm == 'f32' else 'ull'
        W = 'char b[64]; %s s(v, &b[0]); o[0] = (long long)wf(&b[0], %d, %d); o[1] = (long long)%s(&b[0]);' % (f, eb, mb, h)
        W = W.replace(' s(v', '(v')
        case('tx_%s_exp' % nm, 'int e, int sg', '%s v; v = (%s)(((%s)e << %d) | ((%s)(sg & 1) << %d)); %s' % (u, u, u, mb, u, eb + mb, W), '%s v = ((%s)e << %d) | ((%s)(sg & 1) << %d); o[0] = (long long)v; o[1] = (long long)v;' % (u, u, mb, u, eb + mb),
             ann='//@ opt deadline=120 paths=9000 steps=100000000\n', pre='e >= 0 && e < %d' % ((1 << eb) - 1) if nm == 'f32' else '(e >= 0 && e < 120) || (e >= 1000 && e < 1050) || (e >= 1990 && e < 2047)')
        for j, e in enumerate(es):
            for k, sh in enumerate((0, mb // 2, mb - 8)):
                case('tx_%s_m%d_%d' % (nm, j, k), '%s m' % u, '%s v; v = (%s)%d%s << %d | m << %d; %s' % (u, u, e, sx, mb, sh, W), '%s v = (%s)%d << %d | m << %d; o[0] = (long long)v; o[1] = (long long)v;' % (u, u, e, mb, sh), ann='//@ opt deadline=60 paths=4000 steps=40000000\n', pre='m < 256')
        case('tx_%s_spec' % nm, 'int k', '%s v; v = (%s)0; switch (pin(k, 0, 3)) { case 0: v = %d%s; break; case 1: v = %d%s; break; case 2: v = %d%s; break; default: v = %d%s; break; } %s' % (u, u, ((1 << eb) - 1) << mb, sx, ((1 << (eb + 1)) - 1) << mb, sx, ((1 << (eb + 1)) - 1) << (mb - 1), sx, ((1 << (eb + 2)) - 1) << (mb - 1), sx, W),
             '%s v = k == 0 ? %d%s : k == 1 ? %d%s : k == 2 ? %d%s : %d%s; o[0] = (long long)v; o[1] = (long long)v;' % (u, ((1 << eb) - 1) << mb, sx, ((1 << (eb + 1)) - 1) << mb, sx, ((1 << (eb + 1)) - 1) << (mb - 1), sx, ((1 << (eb + 2)) - 1) << (mb - 1), sx), ann='//@ val k=0..3\n')
    # data bytes: written as a string, read again
    o.append('''#ifdef __WCPL__
void dat(unsigned char *o, int n, int a, int b, int c){
  watiebuf_t wb; watie_t *pd; char *s, *ct; cbuf_t cb, wk; int i, m; watiebinit(&wb); cbinit(&wk); cbinit(&cb); g_watbuf = &wk; g_watout = stdout;
  pd = watiebnewbk(&wb, IEK_DATA); pd->mod = intern("mo"); pd->id = intern("dat"); pd->align = 1; pd->mut = MT_VAR;
  cbputc(a, &pd->data); if (n > 1) cbputc(b, &pd->data); if (n > 2) cbputc(c, &pd->data);
  wat_export_datas(&wb);
  s = strchr(cbdata(&wk), '"');
  if (s == NULL) { s = strstr(cbdata(&wk), " size="); m = s == NULL ? 99 : s[6] - '0'; if (s != NULL && s[7] != ')') m = 98; for (i = 0; i < 4; ++i) o[i] = (unsigned char)0; o[4] = (unsigned char)m; return; }
  { char *e; e = strrchr(s, '"'); if (e[1] != ')' || e[2]) { o[4] = (unsigned char)97; return; } e[1] = '\\0'; }
  scan_string(hsws(""), s, &cb); ct = cbdata(&cb); m = (int)cblen(&cb); for (i = 0; i < 4; ++i) o[i] = (unsigned char)(i < m ? ct[i] : '\\0'); o[4] = (unsigned char)m;
}
unsigned int env_fd_fdstat_get(unsigned int fd, unsigned char *st){ return 8u; }
unsigned int env_fd_write(unsigned int fd, void *iovs, unsigned int n, void *out){ unsigned *io = iovs; unsigned i, t; t = 0u; for (i = 0u; i < n; ++i) t += io[2u * i + 1u]; *(unsigned *)out = t; return 0u; }
#else
void dat(unsigned char *o, int n, int a, int b, int c){ o[0] = a; o[1] = n > 1 ? b : 0; o[2] = n > 2 ? c : 0; o[3] = 0; o[4] = n; }
#endif
''')
    for n in (1, 2, 3):
        for j, q in enumerate((0, 1)) if n == 3 else ((0, 0),):
            pre = 'a >= 0 && a < 256' + (' && b >= 0 && b < 256' if n > 1 else ' && b == 0') + ((' && c >= 48 && c < 104' if not q else ' && c >= 128 && c < 194') if n > 2 else ' && c == 0')
            if n == 3: pre += ' && (b == 92 || b == 34 || b == 39 || b == 0 || b == 233) && (a == 92 || a == 34 || a == 0 || a == 10 || a == 195)'
            o.append('//@ buf o=5\n//@ pre: %s\n//@ opt deadline=100 paths=9000 steps=100000000\nvoid t_data%d_%d(unsigned char *o, int a, int b, int c){ dat(o, %d, a, b, c); }\n' % (pre, n, q, n))
    return TXT + ''.join(o)
