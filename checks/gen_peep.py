"""Harness for the peephole optimiser of c.c (C07): every instruction sequence of a given length, unknown immediates, operand
stack and locals; the sequence left by fundef_peephole must compute what the original computes."""
OPS = ['LOCAL_GET', 'LOCAL_GET', 'LOCAL_SET', 'LOCAL_SET', 'LOCAL_TEE', 'LOCAL_TEE', 'DROP', 'I32_CONST', 'I32_ADD', 'I32_MUL', 'I32_LOAD', 'I32_LOAD8_S', 'I32_LOAD16_S', 'I32_EXTEND8_S', 'I32_EXTEND16_S', 'GLOBAL_GET', 'I32_SUB', 'I32_LOAD8_U', 'I64_LOAD']
N = len(OPS)
LOADS = [i for i, x in enumerate(OPS) if 'LOAD' in x]
INTERP = '''
/* a small machine: 32-bit operand stack, two locals, a global, memory as a function of the address */
unsigned long long mk_ea(int a, long long off){ return (unsigned long long)(unsigned)a + (unsigned long long)(unsigned)off; }
int mach(long long *o, int n, int *op, long long *im, int s0, int s1, int s2, int a, int b, int g){
  int st[16]; int sp = 5, i, v; unsigned long long ea; st[0] = g ^ 77; st[1] = a ^ 99; st[2] = s0; st[3] = s1; st[4] = s2;
  for (i = 0; i < n; ++i) {
    switch (op[i]) {
      case 0: st[sp] = a; ++sp; break;
      case 1: st[sp] = b; ++sp; break;
      case 2: --sp; a = st[sp]; break;
      case 3: --sp; b = st[sp]; break;
      case 4: a = st[sp-1]; break;
      case 5: b = st[sp-1]; break;
      case 6: --sp; break;
      case 7: st[sp] = (int)im[i]; ++sp; break;
      case 8: --sp; st[sp-1] = (int)((unsigned)st[sp-1] + (unsigned)st[sp]); break;
      case 9: --sp; st[sp-1] = (int)((unsigned)st[sp-1] * (unsigned)st[sp]); break;
      case 10: case 11: case 12: case 17: case 18:
        ea = mk_ea(st[sp-1], im[i]);
        if (ea < 1024ull || ea > 0x7fffffffull) return 1;
        v = (int)((unsigned)ea ^ 0x5a5a5a5au);
        if (op[i] == 11) v = (int)(signed char)v; else if (op[i] == 12) v = (int)(short)v; else if (op[i] == 17) v = v & 255;
        st[sp-1] = v; break;
      case 13: st[sp-1] = (int)(signed char)st[sp-1]; break;
      case 14: st[sp-1] = (int)(short)st[sp-1]; break;
      case 15: st[sp] = g; ++sp; break;
      case 16: --sp; st[sp-1] = (int)((unsigned)st[sp-1] - (unsigned)st[sp]); break;
      default: return 2;
    }
  }
  o[0] = (long long)sp; o[1] = (long long)a; o[2] = (long long)b;
  for (i = 0; i < sp; ++i) o[3 + i] = (long long)st[i];
  return 0;
}
int pin(int n, int lo, int hi){ for (int i = lo; i < hi; ++i) if (n == i) return i; return hi; }
'''
def unit(n, alpha, lvl, deadline=60):
    o = ['#ifdef __WCPL__', 'instr_t opx(int k){ switch (k) { %s default: break; } return IN_PLACEHOLDER; }' % ' '.join('case %d: return IN_%s;' % (i, x) for i, x in enumerate(OPS)), '#endif', INTERP, '#ifdef __WCPL__', '''
void peep(long long *o, int n, int *op, long long *im, int lvl, int s0, int s1, int s2, int a, int b, int g){
  node_t nd; int i, k, m, rc; int op2[16]; long long im2[16]; long long scratch[24]; sym_t la, lb; inscode_t *p;
  rc = mach(&scratch[0], n, op, im, s0, s1, s2, a, b, g);
  if (rc) return;
  memset(&nd, 0, sizeof(node_t)); icbinit(&nd.data); la = intern("a"); lb = intern("b");
  for (i = 0; i < n; ++i) {
    p = icbnewbk(&nd.data); p->in = opx(op[i]); p->arg.i = im[i];
    if (op[i] == 0 || op[i] == 2 || op[i] == 4) p->id = la; else if (op[i] == 1 || op[i] == 3 || op[i] == 5) p->id = lb;
  }
  fundef_peephole(&nd, lvl);
  m = (int)icblen(&nd.data);
  if (m > n) { o[0] = -7ll; return; }
  for (i = 0; i < m; ++i) {
    p = icbref(&nd.data, (size_t)i);
    for (k = 0; k < %d; ++k) if (opx(k) == p->in) { if (k > 5 || p->id == la || (k & 1)) break; }
    if (k < 6 && (k & 1) && p->id != lb) k = 99;
    op2[i] = k; im2[i] = p->arg.i;
  }
  for (i = 0; i < m; ++i) if (op2[i] == %d) { mach(o, n, op, im, s0, s1, s2, a, b, g); return; } /* outside the modelled alphabet */
  rc = mach(o, m, &op2[0], &im2[0], s0, s1, s2, a, b, g);
  if (rc) o[0] = (long long)(-rc);
}''' % (N, N), '#else', '''
void peep(long long *o, int n, int *op, long long *im, int lvl, int s0, int s1, int s2, int a, int b, int g){
  long long t[24]; int i; for (i = 0; i < 24; ++i) t[i] = 0; if (mach(t, n, op, im, s0, s1, s2, a, b, g)) return; for (i = 0; i < 3 + (int)t[0]; ++i) o[i] = t[i]; }''', '#endif']
    tab = 'int al(int k){ switch (k) { %s default: break; } return %d; }' % (' '.join('case %d: return %d;' % x for x in enumerate(alpha)), alpha[0])
    o.append(tab)
    ks = ['k%d' % i for i in range(1, n)]; cs = ['c%d' % i for i in range(n)]
    for j, f in enumerate(alpha):
        o.append(''.join('//@ val %s=0..%d\n' % (k, len(alpha) - 1) for k in ks) + '//@ buf o=160\n//@ opt deadline=%d paths=40000 steps=400000000\nvoid t_pp%d_%s_%d(long long *o, %s, %s, int s0, int s1, int s2, int a, int b, int g){ int op[%d]; long long im[%d]; op[0] = %d; %s %s peep(o, %d, &op[0], &im[0], %d, s0, s1, s2, a, b, g); }' % (
            deadline, n, OPS[f].lower(), j, ', '.join('int ' + k for k in ks), ', '.join('int ' + c for c in cs), n, n, f,
            ' '.join('op[%d] = al(pin(%s, 0, %d));' % (i, 'k%d' % i, len(alpha) - 1) for i in range(1, n)), ' '.join('im[%d] = (long long)c%d;' % (i, i) for i in range(n)), n, lvl))
    return '\n'.join(o) + '\n'
