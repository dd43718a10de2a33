#include <stdbool.h>
#include <stddef.h>
typedef struct { char c; short s; int i; long long l; float f; double d; } Rec;
typedef struct { char tag; union { int i; double d; char b[8]; struct { short x, y; } xy; } u; short tail; } Var;
typedef struct Node { int v; struct Node *next; struct Node *prev; } Node;
typedef struct { char n[5]; short a[3]; struct { char x; int y[2]; } in[2]; } Nest;
typedef struct { short a, b; } Pair;
typedef struct { Pair p[3]; char z; } Pairs;
struct Bits { unsigned char lo; unsigned short mid; unsigned int hi; };
enum Col { RED, GREEN = 5, BLUE, NEG = -3, NEXT };
int gi = 7; unsigned short gus = 0xfffe; signed char gsc = -5; long long gll = -123456789012345LL; double gd = 2.5; float gf = -0.75f; unsigned char guc = 200; bool gb = 1;
int gz1[4] = { 9, 8, 7, 6 }; int gz; double gzd; Rec grz; char gzc[7];
int garr[6] = { 1, -2, 3, 40000, -50000, 2147483647 };
short gsh[5] = { -1, 2, -3 };
char gstr[] = "hello"; char gstr2[8] = "ab"; const char *gps = "pointer\0str"; const char *gtab[4] = { "zero", "one", "", "three" };
Rec grec = { 'x', -2, 300000, -4LL, 1.5f, -2.25 };
Rec grecs[3] = { { 'a', 1, 2, 3, 4.0f, 5.0 }, { 'b', 0, 0, 0, 0.0f, 0.0 }, { 'c', -1, -2, -3LL, -4.0f, -5.0 } };
Nest gnest = { "abcd", { 1, 2, 3 }, { { 'p', { 10, 20 } }, { 'q', { -30, 40 } } } };
Pairs gpairs = { { { 1, 2 }, { 3, 4 }, { 5, 0 } }, 'z' };
int g2[2][3] = { { 1, 2, 3 }, { 4, 5 } };
int *gpi = &garr[0]; Rec *gpr = &grecs[0]; int *gpe = &gz1[0];
struct { const char *name; int val; int *ref; } gmix[3] = { { "first", 11, &garr[0] }, { "second", -22, NULL }, { NULL, 33, &gz1[0] } };
long long gl2[3] = { 1LL << 40, ~0LL, -9223372036854775807LL - 1 }; unsigned gun[2] = { 4294967295u, 0x80000000u };
float gfa[3] = { 0.1f, 1e10f, -3.0f }; double gda[3] = { 0.1, 1e-300, -1e300 };
int gconst[8] = { sizeof(Rec), offsetof(Rec, d), offsetof(Var, tail), (int)sizeof(Nest), GREEN, NEXT, 3 * 4 - (7 << 2), 'a' + 1 };
unsigned char gby[4] = { 0, 127, 128, 255 };

int t_sz(int k){ switch (k) { case 0: return (int)sizeof(Rec); case 1: return (int)sizeof(Var); case 2: return (int)sizeof(Node); case 3: return (int)sizeof(Nest); case 4: return (int)sizeof(Pairs); case 5: return (int)sizeof(struct Bits); case 6: return (int)sizeof(gstr); case 7: return (int)sizeof(garr); case 8: return (int)sizeof(g2[0]); case 9: return (int)offsetof(Rec, l); case 10: return (int)offsetof(Nest, in); case 11: return (int)offsetof(Pairs, z); case 12: return (int)offsetof(Var, u); case 13: return (int)sizeof(gmix); case 15: return (int)sizeof(void *); case 16: return (int)sizeof(gnest.in[0].y); case 17: return (int)sizeof(long); case 18: return (int)offsetof(struct Bits, hi); case 20: return (int)sizeof(1 + 1LL); case 21: return (int)sizeof(gus + 1); } return -1; }
//@ buf p=32 q=32
void t_cp(Rec *p, Rec *q){ *p = *q; }
//@ buf p=32
int t_rd_c(Rec *p){ return p->c; }
//@ buf p=32
int t_rd_s(Rec *p){ return p->s; }
//@ buf p=32
long long t_rd_l(Rec *p){ return p->l; }
//@ buf p=32
double t_rd_d(Rec *p){ return p->d; }
//@ buf p=32
void t_wr_c(Rec *p, int v){ p->c = (char)v; }
//@ buf p=32
void t_wr_s(Rec *p, int v){ p->s = (short)v; }
//@ buf p=32
void t_wr_f(Rec *p, float v){ p->f = v; }
//@ buf p=32
void t_wr_l(Rec *p, long long v){ p->l = v; }
//@ buf p=96
//@ val i=0..2
long long t_ix_l(Rec *p, int i){ return p[i].l + p[i].s; }
//@ buf p=96
//@ val i=-1..1
void t_ix_w(Rec *p, int i, short v){ Rec *q = p + 1; q[i].s = v; (q + i)->c = (char)v; }
//@ buf p=96
//@ val i=0..2
//@ val j=0..2
void t_ix_cp(Rec *p, int i, int j){ p[i] = p[j]; }
//@ buf p=24
int t_var_i(Var *p){ return p->tag == 1 ? p->u.i : p->tag == 2 ? p->u.xy.y : p->u.b[5]; }
//@ buf p=24
void t_var_w(Var *p, double d){ p->tag = 7; p->u.d = d; p->tail = -1; }
//@ buf p=24
void t_var_w2(Var *p, short a, short b){ p->u.xy.x = a; p->u.xy.y = b; p->u.b[6] = (char)(a + b); }
//@ buf p=48
//@ val i=0..1
//@ val j=0..1
int t_nest_r(Nest *p, int i, int j){ return p->in[i].y[j] + p->in[j].x + p->a[i + j] + p->n[i * 2 + j]; }
//@ buf p=48
//@ val i=0..1
//@ val j=0..1
void t_nest_w(Nest *p, int i, int j, int v){ p->in[i].y[j] = v; p->in[j].x = (char)v; p->a[i + j] = (short)v; p->n[i * 2 + j] = (char)v; }
//@ buf p=14
//@ val i=0..2
int t_pairs(Pairs *p, int i, short v){ p->p[i].b = v; p->p[2 - i].a = (short)(v + 1); return p->z + p->p[i].a; }
//@ buf p=14
//@ val i=0..2
//@ val j=0..2
void t_pairs_cp(Pairs *p, int i, int j){ p->p[i] = p->p[j]; }
//@ buf p=14 q=14
void t_arr_cp(Pairs *p, Pairs *q){ Pairs t; t = *p; *p = *q; *q = t; }
//@ buf p=8
unsigned t_bits(struct Bits *p){ return p->lo + ((unsigned)p->mid << 8) + p->hi; }
//@ val i=0..5
int t_g_arr(int i){ return garr[i]; }
//@ val i=0..4
int t_g_sh(int i){ return gsh[i]; }
//@ val i=0..5
int t_g_str(int i){ return gstr[i]; }
//@ val i=0..7
int t_g_str2(int i){ return gstr2[i]; }
//@ val i=0..11
int t_g_ps(int i){ return gps[i]; }
//@ val i=0..3
//@ val j=0..4
//@ pre: j <= (i == 0 ? 4 : i == 1 ? 3 : i == 2 ? 0 : 4)
int t_g_tab(int i, int j){ return gtab[i][j]; }
long long t_g_scal(int k){ switch (k) { case 0: return gi; case 1: return gus; case 2: return gsc; case 3: return gll; case 4: return (long long)(gd * 4); case 5: return (long long)(gf * 4); case 6: return guc; case 7: return gb; case 8: return gz; case 9: return gzd == 0; case 10: return gun[0]; case 11: return gun[1]; } return 0; }
//@ val i=0..2
int t_g_recs(int i){ return grecs[i].c * 1000 + grecs[i].s * 100 + grecs[i].i; }
//@ val i=0..2
double t_g_recs2(int i){ return grecs[i].f + grecs[i].d + grecs[i].l; }
double t_g_rec(int k){ switch (k) { case 0: return grec.c; case 1: return grec.s; case 2: return grec.i; case 3: return (double)grec.l; case 4: return grec.f; case 5: return grec.d; } return 0; }
//@ val i=0..1
//@ val j=0..1
int t_g_nest(int i, int j){ return gnest.in[i].y[j] * 7 + gnest.in[j].x + gnest.a[i + j] * 3 + gnest.n[i * 2 + j]; }
//@ val i=0..2
int t_g_pairs(int i){ return gpairs.p[i].a * 10 + gpairs.p[i].b + gpairs.z * 100; }
//@ val i=0..1
//@ val j=0..2
int t_g_2d(int i, int j){ return g2[i][j]; }
//@ val i=0..1
//@ val j=0..2
int t_g_2dw(int i, int j, int v){ int s = 0; g2[i][j] = v; for (int a = 0; a < 2; ++a) for (int b = 0; b < 3; ++b) s = s * 3 + g2[a][b]; return s; }
int t_g_ptr(void){ return gpi[0] * 100 + gpi[1] + gpr->c + gpe[3] + gpr[2].s; }
//@ val i=0..2
int t_g_mix(int i){ return gmix[i].val + (gmix[i].ref != NULL ? *gmix[i].ref : 5) + (gmix[i].name != NULL ? gmix[i].name[1] : 9); }
//@ val i=0..2
long long t_g_ll(int i){ return gl2[i]; }
//@ val i=0..2
double t_g_fl(int i){ return i == 1 ? gfa[i] : gfa[i] * 2; }
//@ val i=0..2
double t_g_db(int i){ return gda[i]; }
//@ val i=0..7
int t_g_const(int i){ return gconst[i]; }
//@ val i=0..3
int t_g_by(int i){ return gby[i]; }
int t_enum(int k){ enum Col c = (enum Col)k; return c == RED ? 1 : c == BLUE ? 2 : c == NEXT ? 3 : c == NEG ? 4 : GREEN; }
//@ buf p=12
//@ extra b=12 c=12
//@ link p+4=b+0 p+8=c+0 b+4=c+0
int t_list(Node *p){ Node *q = p->next; q->prev = p; q->next->v += q->v; p->v = q->next->v; p->next = p->prev; return p->next->v; }
//@ buf p=32
//@ val i=-2..3
int t_pa(int *p, int i){ int *q = p + 4; q += i; return *q + q[1] + (int)(q - p) + (q > p + 3) + (q == p + 4) + (&q[1] != p); }
//@ buf p=32
//@ val n=0..7
int t_pstep(short *p, int n){ short *q = p; int s = 0; while (q - p < n) s = s * 3 + *q++; return s + (int)(q - p); }
//@ buf p=32
long long t_pcast(char *p){ return *(int *)p + *(short *)(p + 4) + *(long long *)(p + 8) + *(unsigned char *)(p + 3); }
//@ buf p=16
int t_pp(int *p, int v){ int *q; int **pp = &q; *pp = p + 1; **pp = v; (*pp)++; *q = v + 1; return p[1] - p[2]; }
int t_loc1(int a, int b){ Rec r; r.c = (char)a; r.s = (short)b; r.i = a ^ b; r.l = (long long)a * b; Rec s; s = r; s.i += 1; return (r.i == s.i - 1) + r.c + s.s + (int)s.l; }
//@ val i=0..4
int t_loc2(int i, int v){ int a[5]; for (int k = 0; k < 5; ++k) a[k] = k * 3; a[i] = v; return a[0] + 2 * a[1] + 3 * a[2] + 4 * a[3] + 5 * a[4]; }
//@ val i=0..2
//@ val j=0..1
int t_loc3(int i, int j, int v){ char m[3][2]; for (int k = 0; k < 6; ++k) m[k / 2][k % 2] = (char)(k + 1); m[i][j] = (char)v; int s = 0; for (int k = 0; k < 3; ++k) s = s * 5 + m[k][0] * 2 + m[k][1]; return s; }
//@ val i=0..5
int t_loc4(int i){ int a[6] = { 5, 4, 3, -2 }; return a[i]; }
//@ val i=0..7
int t_loc5(int i){ char s[8] = "xyz"; s[7] = '!'; return s[i]; }
//@ val i=0..1
int t_loc6(int i, int v){ Pair p[2] = { { 1, 2 }, { 3, 4 } }; p[i].a = (short)v; Pair q = { 7, 8 }; p[1 - i] = q; return p[0].a + p[0].b * 2 + p[1].a * 3 + p[1].b * 4; }
int t_addr(int a, int b){ int x = a, y = b; int *p = a > b ? &x : &y; *p += 5; p = p == &x ? &y : &x; *p -= 3; return x * 2 + y; }
//@ buf p=16 q=16
int t_pcmp(char *p, char *q, int k){ return (p < q) + 2 * (p == q) + 4 * (p + 1 > p) + 8 * (q - 1 >= q) + 16 * (p != NULL); }
//@ buf p=16
//@ val i=0..3
//@ val j=0..3
int t_pdiff(int *p, int i, int j){ return (int)(&p[i] - &p[j]) * 10 + (&p[i] < &p[j]) + 2 * (&p[i] >= &p[j]); }
//@ buf p=96
//@ val i=0..2
//@ val j=0..2
int t_sdiff(Rec *p, int i, int j){ Rec *a = p + i, *b = &p[j]; return (int)(a - b); }
//@ buf p=16
//@ val i=0..15
int t_strlit(char *p, int i){ const char *s = "0123456789abcdef"; return s[i] + "xyz"[i & 1] + *("pq" + (i > 3)); }
//@ buf p=32 q=32
void t_swaprec(Rec *p, Rec *q){ Rec t; t = *p; *p = *q; *q = t; }
//@ buf p=32
double t_chain(Rec *p){ p->i = p->s = (short)(p->c = 5); p->d = p->f = 1.5f; return p->d + p->i; }
