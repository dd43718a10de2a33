/* addresses formed by arithmetic: constants, wrap-around sums, casts between pointers and size_t, dropped values */
#ifdef __WCPL__
#include <stddef.h>
#include <stdint.h>
#define K(c) c
#else
/* clang -O0 itself folds constants into load offsets here: hide them from it */
static unsigned K(unsigned c){ volatile unsigned v = c; return v; }
typedef __SIZE_TYPE__ size_t;
#define NULL ((void *)0)
#endif
typedef struct { char c; short s; int i; long long l; char t[8]; int a[4]; } S;
int g_a[8]; unsigned char g_c[16]; S g_s; S g_v[3]; int g_n; long long g_l[4]; short g_h[8]; double g_d[4]; float g_f[4];
int nxt(void){ g_n = g_n * 3 + 1; return g_n; }
//@ val k=0..1
int t_wrap_1(unsigned d, int k){ size_t x = (size_t)&g_a[3] - d; return k ? *(int *)(x + d) : g_a[3]; }
//@ pre: d == 2000000u
int t_wrap_2(int v, unsigned d){ g_a[3] = v; size_t x = (size_t)&g_a[3] - d; return *(int *)(x + K(2000000u)); }
//@ pre: d == 100000000u
int t_wrap_3(int v, unsigned d){ g_a[2] = v; size_t x = (size_t)&g_a[2] - d; x = x - 1000000000u; return *(int *)(x + K(1100000000u)); }
int t_wrap_4(int v){ g_a[2] = v; size_t x = (size_t)&g_a[2] + 5000u; return *(int *)(x - 5000u); }
//@ pre: d == 70000u
int t_wrap_5(int v, unsigned d){ g_s.a[1] = v; size_t x = (size_t)&g_s - d; return ((S *)(x + K(70000u)))->a[1]; }
//@ pre: d == 65536u
int t_wrap_6(char v, unsigned d){ g_c[5] = (unsigned char)v; size_t x = (size_t)&g_c[0] - d; return *(char *)(x + K(65541u)); }
//@ buf p=64
int t_off_1(char *p){ return *(int *)(p + 12) + p[3] + *(short *)(p + 20); }
//@ buf p=64
//@ val k=0..3
int t_off_2(S *p, int k){ return p->a[k] + p->i + p->s + p->c + (int)p->l + p->t[3]; }
//@ buf p=144
//@ val k=0..1
int t_off_3(S *p, int k){ return p[k].a[2] + p[k + 1].i + p[1].t[k] + (&p[2])->s; }
//@ buf p=64
//@ val k=4..9
int t_off_4(int *p, int k){ return p[k - 4] + p[k + 3] + *(p + k - 1) + *(&p[k] - 4) + (p + 2)[k]; }
//@ buf p=64
//@ val k=0..3
long long t_off_5(long long *p, int k){ return p[k] ^ p[k + 4] ^ *(p + 1 + k); }
//@ buf p=64
//@ val k=0..3
double t_off_6(double *p, int k){ return k == 2 ? p[k + 1] : *(p + 1 + k); }
//@ buf p=64
//@ val k=0..3
float t_off_7(float *p, int k){ return k == 2 ? p[k + 1] : *(p + 1 + k); }
//@ buf p=64
//@ val k=0..7
int t_off_8(unsigned char *p, int k){ return p[k * 3 + 2] + ((signed char *)p)[k + 30] * 256 + ((unsigned short *)p)[k + 4] + ((short *)p)[k * 2]; }
//@ buf p=16
int t_drop_1(int *p, int a){ p[0]; a; p[1] + a; nxt(); (void)p[2]; *p; g_n; a + 1; -a; !a; return a + g_n; }
//@ buf p=16
int t_drop_2(int *p, int a){ int b; b = a; b; b = p[1]; b++; ++b; b--; p[0]++; --p[1]; b += 0; b = b + 0; return b; }
//@ buf p=16
int t_drop_3(int *p, int a){ int b, c; c = b = a; a = b; b = c; (b = p[0], c = b); c = c; return a + b * 3 + c * 5 + (b = 7); }
//@ buf p=16
int t_drop_4(int *p, long long a){ long long b = a; b; a = b; b = a; p[0] = (int)b; b = p[1]; return (int)(b + a); }
int t_tee_1(int a, int b){ int x = a; int y = x; x = b; int z = x; return x + 2 * y + 4 * z; }
int t_tee_2(int a, int b){ int x; x = a + b; if (x) x = x + 1; int y; y = x; while (y > x) y = x; return y; }
int t_tee_3(int a, int b){ int x = 0, y = 0; x = a; y = a; x = b; return x * 3 + y; }
double t_tee_4(double a, double b){ double x; x = a; b = x; return b == x ? a : b; }
int t_ext_1(int a){ char c = (char)a; short s = (short)c; signed char d = (signed char)s; return c + s * 2 + d * 4; }
int t_ext_2(int a){ short s = (short)a; char c = (char)s; short e = (short)(char)(short)a; return s + c * 2 + e * 4 + (short)(unsigned short)a + (char)(unsigned char)(short)a; }
//@ buf p=8
int t_ext_3(unsigned char *p, unsigned short *q, short *r, char *s){ return (char)p[1] + (short)p[2]; }
//@ buf p=8
int t_ext_4(short *p){ return (char)p[1] + (short)p[2] * 3 + (short)(char)p[3]; }
//@ buf p=8
int t_ext_5(char *p){ return (short)p[1] + (char)p[2] * 3 + (char)(short)p[3]; }
//@ buf p=16
int t_ext_6(long long *p){ return (char)p[1] + (short)p[0] * 3 + (char)(short)p[1]; }
long long t_ext_7(long long a){ return (char)a + (long long)(short)a * 3 + (long long)(int)a * 5 + (char)(short)(int)a; }
int t_mul_1(int k){ char *p = (char *)&g_s; return (int)(&g_v[2] - &g_v[0]) * 100 + (int)(sizeof(S) * 3u) + (int)((unsigned)k * (4u * 5u)); }
//@ val k=0..2
int t_mul_2(int k){ return (int)((char *)&g_v[k] - (char *)&g_v[0]) + (int)((char *)&g_v[2].a[1] - (char *)&g_v[0]); }
int t_zero_1(int a, unsigned b, long long c){ return a + 0 + (int)(b + 0u) + (int)(c + 0ll) + (a - 0) + 0 * a + 0; }
//@ buf p=16
int t_zero_2(int *p, int a){ return p[0] + *(p + 0) + (&p[0])[0] + (&p[1])[-1 + 1] + a; }
int t_glob_1(int v){ g_n = v; g_n; int a = g_n; g_n = a; g_n = g_n; return g_n + a + (g_n += 2) + g_n; }
