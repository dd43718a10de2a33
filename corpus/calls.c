#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
typedef struct { int a; long long b; char c; } Big;
typedef struct { short x, y; } Pt;
typedef int (*binop)(int, int);
int gtr;
char *probe(void){ char b[24]; b[0] = 1; return &b[0]; }
int add(int a, int b){ return a + b; }
int sub(int a, int b){ return a - b; }
int mul2(int a, int b){ return a * b; }
static int hid(int a, int b){ return a * 7 - b; }
binop ops[4];
struct { const char *n; binop f; int k; } optab[3] = { { "add", NULL, 5 }, { "sub", NULL, -6 }, { "hid", NULL, 7 } };
void inits(void){ ops[0] = &add; ops[1] = &sub; ops[2] = &mul2; ops[3] = &hid; for (int i = 0; i < 3; ++i) optab[i].f = ops[i == 2 ? 3 : i]; }
int narrow(char c, signed char sc, unsigned char uc, short s, unsigned short us, bool b){ return c + 2 * sc + 3 * uc + 5 * s + 7 * us + 11 * b; }
char rc(int x){ return (char)x; }
unsigned char ruc(int x){ return (unsigned char)x; }
short rs(int x){ return (short)x; }
unsigned short rus(int x){ return (unsigned short)x; }
bool rb(int x){ return x != 0; }
long long wide(long long a, int b, unsigned c, float f, double d){ return a + b + c + (f > 1.0f ? 1 : 0) + (d > 2.0 ? 2 : 0); }
double mixf(float a, double b, int i){ return i > 0 ? a : b; }
Big mkbig(int a, long long b){ Big r; r.a = a; r.b = b; r.c = (char)(a ^ 5); return r; }
Big idbig(Big *p){ return *p; }
Pt mkpt(int x, int y){ Pt p; p.x = (short)x; p.y = (short)y; return p; }
Pt addpt(Pt *p, Pt *q){ Pt r; Pt t; t = mkpt(p->x + q->x, p->y + q->y); r = t; return r; }
int fib(int n){ return n < 2 ? n : fib(n - 1) + fib(n - 2); }
int odd(int n);
int even(int n){ return n == 0 ? 1 : odd(n - 1); }
int odd(int n){ return n == 0 ? 0 : even(n - 1); }
int depth(int n, int *out){ int loc[3]; loc[0] = n; loc[1] = n * 2; loc[2] = -n; if (n > 0) depth(n - 1, &loc[1]); *out += loc[0] + loc[1] * 3 + loc[2]; return loc[1]; }
int vsum(int n, ...){ va_list ap; int s = 0; va_start(ap, n); for (int i = 0; i < n; ++i) s = s * 3 + va_arg(ap, int); va_end(ap); return s; }
long long vmix(const char *f, ...){ va_list ap; long long s = 0; va_start(ap, f); for (; *f; ++f) { switch (*f) { case 'i': s = s * 5 + va_arg(ap, int); break; case 'u': s = s * 5 + va_arg(ap, unsigned); break; case 'l': s = s * 5 + va_arg(ap, long long); break; case 'd': { double d = va_arg(ap, double); s = s * 5 + (d > 1.5 ? 1 : d < -1.5 ? 2 : 3); break; } case 'p': { int *p = va_arg(ap, int *); s = s * 5 + *p; break; } case 'L': s = s * 5 + va_arg(ap, long); break; } } va_end(ap); return s; }
int vpass2(va_list ap){ return va_arg(ap, int) * 2; }
int vcopy(int n, ...){ va_list a, b; int s = 0; va_start(a, n); va_copy(b, a); s += va_arg(a, int) * 3; s += va_arg(a, int) * 5; s += va_arg(b, int) * 7; s += va_arg(b, int) * 11; va_end(b); va_end(a); return s; }
int vfwd(const char *f, va_list ap){ int s = 0; for (; *f; ++f) s = s * 3 + va_arg(ap, int); return s; }
int vtop(const char *f, ...){ va_list ap; int r; va_start(ap, f); r = vfwd(f, ap); va_end(ap); return r; }
void setv(int *p, int v){ *p = v; }
void noret(void){ gtr += 3; }
int apply(binop f, int a, int b){ return (*f)(a, b); }
binop pick(int k){ return k == 0 ? &add : k == 1 ? &sub : &mul2; }

int t_args(int a, int b, int c, int d){ return sub(a, b) * 3 + sub(sub(c, d), add(a, d)); }
int t_narrow(char c, signed char sc, unsigned char uc, short s, unsigned short us, bool b){ return narrow(c, sc, uc, s, us, b); }
int t_narrow2(int x, int y){ return narrow((char)x, (signed char)y, (unsigned char)(x + y), (short)(x * 3), (unsigned short)(x - y), (bool)(x & y)); }
int t_nret(int x){ return rc(x) + 3 * ruc(x) + 5 * rs(x) + 7 * rus(x) + 11 * rb(x); }
int t_nret2(int x){ int r = 0; if (rc(x) < 0) r |= 1; if (ruc(x) > 127) r |= 2; if (rs(x) == -1) r |= 4; if (rus(x) == 65535) r |= 8; if (rb(x)) r |= 16; return r; }
int t_npar(short a, unsigned char b){ a += b; b = (unsigned char)(b + 200); a++; b--; return a * 1000 + b; }
long long t_wide(long long a, int b, unsigned c, float f, double d){ return wide(a, b, c, f, d) + wide(b, (int)a, (unsigned)(c + 1), f, f); }
double t_mixf(float a, double b, int i){ return mixf(a, b, i); }
double t_mixf2(int a, float b, int i){ return mixf((float)a, b, i); }
long long t_big(int a, long long b){ Big x; x = mkbig(a, b); return x.a + x.b * 3 + x.c; }
//@ buf p=24
void t_big2(Big *p, int a, long long b){ p->c = 1; *p = mkbig(a, b + p->c); }
//@ buf p=24 q=24
int t_big3(Big *p, Big *q){ char *a = probe(); *q = idbig(p); Big z; z = idbig(q); return z.a + z.c + (a == probe()); }
//@ buf p=4 q=4
int t_pt(Pt *p, Pt *q){ Pt r; r = addpt(p, q); Pt s[2]; s[1] = addpt(&r, p); return r.x * 3 + r.y * 5 + s[1].x * 7 + s[1].y; }
int t_pt2(int a, int b){ Pt v[3]; for (int i = 0; i < 3; ++i) v[i] = mkpt(a + i, b - i); return v[0].x + v[1].y * 3 + v[2].x * 5 + v[2].y * 7; }
//@ val n=0..7
int t_fib(int n){ return fib(n); }
//@ val n=0..8
int t_even(int n){ return even(n) * 2 + odd(n); }
//@ val n=0..5
int t_depth(int n){ int r = 1; char *a = probe(); int d = depth(n, &r); return r * 7 + d + (a == probe()); }
//@ val k=0..3
int t_fp(int k, int a, int b){ inits(); return (*ops[k])(a, b); }
//@ val k=0..2
int t_fptab(int k, int a){ inits(); return (*optab[k].f)(a, optab[k].k) + optab[k].n[0]; }
int t_fp2(int k, int a, int b){ binop f = pick(k); binop g = &hid; return apply(f, a, b) * 3 + apply(g, b, a) + (f == &add) + 2 * (g != &hid); }
int t_fp3(int a, int b){ binop t[2]; t[0] = &sub; t[1] = a > b ? &add : &mul2; return (*t[a & 1])(a, b) + (*t[1])(b, 2); }
int t_vsum(int a, int b, int c){ return vsum(3, a, b, c) + vsum(0) * 100 + vsum(1, c) * 10; }
int t_vnar(char a, short b, unsigned char c, unsigned short d, bool e){ return vsum(5, a, b, c, d, e); }
long long t_vmix(int i, unsigned u, long long l, double d){ return vmix("iuldi", i, u, l, d, i); }
long long t_vmix2(char c, float f, long long l, long m){ return vmix("cdidlL" + 1, f, c, 2.5, l, m); }
long long t_vmix3(int i, long long l){ int b[2]; b[0] = i; b[1] = (int)l; return vmix("plpi", &b[0], l, &b[1], 7); }
long long t_vmix4(int i, float f, double d){ return vmix("iddi", i, f, d, -i) + vmix("", 1) + vmix("d", f); }
int t_vcopy(int a, int b){ return vcopy(2, a, b); }
int t_vtop(int a, int b, int c){ char *p = probe(); int r = vtop("abc", a, b, c); return r * 2 + (p == probe()); }
int t_vrec(int a, int b){ return vsum(2, vsum(2, a, b), vsum(3, b, a, 1)); }
int t_setv(int a, int b){ int x = 1, y = 2; setv(&x, a); setv(&y, b); int z[2]; z[0] = z[1] = 4; setv(&z[1], a); return x - y + z[0] * 3 + z[1]; }
int t_void(int a){ gtr = a; noret(); noret(); return gtr; }
int t_stack(int a, int b){ char *p = probe(); int v[4]; for (int i = 0; i < 4; ++i) { int w[2]; w[0] = a + i; w[1] = b; v[i] = w[0] - w[1]; } if (a > b) { Big z; z = mkbig(a, b); if (z.c > 3) return (p == probe()) + v[3]; } char *q = probe(); return v[0] + v[3] + (p == q) * 100; }
int t_live(int a, int b){ int x = a, y = b; int *px = &x; int r = add(*px, sub(x, y)); *px += 1; r += apply(&add, x, y); setv(&y, r); return x + y + r; }
char *ret1(int a, char *p){ int t[6]; t[5] = a; if (a == 1) return p; { int u[3]; u[2] = a; if (a == 2) return p + u[2]; while (a > 0) { int w[2]; w[0] = a; if (w[0] == 3) return p + 1; a -= 2; } } return p + t[5]; }
//@ val a=-1..6
//@ buf p=8
int t_ret1(int a, char *p){ char *s = probe(); char *r = ret1(a, p); return (int)(r - p) * 2 + (s == probe()); }
#define GEN(x) _Generic(x, int: 1, unsigned: 2, long long: 3, double: 4, float: 5, char *: 6, default: 9)
int t_generic(int i, unsigned u, long long l, double d, float f, char *p){ return GEN(i) + GEN(u) * 10 + GEN(l) * 100 + GEN(d) * 1000 + GEN(f) * 10000 + GEN(p) * 100000 + GEN(u + l) * 1000000; }
//@ buf p=24
long long t_gretp(Big *p){ Big *q = p; q->a += 1; return (q++)->b + (int)(q - p); }
