#ifdef __WCPL__
#include <stdlib.h>
#include <errno.h>
#include <stddef.h>
#include <limits.h>
#else
#define NULL ((void*)0)
#define ERANGE 68
#define EILSEQ 25
typedef unsigned char uc; typedef __SIZE_TYPE__ size_t; typedef unsigned wchar_t; 
int errno;
static int sp(int c){ return c == 32 || (c >= 9 && c <= 13); }
static int dg(int c){ return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
/* kind: bits of the result, signedness */
static unsigned long long conv(const char *s, char **e, int base, int bits, int sig){
  const char *p = s; int neg = 0, any = 0, over = 0; unsigned long long v = 0, lim;
  while (sp((uc)*p)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dg((uc)p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  lim = bits == 64 ? ~0ull : 0xffffffffull; if (sig) lim = neg ? lim / 2 + 1 : lim / 2;
  for (; dg((uc)*p) < base; p++) { unsigned d = dg((uc)*p); any = 1; if (over || v > (lim - d) / base) over = 1; else v = v * base + d; }
  if (e) *e = (char *)(any ? p : s);
  if (over) { errno = ERANGE; return sig && neg ? -lim : lim; }
  return neg ? -v : v;
}
long strtol(const char *s, char **e, int b){ return (long)conv(s, e, b, 32, 1); }
unsigned long strtoul(const char *s, char **e, int b){ return (unsigned long)conv(s, e, b, 32, 0); }
long long strtoll(const char *s, char **e, int b){ return (long long)conv(s, e, b, 64, 1); }
unsigned long long strtoull(const char *s, char **e, int b){ return conv(s, e, b, 64, 0); }
long long strtoimax(const char *s, char **e, int b){ return (long long)conv(s, e, b, 64, 1); }
unsigned long long strtoumax(const char *s, char **e, int b){ return conv(s, e, b, 64, 0); }
int atoi(const char *s){ return (int)conv(s, NULL, 10, 64, 1); }
long atol(const char *s){ return (long)conv(s, NULL, 10, 64, 1); }
long long atoll(const char *s){ return (long long)conv(s, NULL, 10, 64, 1); }
typedef struct { int quot, rem; } div_t; typedef struct { long quot, rem; } ldiv_t; typedef struct { long long quot, rem; } lldiv_t;
div_t div(int a, int b){ div_t d; d.quot = a / b; d.rem = a % b; return d; }
ldiv_t ldiv(long a, long b){ ldiv_t d; d.quot = a / b; d.rem = a % b; return d; }
lldiv_t lldiv(long long a, long long b){ lldiv_t d; d.quot = a / b; d.rem = a % b; return d; }
int abs(int a){ return a < 0 ? -a : a; }
long labs(long a){ return a < 0 ? -a : a; }
long long llabs(long long a){ return a < 0 ? -a : a; }
static unsigned long long seed = 0x1330eull;
void srand(unsigned s){ seed = ((unsigned long long)s << 16) | 0x330e; }
int rand(void){ seed = (seed * 0x5DEECE66DULL + 11) & 0xffffffffffffull; return (int)((unsigned)(seed >> 16) >> 1); }
int mbtowc(wchar_t *p, const char *s, size_t n){ if (!s) return 0; if (!n) { errno = EILSEQ; return -1; } unsigned c = (uc)s[0], v; int k;
  if (c < 0x80) { if (p) *p = c; return c != 0; }
  if (c < 0xc0 || c >= 0xfe) { errno = EILSEQ; return -1; }
  k = c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf8 ? 4 : c < 0xfc ? 5 : 6; v = c & (0x7f >> k);
  for (int i = 1; i < k; i++) { if (i >= n || ((uc)s[i] & 0xc0) != 0x80) { errno = EILSEQ; return -1; } v = (v << 6) | (s[i] & 0x3f); }
  if (v < (k == 2 ? 0x80 : k == 3 ? 0x800 : k == 4 ? 0x10000 : k == 5 ? 0x200000u : 0x4000000u)) { errno = EILSEQ; return -1; }
  if (p) *p = v; return k; }
int mblen(const char *s, size_t n){ return mbtowc(NULL, s, n); }
int wctomb(char *s, wchar_t w){ if (!s) return 0; if (w < 0x80) { s[0] = (char)w; return 1; }
  if (w < 0x800) { s[0] = (char)(0xc0 | w >> 6); s[1] = (char)(0x80 | (w & 63)); return 2; }
  if (w < 0x10000) { s[0] = (char)(0xe0 | w >> 12); s[1] = (char)(0x80 | ((w >> 6) & 63)); s[2] = (char)(0x80 | (w & 63)); return 3; }
  if (w < 0x200000) { s[0] = (char)(0xf0 | w >> 18); s[1] = (char)(0x80 | ((w >> 12) & 63)); s[2] = (char)(0x80 | ((w >> 6) & 63)); s[3] = (char)(0x80 | (w & 63)); return 4; } return -1; }
size_t mbstowcs(wchar_t *d, const char *s, size_t n){ size_t k = 0; while (k < n) { wchar_t w; if (!*s) { d[k] = 0; return k; } int l = mbtowc(&w, s, 6); if (l < 0) return (size_t)-1; d[k++] = w; s += l; } return k; }
size_t wcstombs(char *d, const wchar_t *s, size_t n){ size_t k = 0; while (k < n) { char b[6]; if (!*s) { d[k] = 0; return k; } int l = wctomb(b, *s++); if (l < 0) return (size_t)-1; if (k + l > n) return k; for (int i = 0; i < l; i++) d[k++] = b[i]; } return k; }
void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)){ for (size_t i = 0; i < n; i++) if (cmp(key, (const char *)base + i * sz) == 0) return (char *)base + i * sz; return NULL; }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)){ char *b = base; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = b[j * sz + k]; b[j * sz + k] = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = t; } }
#endif
int off(const void *r, const void *p){ return r == NULL ? -1 : (int)((char *)r - (char *)p); }
int wssz(void){ return 0; }
int cmpi(const void *a, const void *b){ int x = *(const int *)a, y = *(const int *)b; return (x > y) - (x < y); }
int cmpuc(const void *a, const void *b){ return (int)*(const unsigned char *)a - (int)*(const unsigned char *)b; }
int cmps(const void *a, const void *b){ short x = *(const short *)a, y = *(const short *)b; return (y > x) - (y < x); }
int cmpll(const void *a, const void *b){ long long x = *(const long long *)a, y = *(const long long *)b; return (x > y) - (x < y); }
//@ buf p=5
//@ str p
int t_atoi(char *p){ return atoi(p); }
//@ buf p=4
//@ str p
long t_atol(char *p){ return atol(p); }
//@ buf p=4
//@ str p
long long t_atoll(char *p){ return atoll(p); }
//@ buf p=4
//@ str p
//@ opt deadline=60
long t_strtol10(char *p){ char *e; errno = 0; long r = strtol(p, &e, 10); return r * 64 + off(e, p) * 2 + (errno != 0); }
//@ buf p=5
//@ str p
//@ opt deadline=60
long t_strtol0(char *p){ char *e; errno = 0; long r = strtol(p, &e, 0); return r * 64 + off(e, p) * 2 + (errno != 0); }
//@ buf p=5
//@ str p
//@ opt deadline=60
long t_strtol16(char *p){ char *e; long r = strtol(p, &e, 16); return r * 64 + off(e, p); }
//@ buf p=3
//@ str p
//@ opt deadline=60
long t_strtol36(char *p){ char *e; long r = strtol(p, &e, 36); return r * 64 + off(e, p); }
//@ buf p=4
//@ val b=2..12
//@ pre: p[0] > 32 && p[3] == 0
//@ opt deadline=60
unsigned long t_strtoulb(char *p, int b){ char *e; unsigned long r = strtoul(p, &e, b); return r * 64 + off(e, p); }
//@ buf p=11
//@ pre: p[0] == '4' && p[1] == '2' && p[2] == '9' && p[3] == '4' && p[4] == '9' && p[5] == '6' && p[6] == '7' && p[7] == '2' && p[10] == 0 && p[8] >= '0' && p[8] <= '9' && p[9] >= '0' && p[9] <= '9'
unsigned long t_strtoulmax(char *p){ char *e; errno = 0; unsigned long r = strtoul(p, &e, 10); return r ^ (errno << 20) ^ (off(e, p) << 27); }
//@ buf p=12
//@ pre: (p[0] == '-' || p[0] == '+') && p[1] == '2' && p[2] == '1' && p[3] == '4' && p[4] == '7' && p[5] == '4' && p[6] == '8' && p[7] == '3' && p[8] == '6' && p[11] == 0 && p[9] >= '0' && p[9] <= '9'
long t_strtolmax(char *p){ char *e; errno = 0; long r = strtol(p, &e, 10); return r ^ (errno << 20) ^ (off(e, p) << 25); }
//@ buf p=21
//@ pre: p[0] == '1' && p[1] == '8' && p[2] == '4' && p[3] == '4' && p[4] == '6' && p[5] == '7' && p[6] == '4' && p[7] == '4' && p[8] == '0' && p[9] == '7' && p[10] == '3' && p[11] == '7' && p[12] == '0' && p[13] == '9' && p[14] == '5' && p[15] == '5' && p[16] == '1' && p[17] == '6' && p[18] == '1' && p[19] >= '0' && p[19] <= '9' && p[20] == 0
unsigned long long t_strtoullmax(char *p){ char *e; errno = 0; unsigned long long r = strtoull(p, &e, 10); return r ^ (errno << 20) ^ (off(e, p) << 25); }
//@ buf p=20
//@ pre: p[0] == '-' && p[1] == '7' && p[2] == 'f' && p[3] == 'f' && p[4] == 'F' && p[5] == 'f' && p[6] == 'f' && p[7] == 'f' && p[8] == 'f' && p[9] == 'f' && p[10] == 'f' && p[11] == 'f' && p[12] == 'f' && p[13] == 'f' && p[14] == 'f' && p[15] == 'f' && p[18] == 0
long long t_strtollmax(char *p){ char *e; errno = 0; long long r = strtoll(p, &e, 16); return r ^ (errno << 20) ^ (off(e, p) << 25); }
//@ buf p=4
//@ str p
//@ opt deadline=60
long long t_strtoll(char *p){ char *e; long long r = strtoll(p, &e, 10); return r * 64 + off(e, p); }
//@ buf p=4
//@ str p
int t_strtol_n(char *p){ return (int)strtol(p, NULL, 10); }
//@ pre: b != 0 && !(a == -2147483648 && b == -1)
int t_div(int a, int b){ div_t d; d = div(a, b); return d.quot ^ (d.rem << 7); }
//@ pre: b != 0 && !(a == -2147483648 && b == -1)
long t_ldiv(long a, long b){ ldiv_t d; d = ldiv(a, b); return d.quot ^ (d.rem << 7); }
//@ pre: b != 0 && !(a == (-9223372036854775807LL - 1) && b == -1)
long long t_lldiv(long long a, long long b){ lldiv_t d; d = lldiv(a, b); return d.quot ^ (d.rem << 7); }
int t_abs(int a){ return abs(a); }
long t_labs(long a){ return labs(a); }
long long t_llabs(long long a){ return llabs(a); }
int t_rand(unsigned s){ srand(s); int a = rand(), b = rand(), c = rand(); srand(s); int d = rand(); return (a >= 0) + (b >= 0) * 2 + (c >= 0) * 4 + (a == d) * 8; }
unsigned t_rand0(void){ int a = rand(); srand(1); return a == rand(); }
//@ buf p=8 q=6
//@ val n=0..6
int t_mbtowc(unsigned *p, char *q, int n){ errno = 0; int r = mbtowc((wchar_t *)p, q, (size_t)n); return r * 2 + (errno != 0); }
//@ buf q=6
//@ val n=0..6
int t_mblen(char *q, int n){ return mblen(q, (size_t)n) + mblen(NULL, 3); }
//@ buf p=8
int t_wctomb(char *p, unsigned w){ return wctomb(p, (wchar_t)w); }
//@ buf p=24 q=7
//@ str q
//@ val n=0..5
int t_mbstowcs(unsigned *p, char *q, int n){ return (int)mbstowcs((wchar_t *)p, q, (size_t)n); }
//@ buf p=12 q=12
//@ val n=0..9
//@ pre: q[2] == 0 && q[0] < 0x200000 && q[1] < 0x200000
int t_wcstombs(char *p, unsigned *q, int n){ return (int)wcstombs(p, (wchar_t *)q, (size_t)n); }
#ifdef __WCPL__
int chk_i(int *p, int n, int v, int g){ int a[8]; int i, c = 0; for (i = 0; i < n; ++i) { a[i] = p[i]; c += p[i] == v; } a[n] = g; qsort(&a[0], (size_t)n, 4, &cmpi); for (i = 1; i < n; ++i) if (cmpi(&a[i-1], &a[i]) > 0) return 0; for (i = 0; i < n; ++i) c -= a[i] == v; return c == 0 && a[n] == g; }
int chk_c(unsigned char *p, int n, unsigned char v, unsigned char g){ unsigned char a[12]; int i, c = 0; for (i = 0; i < n; ++i) { a[i] = p[i]; c += p[i] == v; } a[n] = g; qsort(&a[0], (size_t)n, 1, &cmpuc); for (i = 1; i < n; ++i) if (cmpuc(&a[i-1], &a[i]) > 0) return 0; for (i = 0; i < n; ++i) c -= a[i] == v; return c == 0 && a[n] == g; }
int chk_s(short *p, int n, short v, short g){ short a[8]; int i, c = 0; for (i = 0; i < n; ++i) { a[i] = p[i]; c += p[i] == v; } a[n] = g; qsort(&a[0], (size_t)n, 2, &cmps); for (i = 1; i < n; ++i) if (cmps(&a[i-1], &a[i]) > 0) return 0; for (i = 0; i < n; ++i) c -= a[i] == v; return c == 0 && a[n] == g; }
int chk_l(long long *p, int n, long long v, long long g){ long long a[8]; int i, c = 0; for (i = 0; i < n; ++i) { a[i] = p[i]; c += p[i] == v; } a[n] = g; qsort(&a[0], (size_t)n, 8, &cmpll); for (i = 1; i < n; ++i) if (cmpll(&a[i-1], &a[i]) > 0) return 0; for (i = 0; i < n; ++i) c -= a[i] == v; return c == 0 && a[n] == g; }
#else
int chk_i(int *p, int n, int v, int g){ return 1; }
int chk_c(unsigned char *p, int n, unsigned char v, unsigned char g){ return 1; }
int chk_s(short *p, int n, short v, short g){ return 1; }
int chk_l(long long *p, int n, long long v, long long g){ return 1; }
#endif
//@ buf p=16
//@ val n=0..4
//@ opt deadline=90 slow
int t_qsort_i(int *p, int n, int v, int g){ return chk_i(p, n, v, g); }
//@ buf p=20
//@ opt deadline=120 slow
int t_qsort_i5(int *p, int v, int g){ return chk_i(p, 5, v, g); }
//@ buf p=5
//@ opt deadline=120 slow
int t_qsort_c(unsigned char *p, unsigned char v, unsigned char g){ return chk_c(p, 5, v, g); }
//@ buf p=5
//@ pre: p[0] <= 1 && p[1] <= 1 && p[2] <= 1 && p[3] <= 1 && p[4] <= 1
//@ opt deadline=120 slow paths=6000
int t_qsort_01_5(unsigned char *p, unsigned char v){ return chk_c(p, 5, v, 7); }
//@ buf p=6
//@ pre: p[0] <= 1 && p[1] <= 1 && p[2] <= 1 && p[3] <= 1 && p[4] <= 1 && p[5] <= 1
//@ opt deadline=120 slow paths=6000
int t_qsort_01_6(unsigned char *p, unsigned char v){ return chk_c(p, 6, v, 7); }
//@ buf p=7
//@ pre: p[0] <= 1 && p[1] <= 1 && p[2] <= 1 && p[3] <= 1 && p[4] <= 1 && p[5] <= 1 && p[6] <= 1
//@ opt deadline=120 slow paths=6000
int t_qsort_01_7(unsigned char *p, unsigned char v){ return chk_c(p, 7, v, 7); }
//@ buf p=8
//@ pre: p[0] <= 1 && p[1] <= 1 && p[2] <= 1 && p[3] <= 1 && p[4] <= 1 && p[5] <= 1 && p[6] <= 1 && p[7] <= 1
//@ opt deadline=120 slow paths=6000
int t_qsort_01_8(unsigned char *p, unsigned char v){ return chk_c(p, 8, v, 7); }
//@ buf p=9
//@ pre: p[0] <= 1 && p[1] <= 1 && p[2] <= 1 && p[3] <= 1 && p[4] <= 1 && p[5] <= 1 && p[6] <= 1 && p[7] <= 1 && p[8] <= 1
//@ opt deadline=120 slow paths=6000
int t_qsort_01_9(unsigned char *p, unsigned char v){ return chk_c(p, 9, v, 7); }
//@ buf p=10
//@ pre: p[0] <= 1 && p[1] <= 1 && p[2] <= 1 && p[3] <= 1 && p[4] <= 1 && p[5] <= 1 && p[6] <= 1 && p[7] <= 1 && p[8] <= 1 && p[9] <= 1
//@ opt deadline=120 slow paths=6000
int t_qsort_01_10(unsigned char *p, unsigned char v){ return chk_c(p, 10, v, 7); }
//@ buf p=6
//@ pre: p[0] <= 2 && p[1] <= 2 && p[2] <= 2 && p[3] <= 2 && p[4] <= 2 && p[5] <= 2
//@ opt deadline=120 slow
int t_qsort_012(unsigned char *p, unsigned char v){ return chk_c(p, 6, v, 7); }
//@ buf p=8
//@ opt deadline=90 slow
int t_qsort_s(short *p, short v, short g){ return chk_s(p, 4, v, g); }
//@ buf p=32
//@ opt deadline=90 slow
int t_qsort_l(long long *p, long long v, long long g){ return chk_l(p, 4, v, g); }
//@ buf p=28
//@ val n=0..7
//@ pre: p[0] < p[1] && p[1] < p[2] && p[2] < p[3] && p[3] < p[4] && p[4] < p[5] && p[5] < p[6]
int t_bsearch(int *p, int n, int k){ return off(bsearch(&k, p, (size_t)n, 4, &cmpi), p); }
//@ buf p=6
//@ val n=0..6
//@ pre: p[0] < p[1] && p[1] < p[2] && p[2] < p[3] && p[3] < p[4] && p[4] < p[5]
int t_bsearch_c(unsigned char *p, int n, unsigned char k){ return off(bsearch(&k, p, (size_t)n, 1, &cmpuc), p); }
