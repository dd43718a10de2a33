#ifdef __WCPL__
#include <math.h>
#include <stdint.h>
#include <sys/intrs.h>
#define bits(d) (_dasull(d))
#else
#include <stdint.h>
#define bits(d) bits_(d)
static uint64_t bits_(double d){ union { double d; uint64_t u; } v; v.d = d; return v.u; }
static double dbl(uint64_t u){ union { double d; uint64_t u; } v; v.u = u; return v.d; }
static int isnan(double x){ return x != x; }
static int isinf(double x){ return (bits_(x) << 1) == 0xffe0000000000000ull; }
static int isfinite(double x){ return !isnan(x) && !isinf(x); }
static int signbit(double x){ return (int)(bits_(x) >> 63); }
enum { FP_NAN, FP_INFINITE, FP_ZERO, FP_SUBNORMAL, FP_NORMAL };
static int fpclassify(double x){ uint64_t a = bits_(x) & ~(1ull << 63); return a == 0 ? FP_ZERO : a < (1ull << 52) ? FP_SUBNORMAL : a < 0x7ff0000000000000ull ? FP_NORMAL : a == 0x7ff0000000000000ull ? FP_INFINITE : FP_NAN; }
static int isnormal(double x){ return fpclassify(x) == FP_NORMAL; }
static double fabs(double x){ return dbl(bits_(x) & ~(1ull << 63)); }
static double copysign(double x, double y){ return dbl((bits_(x) & ~(1ull << 63)) | (bits_(y) & (1ull << 63))); }
/* rounding: m 0 toward zero, 1 up, 2 down, 3 to nearest even, 4 to nearest away */
static double rnd(double x, int m){
  uint64_t u = bits_(x), s = u & (1ull << 63), a = u ^ s; int e = (int)(a >> 52) - 1023;
  if (e >= 52) return x;
  if (a == 0) return x;
  int up;
  if (e < 0) { /* magnitude below one */
    if (m == 0) up = 0; else if (m == 1) up = !s; else if (m == 2) up = !!s; else if (m == 3) up = a > 0x3fe0000000000000ull; else up = a >= 0x3fe0000000000000ull;
    return dbl(s | (up ? 0x3ff0000000000000ull : 0));
  }
  uint64_t f = a & ((1ull << (52 - e)) - 1), h = 1ull << (51 - e);
  a ^= f; if (!f) return x;
  if (m == 0) up = 0; else if (m == 1) up = !s; else if (m == 2) up = !!s; else if (m == 4) up = f >= h; else up = f > h || (f == h && (e == 0 || (a >> (52 - e)) & 1));
  if (up) a += h << 1;
  return dbl(s | a);
}
static double trunc(double x){ return rnd(x, 0); }
static double ceil(double x){ return rnd(x, 1); }
static double floor(double x){ return rnd(x, 2); }
static double nearbyint(double x){ return rnd(x, 3); }
static double round(double x){ return rnd(x, 4); }
static double sqrt(double x){ return __builtin_sqrt(x); }
static int lead(uint64_t m){ return 63 - __builtin_clzll(m); }
static double frexp(double x, int *p){
  uint64_t u = bits_(x), s = u & (1ull << 63), a = u ^ s; *p = 0;
  if (a == 0 || a >= 0x7ff0000000000000ull) return x;
  if (a < (1ull << 52)) { int l = lead(a); *p = l - 1073; a = (a << (52 - l)) & ((1ull << 52) - 1); }
  else { *p = (int)(a >> 52) - 1022; a &= (1ull << 52) - 1; }
  return dbl(s | 0x3fe0000000000000ull | a);
}
static double ldexp(double x, int n){
  uint64_t u = bits_(x), s = u & (1ull << 63), a = u ^ s; int e; uint64_t m;
  if (a == 0 || a >= 0x7ff0000000000000ull) return x;
  if (a < (1ull << 52)) { int l = lead(a); m = a << (52 - l); e = 1 - (52 - l); } else { m = (a & ((1ull << 52) - 1)) | (1ull << 52); e = (int)(a >> 52); }
  long long r = (long long)e + n;
  if (r >= 2047) return dbl(s | 0x7ff0000000000000ull);
  if (r >= 1) return dbl(s | ((uint64_t)r << 52) | (m & ((1ull << 52) - 1)));
  if (r < -53) return dbl(s);
  int k = 1 - (int)r; /* 1..54 */
  uint64_t q = m >> k, f = m & ((1ull << k) - 1), h = 1ull << (k - 1);
  if (f > h || (f == h && (q & 1))) ++q;
  return dbl(s | q);
}
#define scalbn ldexp
static double modf(double x, double *p){
  uint64_t u = bits_(x), s = u & (1ull << 63);
  if (isnan(x)) { *p = x; return x; }
  double t = rnd(x, 0); *p = t;
  if (isinf(x) || bits_(t) == u) return dbl(s);
  /* x - trunc(x), exact: normalise the fraction bits */
  uint64_t a = u ^ s; int e = (int)(a >> 52) - 1023;
  if (e < 0) return x;
  uint64_t f = a & ((1ull << (52 - e)) - 1); int l = lead(f);
  return dbl(s | ((uint64_t)(l - 52 + e + 1023) << 52) | ((f << (52 - l)) & ((1ull << 52) - 1)));
}
static double fmod(double x, double y){
  uint64_t ux = bits_(x), uy = bits_(y), s = ux & (1ull << 63), a = ux ^ s, b = uy & ~(1ull << 63);
  if (isnan(x) || isnan(y) || isinf(x) || b == 0) return dbl(0x7ff8000000000000ull);
  if (a < b) return x;
  if (a == b) return dbl(s);
  int ex, ey; uint64_t mx, my; /* value = m * 2^(e) with e = exponent field (subnormal: 1) */
  if (a >> 52) { ex = (int)(a >> 52); mx = (a & ((1ull << 52) - 1)) | (1ull << 52); } else { ex = 1; mx = a; }
  if (b >> 52) { ey = (int)(b >> 52); my = (b & ((1ull << 52) - 1)) | (1ull << 52); } else { ey = 1; my = b; }
  if (my < (1ull << 52)) { int l = lead(my); my <<= 52 - l; ey -= 52 - l; }
  if (mx < (1ull << 52)) { int l = lead(mx); mx <<= 52 - l; ex -= 52 - l; }
  for (; ex > ey; --ex) { if (mx >= my) mx -= my; mx <<= 1; }
  if (mx >= my) mx -= my;
  if (mx == 0) return dbl(s);
  int l = lead(mx); mx <<= 52 - l; ey -= 52 - l;
  if (ey >= 1) return dbl(s | ((uint64_t)ey << 52) | (mx & ((1ull << 52) - 1)));
  return dbl(s | (mx >> (1 - ey)));
}
static double fmax(double x, double y){ return isnan(x) ? y : isnan(y) ? x : x > y ? x : y; }
static double fmin(double x, double y){ return isnan(x) ? y : isnan(y) ? x : x < y ? x : y; }
#define _clz(x) ((x) == 0 ? 32 : __builtin_clz(x))
#endif

int t_class(double x){ return fpclassify(x); }
int t_isnan(double x){ return isnan(x) != 0; }
int t_isinf(double x){ return isinf(x) != 0; }
int t_isfinite(double x){ return isfinite(x) != 0; }
int t_isnormal(double x){ return isnormal(x) != 0; }
int t_signbit(double x){ return signbit(x) != 0; }
unsigned long long t_fabs(double x){ return bits(fabs(x)); }
unsigned long long t_copysign(double x, double y){ return bits(copysign(x, y)); }
//@ opt fp=fp
double t_trunc(double x){ return trunc(x); }
//@ opt fp=fp
double t_ceil(double x){ return ceil(x); }
//@ opt fp=fp
double t_floor(double x){ return floor(x); }
//@ opt fp=fp
double t_nearbyint(double x){ return nearbyint(x); }
//@ opt fp=fp
double t_round(double x){ return round(x); }
double t_sqrt(double x){ return sqrt(x); }
//@ opt fp=fp
double t_fmax(double x, double y){ return fmax(x, y) + 0.0; }
//@ opt fp=fp
double t_fmin(double x, double y){ return fmin(x, y) + 0.0; }
//@ buf p=8
//@ opt fp=fp
double t_frexp(double x, int *p){ return frexp(x, &p[1]); }
//@ opt fp=fp deadline=60
//@ pre: (bits(x) >> 52 & 0x7ff) != 0
double t_ldexp_n(double x, int n){ return ldexp(x, n); }
//@ opt fp=fp deadline=60
//@ pre: (bits(x) >> 52 & 0x7ff) != 0
double t_scalbn_n(double x, int n){ return scalbn(x, n); }
//@ pre: (bits(x) << 1) == 0
double t_ldexp_z(double x, int n){ return ldexp(x, n); }
//@ buf p=16
//@ opt fp=fp
double t_modf(double x, double *p){ return modf(x, p); }
