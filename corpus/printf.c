#ifdef __WCPL__
#include <stdio.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#else
#include <stdarg.h>
typedef __SIZE_TYPE__ size_t;
/* the C rules for the conversions %d %i %u %x %X %o %b %c %s %% with flags, width, precision and length */
static void put(char *b, size_t n, size_t *i, char c){ if (n && *i < n - 1) b[*i] = c; ++*i; }
static void num(char *b, size_t n, size_t *pi, unsigned long long v, int wide, int neg, unsigned base, int up, int fl, int w, int p){
  char d[72], sg[4]; int nd = 0, ns = 0, z = 0, k, t;
  if (!(p == 0 && v == 0)) {
    if (wide) do { unsigned c = (unsigned)(v % base); d[nd++] = (char)(c < 10 ? '0' + c : (up ? 'A' : 'a') + c - 10); v /= base; } while (v);
    else { unsigned u = (unsigned)v; do { unsigned c = u % base; d[nd++] = (char)(c < 10 ? '0' + c : (up ? 'A' : 'a') + c - 10); u /= base; } while (u); }
  }
  int zero = nd == 0 || (nd == 1 && d[0] == '0');
  if (neg) sg[ns++] = '-'; else if (fl & 4) sg[ns++] = '+'; else if (fl & 8) sg[ns++] = ' ';
  if ((fl & 16) && !zero && (base == 16 || base == 2)) { sg[ns++] = '0'; sg[ns++] = base == 2 ? 'b' : up ? 'X' : 'x'; }
  if (p > nd) z = p - nd;
  if ((fl & 16) && base == 8 && z == 0 && !(nd == 1 && d[0] == '0')) z = 1;
  t = ns + z + nd;
  if ((fl & 1) && !(fl & 2) && p < 0 && w > t) { z += w - t; t = w; }
  if (!(fl & 2)) for (k = t; k < w; k++) put(b, n, pi, ' ');
  for (k = 0; k < ns; k++) put(b, n, pi, sg[k]);
  while (z-- > 0) put(b, n, pi, '0');
  while (nd) put(b, n, pi, d[--nd]);
  if (fl & 2) for (k = t; k < w; k++) put(b, n, pi, ' ');
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap){
  size_t i = 0;
  for (; *f; f++) {
    if (*f != '%') { put(b, n, &i, *f); continue; }
    int fl = 0, w = 0, p = -1, len = 0; f++;
    for (;;) { if (*f == '0') fl |= 1; else if (*f == '-') fl |= 2; else if (*f == '+') fl |= 4; else if (*f == ' ') fl |= 8; else if (*f == '#') fl |= 16; else break; f++; }
    if (*f == '*') { w = va_arg(ap, int); if (w < 0) { fl |= 2; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    if (*f == '.') { f++; p = 0; if (*f == '*') { p = va_arg(ap, int); if (p < 0) p = -1; f++; } else while (*f >= '0' && *f <= '9') p = p * 10 + (*f++ - '0'); }
    if (*f == 'l') { len = 1; f++; if (*f == 'l') { len = 2; f++; } } else if (*f == 'h') { len = -1; f++; if (*f == 'h') { len = -2; f++; } }
    else if (*f == 'j') { len = 2; f++; } else if (*f == 'z' || *f == 't') { len = 1; f++; }
    unsigned base = 10; int up = 0;
    switch (*f) {
      case 'd': case 'i': {
        if (len == 2) { long long v = va_arg(ap, long long); num(b, n, &i, v < 0 ? 0 - (unsigned long long)v : (unsigned long long)v, 1, v < 0, 10, 0, fl & ~16, w, p); break; }
        int v = va_arg(ap, int); if (len == -1) v = (short)v; if (len == -2) v = (signed char)v;
        num(b, n, &i, v < 0 ? 0 - (unsigned)v : (unsigned)v, 0, v < 0, 10, 0, fl & ~16, w, p); break; }
      case 'X': up = 1; case 'x': base = 16; goto u;
      case 'o': base = 8; goto u;
      case 'b': base = 2; goto u;
      case 'u': fl &= ~16;
      u: { if (len == 2) { num(b, n, &i, va_arg(ap, unsigned long long), 1, 0, base, up, fl & ~12, w, p); break; }
        unsigned v = va_arg(ap, unsigned); if (len == -1) v = (unsigned short)v; if (len == -2) v = (unsigned char)v;
        num(b, n, &i, v, 0, 0, base, up, fl & ~12, w, p); break; }
      case 'c': { char c = (char)va_arg(ap, int); int k; if (!(fl & 2)) for (k = 1; k < w; k++) put(b, n, &i, ' '); put(b, n, &i, c); if (fl & 2) for (k = 1; k < w; k++) put(b, n, &i, ' '); break; }
      case 's': { const char *s = va_arg(ap, const char *); int l = 0, k; while ((p < 0 || l < p) && s[l]) l++; if (!(fl & 2)) for (k = l; k < w; k++) put(b, n, &i, ' '); for (k = 0; k < l; k++) put(b, n, &i, s[k]); if (fl & 2) for (k = l; k < w; k++) put(b, n, &i, ' '); break; }
      case '%': put(b, n, &i, '%'); break;
    }
  }
  if (n) b[i < n ? i : n - 1] = 0;
  return (int)i;
}
int snprintf(char *b, size_t n, const char *f, ...){ va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...){ va_list ap; va_start(ap, f); int r = vsnprintf(b, 0x7fffffff, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap){ return vsnprintf(b, 0x7fffffff, f, ap); }
size_t strlen(const char *s){ size_t n = 0; while (s[n]) n++; return n; }
#endif
char *nullp(void){ return (char *)(void *)0; }
int pin(int n, int lo, int hi){ for (int i = lo; i < hi; ++i) if (n == i) return i; return hi; }
/* build "%<flags><width><.prec><len><conv>" */
void mk(char *f, int fl, int w, int p, const char *len, char conv){
  *f++ = '%'; if (fl & 1) *f++ = '0'; if (fl & 2) *f++ = '-'; if (fl & 4) *f++ = '+'; if (fl & 8) *f++ = ' '; if (fl & 16) *f++ = '#';
  if (w >= 10) { *f++ = (char)('0' + w / 10); *f++ = (char)('0' + w % 10); } else if (w > 0) *f++ = (char)('0' + w);
  if (p >= 0) { *f++ = '.'; if (p >= 10) *f++ = (char)('0' + p / 10); if (p > 0) *f++ = (char)('0' + p % 10); }
  while (*len) *f++ = *len++;
  *f++ = conv; *f++ = '|'; *f = 0;
}
int wid[5]; int prc[5];
void tabs(int a, int b, int c, int d, int p, int q, int r, int s){ wid[0] = a; wid[1] = b; wid[2] = c; wid[3] = d; prc[0] = p; prc[1] = q; prc[2] = r; prc[3] = s; }
int fmt1(char *b, int fl, int wi, int pi, const char *len, char conv, int mask, unsigned v){ char f[20]; fl = pin(fl, 0, 31); if (fl & ~mask) return 0; mk(&f[0], fl, wid[pin(wi, 0, 3)], prc[pin(pi, 0, 3)], len, conv); return snprintf(b, 40, &f[0], v); }
int fmt2(char *b, int fl, int wi, int pi, const char *len, char conv, int mask, unsigned long long v){ char f[20]; fl = pin(fl, 0, 31); if (fl & ~mask) return 0; mk(&f[0], fl, wid[pin(wi, 0, 3)], prc[pin(pi, 0, 3)], len, conv); return snprintf(b, 40, &f[0], v); }
//@ buf b=40
//@ val fl=0..31 wi=0..3 pi=0..3
//@ pre: (fl & ~15) == 0 && v > -1000 && v < 1000
//@ opt deadline=120 paths=20000 slow
int t_d(char *b, int fl, int wi, int pi, int v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "", 'd', 15, (unsigned)v); }
//@ buf b=40
//@ val fl=0..31 wi=0..3 pi=0..3
//@ pre: (fl & ~3) == 0 && v < 10000
//@ opt deadline=120 paths=20000 slow
int t_u(char *b, int fl, int wi, int pi, unsigned v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "", 'u', 3, v); }
//@ buf b=40
//@ val fl=0..31 wi=0..3 pi=0..3
//@ pre: (fl & ~19) == 0 && v < 0x10000
//@ opt deadline=120 paths=20000 slow
int t_x(char *b, int fl, int wi, int pi, unsigned v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "", 'x', 19, v); }
//@ buf b=40
//@ val fl=0..31 wi=0..3 pi=0..3
//@ pre: (fl & ~19) == 0 && v < 0x1000 || v >= 0xfffff000u
//@ opt deadline=120 paths=20000 slow
int t_X(char *b, int fl, int wi, int pi, unsigned v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "", 'X', 19, v); }
//@ buf b=40
//@ val fl=0..31 wi=0..3 pi=0..3
//@ pre: (fl & ~19) == 0 && v < 0x1000 || v >= 0xfffff000u
//@ opt deadline=120 paths=20000 slow
int t_o(char *b, int fl, int wi, int pi, unsigned v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "", 'o', 19, v); }
//@ buf b=40
//@ val fl=0..31 wi=0..3 pi=0..3
//@ pre: (fl & ~19) == 0 && v < 16
//@ opt deadline=120 paths=20000 slow
int t_b(char *b, int fl, int wi, int pi, unsigned v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "", 'b', 19, v); }
//@ buf b=40
//@ val fl=0..31 wi=1..2 pi=0..2
//@ pre: (fl & ~15) == 0 && (v & 0xffff) < 100 || (v & 0xffff) > 0xffc0
//@ opt deadline=120 paths=20000 slow
int t_hd(char *b, int fl, int wi, int pi, int v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "h", 'd', 15, (unsigned)v); }
//@ buf b=40
//@ val fl=0..31 wi=0..3 pi=0..3
//@ pre: (fl & ~15) == 0
//@ opt deadline=120 paths=20000 slow
int t_hhd(char *b, int fl, int wi, int pi, int v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "hh", 'i', 15, (unsigned)v); }
//@ buf b=40
//@ val fl=0..31 wi=0..3 pi=0..3
//@ pre: (fl & ~3) == 0
//@ opt deadline=120 paths=20000 slow
int t_hu(char *b, int fl, int wi, int pi, unsigned v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "h", 'u', 3, v); }
//@ buf b=40
//@ val fl=0..31 wi=0..3 pi=0..3
//@ pre: (fl & ~19) == 0
//@ opt deadline=120 paths=20000 slow
int t_hhx(char *b, int fl, int wi, int pi, unsigned v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "hh", 'x', 19, v); }
//@ buf b=40
//@ val fl=0..31 wi=1..2 pi=0..2
//@ pre: (fl & ~15) == 0 && v > -100 && v < 100
//@ opt deadline=120 paths=20000 slow
int t_ld(char *b, int fl, int wi, int pi, int v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "l", 'd', 15, (unsigned)v); }
//@ buf b=40
//@ val fl=0..31 wi=0..3 pi=0..3
//@ pre: (fl & ~3) == 0 && v < 100
//@ opt deadline=120 paths=20000 slow
int t_zu(char *b, int fl, int wi, int pi, unsigned v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "z", 'u', 3, v); }
//@ buf b=40
//@ val fl=0..31 wi=1..2 pi=0..2
//@ pre: (fl & ~15) == 0 && v > -100 && v < 100
//@ opt deadline=120 paths=20000 slow
int t_td(char *b, int fl, int wi, int pi, int v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "t", 'i', 15, (unsigned)v); }
//@ buf b=40
//@ val fl=0..31 wi=1..2 pi=0..2
//@ pre: (fl & ~19) == 0 && v < 0x1000
//@ opt deadline=120 paths=20000 slow
int t_lx(char *b, int fl, int wi, int pi, unsigned v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt1(b, fl, wi, pi, "l", 'X', 19, v); }
//@ buf b=40
//@ val fl=0..31 wi=1..2 pi=0..2
//@ pre: (fl & ~15) == 0 && v > -100 && v < 100
//@ opt deadline=120 paths=20000 slow
int t_lld(char *b, int fl, int wi, int pi, long long v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt2(b, fl, wi, pi, "ll", 'd', 15, (unsigned long long)v); }
//@ buf b=40
//@ val fl=0..31 wi=0..3 pi=0..3
//@ pre: (fl & ~3) == 0 && v < 100
//@ opt deadline=120 paths=20000 slow
int t_llu(char *b, int fl, int wi, int pi, unsigned long long v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt2(b, fl, wi, pi, "ll", 'u', 3, v); }
//@ buf b=40
//@ val fl=0..31 wi=1..2 pi=0..2
//@ pre: (fl & ~19) == 0 && v < 0x1000
//@ opt deadline=120 paths=20000 slow
int t_llx(char *b, int fl, int wi, int pi, unsigned long long v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt2(b, fl, wi, pi, "ll", 'x', 19, v); }
//@ buf b=40
//@ val fl=0..31 wi=0..3 pi=0..3
//@ pre: (fl & ~19) == 0 && v < 0x100
//@ opt deadline=120 paths=20000 slow
int t_jx(char *b, int fl, int wi, int pi, unsigned long long v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt2(b, fl, wi, pi, "j", 'X', 19, v); }
//@ buf b=40
//@ val fl=0..31 wi=0..3 pi=0..3
//@ pre: (fl & ~19) == 0 && v < 0x100
//@ opt deadline=120 paths=20000 slow
int t_llo(char *b, int fl, int wi, int pi, unsigned long long v){ tabs(0, 1, 5, 12, -1, 0, 3, 9); return fmt2(b, fl, wi, pi, "ll", 'o', 19, v); }
//@ buf b=16
int t_dfull(char *b, int v){ return sprintf(b, "%d", v); }
//@ buf b=16
int t_ifull(char *b, int v){ return sprintf(b, "%+12i", v); }
//@ buf b=16
int t_ufull(char *b, unsigned v){ return sprintf(b, "%-12u|", v); }
//@ buf b=16
int t_xfull(char *b, unsigned v){ return sprintf(b, "%#x", v); }
//@ buf b=16
int t_xfull8(char *b, unsigned v){ return sprintf(b, "%#8X", v); }
//@ buf b=16
int t_xfull10(char *b, unsigned v){ return sprintf(b, "%#010x", v); }
//@ buf b=16
int t_ofull(char *b, unsigned v){ return sprintf(b, "%#o", v); }
//@ buf b=40
int t_bfull(char *b, unsigned v){ return sprintf(b, "%b", v); }
//@ buf b=32
//@ pre: v > -1000000 && v < 1000000
int t_lldfull(char *b, long long v){ return sprintf(b, "%lld", v); }
//@ buf b=32
//@ opt deadline=120 slow
int t_llufull(char *b, unsigned long long v){ return sprintf(b, "%20llu", v); }
//@ buf b=32
//@ pre: v < 0x100000000ULL
int t_llxfull(char *b, unsigned long long v){ return sprintf(b, "%#18llx", v); }
//@ buf b=32
int t_llofull(char *b, unsigned long long v){ return sprintf(b, "%llo", v); }
//@ buf b=80
int t_llbfull(char *b, unsigned long long v){ return sprintf(b, "%llb", v); }
//@ buf b=64
//@ val w=-50..50
//@ pre: v < 100 && v > -100
int t_star(char *b, int w, int v){ w = pin(w, -50, 50); return sprintf(b, "%*d", w, v); }
//@ buf b=64
//@ val p=-3..50
//@ pre: v < 100 && v > -100
int t_starp(char *b, int p, int v){ p = pin(p, -3, 50); return sprintf(b, "%.*d", p, v); }
//@ buf b=64
//@ val w=-6..6
//@ val p=-3..6
//@ pre: v < 100 && v > -100
int t_starwp(char *b, int w, int p, int v){ w = pin(w, -6, 6); p = pin(p, -3, 6); return sprintf(b, "<%0*.*d>", w, p, v); }
//@ buf b=24
//@ val n=0..20
//@ pre: v < 1000 && v > -1000
int t_trunc(char *b, int n, int v, unsigned char c){ n = pin(n, 0, 20); return snprintf(b, (size_t)n, "ab%dcd%5xe%c", v, (unsigned)c, 'z'); }
//@ buf b=24
//@ str s
//@ buf s=8
//@ val n=0..12
int t_truncs(char *b, int n, char *s){ n = pin(n, 0, 12); return snprintf(b, (size_t)n, "(%s)", s); }
//@ str s
//@ buf s=6
//@ pre: v < 1000 && v > -1000
int t_null(char *s, int v){ return snprintf(nullp(), 0, "%s %d%%%c", s, v, 'q'); }
//@ buf b=32
//@ str s
//@ buf s=6
//@ val w=-9..9
//@ val p=-2..8
int t_s(char *b, char *s, int w, int p){ w = pin(w, -9, 9); p = pin(p, -2, 8); return sprintf(b, "[%*.*s]", w, p, s); }
//@ buf b=32 s=5
//@ val p=1..5
int t_sp(char *b, char *s, int p){ p = pin(p, 1, 5); return sprintf(b, "%.*s.", p, s); }
//@ buf b=32
//@ val w=-5..5
int t_c(char *b, int w, int c){ w = pin(w, -5, 5); return sprintf(b, "[%*c]%c", w, c, c + 1); }
//@ buf b=32
//@ str s
//@ buf s=4
//@ pre: v < 100 && v > -10 && l < 10 && l > -10 && u < 256
int t_mix(char *b, char *s, int v, long long l, unsigned u){ return sprintf(b, "%d,%lld:%s %x%%", v, l, s, u); }
//@ str f
//@ buf f=4
//@ buf b=24
//@ opt paths=9000
//@ pre: f[0] != '%' && f[1] != '%' && f[2] != '%' && f[3] != '%'
int t_lit(char *b, char *f){ return snprintf(b, 24, f); }
int vsn(char *b, size_t n, const char *f, ...){ va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vs(char *b, const char *f, ...){ va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); return r; }
//@ buf b=24
//@ pre: v < 1000 && v > -1000 && l < 100 && l > -100
int t_vsn(char *b, int v, long long l){ return vsn(b, 9, "%d/%lld/%i", v, l, 5); }
//@ buf b=24
//@ pre: v < 1000 && v > -1000 && l < 100 && l > -100
int t_vs(char *b, int v, long long l){ return vs(b, "%d/%lld/%i", v, l, 5); }
