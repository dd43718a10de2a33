#ifdef __WCPL__
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
int h_scan(char *o, const char *s, const char *f){ return sscanf(s, f, &o[0], &o[16], &o[32]); }
int h_nscan(char *o, const char *s, int n, const char *f){ return snscanf(s, (size_t)n, f, &o[0], &o[16], &o[32]); }
#else
typedef unsigned long long u64;
/* the input of one call: S[SI..SN); -1 at its end */
static const char *S_; static int SI, SN;
static int peek(void){ return SI < SN ? (unsigned char)S_[SI] : -1; }
static int sp(int c){ return c == 32 || (c >= 9 && c <= 13); }
static int dig(int c, int b){ int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; return v < b ? v : -1; }
static void put(char *o, u64 v, int n){ for (int i = 0; i < n; ++i) o[i] = (char)(v >> (8 * i)); }
/* an input item: at most w characters */
static int W; static int more(void){ return W != 0 && SI < SN; }
static void eat(void){ SI++; if (W > 0) W--; }
static int word(const char *m){ int n = 0; while (m[n] && more() && (peek() | 32) == m[n]) { eat(); n++; } return n; }
static int doscan(char *o, const char *f){
  int done = 0, slot = 0;
  for (; *f; ++f) {
    if (sp(*f)) { while (sp(peek())) SI++; continue; }
    if (*f != '%') { if (peek() < 0) return done ? done : -1; if (peek() != (unsigned char)*f) return done; SI++; continue; }
    ++f; int sup = 0, size = 4; W = -1; char *d = 0;
    if (*f == '*') { sup = 1; ++f; }
    if (*f >= '0' && *f <= '9') { W = 0; while (*f >= '0' && *f <= '9') W = W * 10 + *f++ - '0'; }
    if (*f == 'h') { size = 2; if (*++f == 'h') { size = 1; ++f; } } else if (*f == 'l') { size = 5; if (*++f == 'l') { size = 8; ++f; } } else if (*f == 'j') { size = 8; ++f; } else if (*f == 'z' || *f == 't') ++f;
    if (*f == '%') { while (sp(peek())) SI++; if (peek() < 0) return done ? done : -1; if (peek() != '%') return done; SI++; continue; }
    if (!sup) { d = o + 16 * slot++; }
    if (*f == 'n') { if (d) put(d, (u64)SI, size == 5 ? 4 : size); continue; }
    if (*f != 'c' && *f != '[') while (sp(peek())) SI++;
    if (peek() < 0) return done ? done : -1;
    switch (*f) {
    case 'c': { if (W < 0) W = 1; int i = 0; while (more()) { if (d) d[i] = (char)peek(); i++; eat(); } if (W) return done; break; }
    case 's': { int i = 0; while (more() && !sp(peek())) { if (d) d[i] = (char)peek(); i++; eat(); } if (d) d[i] = 0; break; }
    case '[': { int inv = 0, i = 0; const char *b = ++f; if (*b == '^') { inv = 1; b = ++f; } if (*f == ']') ++f; while (*f != ']') ++f;
      while (more()) { int in = 0; for (const char *q = b; q < f; ++q) { if (q + 2 < f && q[1] == '-') { if (peek() >= (unsigned char)q[0] && peek() <= (unsigned char)q[2]) in = 1; q += 2; } else if (peek() == (unsigned char)*q) in = 1; }
        if (in == inv) break; if (d) d[i] = (char)peek(); i++; eat(); }
      if (!i) return done; if (d) d[i] = 0; break; }
    case 'd': case 'i': case 'o': case 'u': case 'x': case 'X': case 'p': {
      int b = *f == 'd' || *f == 'u' ? 10 : *f == 'o' ? 8 : *f == 'i' ? 0 : 16, neg = 0, n = 0; u64 v = 0;
      if (more() && (peek() == '-' || peek() == '+')) { neg = peek() == '-'; eat(); }
      if ((b == 0 || b == 16) && more() && peek() == '0') { eat(); n = 1; if (more() && (peek() | 32) == 'x') { eat(); n = 0; b = 16; } else if (b == 0) b = 8; }
      if (b == 0) b = 10;
      while (more() && dig(peek(), b) >= 0) { v = v * (u64)b + (u64)dig(peek(), b); n++; eat(); }
      if (!n) return done;
      if (neg) v = -v; if (d) put(d, v, size == 5 ? 4 : size); break; }
    default: { /* floating: at most a few digits */
      int neg = 0, n = 0, e = 0; double v = 0;
      if (more() && (peek() == '-' || peek() == '+')) { neg = peek() == '-'; eat(); }
      if (more() && ((peek() | 32) == 'i' || (peek() | 32) == 'n')) {
        u64 u; if ((peek() | 32) == 'i') { int k = word("infinity"); if (k != 3 && k != 8) return done; u = neg ? 0xfff0000000000000ULL : 0x7ff0000000000000ULL; if (size == 4) u = neg ? 0xff800000u : 0x7f800000u; }
        else { if (word("nan") != 3) return done; u = size == 5 ? 0x7ff8000000000000ULL : 0x7fc00000u; }
        if (d) { put(d, u, size == 5 ? 8 : 4); done++; } continue; }
      {
      int b = 10, pt = 0;
      if (more() && peek() == '0') { eat(); n = 1; if (more() && (peek() | 32) == 'x') { eat(); b = 16; n = 0; } }
      while (more() && (dig(peek(), b) >= 0 || (peek() == '.' && !pt))) { if (peek() == '.') pt = 1; else { v = v * b + dig(peek(), b); n++; e -= pt; } eat(); }
      if (!n) return done;
      if (b == 16) e *= 4;
      if (more() && (peek() | 32) == (b == 16 ? 'p' : 'e')) { int k = 0, en = 0, x = 0; eat(); if (more() && (peek() == '-' || peek() == '+')) { en = peek() == '-'; eat(); } while (more() && dig(peek(), 10) >= 0) { x = x * 10 + dig(peek(), 10); k++; eat(); } if (!k) return done; e += en ? -x : x; }
      double p = 1; for (int k = e < 0 ? -e : e; k > 0; --k) p *= b == 16 ? 2 : 10; v = e < 0 ? v / p : v * p; }
      if (neg) v = -v;
      if (d) { if (size == 5) { u64 u; __builtin_memcpy(&u, &v, 8); put(d, u, 8); } else { float g = (float)v; unsigned u; __builtin_memcpy(&u, &g, 4); put(d, u, 4); } }
      break; }
    }
    if (d) done++;
  }
  return done;
}
int h_scan(char *o, const char *s, const char *f){ S_ = s; SI = SN = 0; while (s[SN]) SN++; return doscan(o, f); }
int h_nscan(char *o, const char *s, int n, const char *f){ S_ = s; SI = SN = 0; while (SN < n && s[SN]) SN++; return doscan(o, f); }
#endif
