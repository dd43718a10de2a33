#ifdef __WCPL__
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <time.h>
#include <wasi/api.h>
#else
#define NULL ((void*)0)
#define EOVERFLOW 61
typedef long long time_t; typedef unsigned size_t;
struct tm { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday, tm_isdst; };
int errno; long timezone;
#endif
int pin(int n, int lo, int hi){ for (int i = lo; i < hi; ++i) if (n == i) return i; return hi; }
/* years under test, days from 1970-01-01 to the first day of each */
long long YR[32]; 
void years(void){
  YR[0] = 1970; YR[1] = 1969; YR[2] = 1999; YR[3] = 2000; YR[4] = 2001; YR[5] = 2004; YR[6] = 2023; YR[7] = 2024; YR[8] = 2038; YR[9] = 2099; YR[10] = 2100; YR[11] = 2101; YR[12] = 2400; YR[13] = 1900; YR[14] = 1901; YR[15] = 1600;
  YR[16] = 1601; YR[17] = 0; YR[18] = -1; YR[19] = -400; YR[20] = 9999; YR[21] = 10000; YR[22] = 1000000; YR[23] = -1000003; YR[24] = 2147483647; YR[25] = -2147480000; YR[26] = 2147485547LL; YR[27] = -2147481748LL; YR[28] = 1972; YR[29] = 1968; YR[30] = 2200; YR[31] = 2015;
}
int leap(long long y){ return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
/* days before year y, counted from 1970-01-01 */
long long yday0(long long y){ long long a = 0; 
  while (y >= 2370) { long long n = (y - 1970) / 400; y -= 400 * n; a += 146097 * n; } 
  while (y < 1970) { long long n = (1970 - y + 399) / 400; y += 400 * n; a -= 146097 * n; }
  for (long long i = 1970; i < y; ++i) a += leap(i) ? 366 : 365; return a; }
int MD[12]; void mdays(long long y){ MD[0] = 31; MD[1] = leap(y) ? 29 : 28; MD[2] = 31; MD[3] = 30; MD[4] = 31; MD[5] = 30; MD[6] = 31; MD[7] = 31; MD[8] = 30; MD[9] = 31; MD[10] = 30; MD[11] = 31; }
#ifndef __WCPL__
static int mod7(long long d){ return (int)(((d % 7) + 7) % 7); }
/* fields of second s of day d (0 = January 1st) of year y */
static void fields(struct tm *t, long long y, int d, int s){
  long long b = yday0(y); int wb = mod7(b + 4); 
  t->tm_year = (int)(y - 1900); t->tm_yday = d; t->tm_wday = (wb + d) % 7; t->tm_hour = s / 3600; t->tm_min = s / 60 % 60; t->tm_sec = s % 60; t->tm_isdst = 0;
  mdays(y); int m = 0; while (d >= MD[m]) d -= MD[m++]; t->tm_mon = m; t->tm_mday = d + 1; }
static void put(int *o, struct tm *t){ o[0] = t->tm_sec; o[1] = t->tm_min; o[2] = t->tm_hour; o[3] = t->tm_mday; o[4] = t->tm_mon; o[5] = t->tm_year; o[6] = t->tm_wday; o[7] = t->tm_yday; o[8] = t->tm_isdst; }
static size_t put2(char *b, int v){ b[0] = (char)('0' + v / 10); b[1] = (char)('0' + v % 10); return 2; }
static const char *WD[7] = { "Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday" };
static const char *MO[12] = { "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December" };
static size_t puts_(char *b, const char *s, int n){ int i = 0; while (s[i] && i < n) { b[i] = s[i]; i++; } return i; }
static size_t conv(char *b, int c, struct tm *t){
  size_t k = 0; int w, y = t->tm_year + 1900;
  switch (c) {
    case 'a': return puts_(b, WD[t->tm_wday], 3); case 'A': return puts_(b, WD[t->tm_wday], 99);
    case 'b': return puts_(b, MO[t->tm_mon], 3); case 'B': return puts_(b, MO[t->tm_mon], 99);
    case 'd': return put2(b, t->tm_mday); case 'H': return put2(b, t->tm_hour); case 'M': return put2(b, t->tm_min); case 'S': return put2(b, t->tm_sec); case 'm': return put2(b, t->tm_mon + 1);
    case 'I': return put2(b, t->tm_hour % 12 == 0 ? 12 : t->tm_hour % 12);
    case 'j': w = t->tm_yday + 1; b[0] = (char)('0' + w / 100); put2(b + 1, w % 100); return 3;
    case 'p': return puts_(b, t->tm_hour < 12 ? "AM" : "PM", 2);
    case 'U': w = 0; for (int d = t->tm_yday, x = t->tm_wday; d >= x; d -= 7) w++; return put2(b, w);
    case 'W': w = 0; for (int d = t->tm_yday, x = (t->tm_wday + 6) % 7; d >= x; d -= 7) w++; return put2(b, w);
    case 'w': b[0] = (char)('0' + t->tm_wday); return 1;
    case 'x': k = conv(b, 'm', t); b[k++] = '/'; k += conv(b + k, 'd', t); b[k++] = '/'; return k + conv(b + k, 'y', t);
    case 'X': k = conv(b, 'H', t); b[k++] = ':'; k += conv(b + k, 'M', t); b[k++] = ':'; return k + conv(b + k, 'S', t);
    case 'c': k = conv(b, 'a', t); b[k++] = ' '; k += conv(b + k, 'b', t); b[k++] = ' '; if (t->tm_mday < 10) { b[k++] = ' '; b[k++] = (char)('0' + t->tm_mday); } else k += put2(b + k, t->tm_mday);
      b[k++] = ' '; k += conv(b + k, 'X', t); b[k++] = ' '; return k + conv(b + k, 'Y', t);
    case 'y': w = y % 100; return put2(b, w < 0 ? w + 100 : w);
    case 'Y': put2(b, y / 100); put2(b + 2, y % 100); return 4;
    case 'Z': return puts_(b, "   ", 3);
    case '%': b[0] = '%'; return 1;
  }
  return 0; }
size_t strftime(char *s, size_t n, const char *f, const struct tm *t){ char b[80]; size_t k = 0; for (; *f; f++) if (*f == '%') k += conv(b + k, *++f, (struct tm *)t); else b[k++] = *f;
  if (k >= n) return 0; for (size_t i = 0; i < k; i++) s[i] = b[i]; s[k] = 0; return k; }
char *asctime_r(const struct tm *t, char *b){ size_t k = puts_(b, WD[t->tm_wday], 3); b[k++] = ' '; k += puts_(b + k, MO[t->tm_mon], 3); b[k++] = ' '; b[k++] = t->tm_mday < 10 ? ' ' : (char)('0' + t->tm_mday / 10); b[k++] = (char)('0' + t->tm_mday % 10);
  b[k++] = ' '; k += conv(b + k, 'X', (struct tm *)t); b[k++] = ' '; k += conv(b + k, 'Y', (struct tm *)t); b[k++] = '\n'; b[k] = 0; return b; }
double difftime(time_t a, time_t b){ return (double)(a - b); }
static int tms(time_t *p, int e, unsigned long long v){ time_t t = e ? -1 : (time_t)(v / 1000000000ull); *p = t; return t == t; }
static long long clk(int e, unsigned long long v){ return e ? -1 : (long long)v; }
static int mk(long long *o, int *tm, long long y, int mon, int mday, int h, int mi, int s){ 
  while (mon < 0) { mon += 12; y--; } while (mon > 11) { mon -= 12; y++; } 
  mdays(y); long long d = yday0(y) + mday - 1; for (int i = 0; i < mon; i++) d += MD[i];
  o[0] = d * 86400 + h * 3600 + mi * 60 + s; for (int i = 0; i < 9; i++) tm[i] = 1; return 1; }
static int lt(int *o, const char *tz, int off, int d, int s){ return 1; }
static int gm(int *o, long long y, int d, int s){ struct tm tm; fields(&tm, y, d, s); put(o, &tm); return 1; }
#else
unsigned CLKE; unsigned long long CLKV; char TZ[32];
errno_t env_clock_time_get(clockid_t c, timestamp_t prec, timestamp_t *p){ *p = CLKV; return (errno_t)CLKE; }
int tms(time_t *p, int e, unsigned long long v){ CLKE = (unsigned)e; CLKV = v; time_t t = time(p); return t == *p; }
long long clk(int e, unsigned long long v){ CLKE = (unsigned)e; CLKV = v; return (long long)clock(); }
void put(int *o, struct tm *t){ o[0] = t->tm_sec; o[1] = t->tm_min; o[2] = t->tm_hour; o[3] = t->tm_mday; o[4] = t->tm_mon; o[5] = t->tm_year; o[6] = t->tm_wday; o[7] = t->tm_yday; o[8] = t->tm_isdst; }
int gm(int *o, long long y, int d, int s){ time_t t = (yday0(y) + d) * 86400 + s; struct tm tm; struct tm *p = gmtime_r(&t, &tm); if (p == NULL) return 0; put(o, &tm); return 1; }
int mk(long long *o, int *r, long long y, int mon, int mday, int h, int mi, int s){ struct tm tm, tm2; tm.tm_year = (int)(y - 1900); tm.tm_mon = mon; tm.tm_mday = mday; tm.tm_hour = h; tm.tm_min = mi; tm.tm_sec = s; tm.tm_isdst = -1; tm.tm_wday = 9; tm.tm_yday = 999;
  o[0] = mktime(&tm); if (gmtime_r((const time_t*)o, &tm2) == NULL) return 0; 
  r[0] = tm.tm_sec == tm2.tm_sec; r[1] = tm.tm_min == tm2.tm_min; r[2] = tm.tm_hour == tm2.tm_hour; r[3] = tm.tm_mday == tm2.tm_mday; r[4] = tm.tm_mon == tm2.tm_mon; r[5] = tm.tm_year == tm2.tm_year; r[6] = tm.tm_wday == tm2.tm_wday; r[7] = tm.tm_yday == tm2.tm_yday; r[8] = tm.tm_isdst == 0; return 1; }
int lt(int *o, const char *tz, int off, int d, int s){ strcpy(&TZ[0], tz); time_t t = d * 86400LL + s, u; struct tm a, b; if (localtime_r(&t, &a) == NULL) return 0; if (timezone != (long)off) return 2; u = t - (long long)off; gmtime_r(&u, &b); if (memcmp(&a, &b, sizeof(a)) != 0) return 3; a.tm_year = 124; a.tm_mon = 1; a.tm_mday = 10; a.tm_hour = 0; a.tm_min = 0; a.tm_sec = s; if (mktime(&a) != 1707523200LL + s + off) return 4; return 1; }
errno_t env_environ_sizes_get(size_t *n, size_t *sz){ if (TZ[0]) { *n = (size_t)1; *sz = strlen(&TZ[0]) + (size_t)1; } else { *n = (size_t)0; *sz = (size_t)0; } return (errno_t)0; }
errno_t env_environ_get(uint8_t **v, uint8_t *b){ if (TZ[0]) { strcpy((char*)b, &TZ[0]); *v = b; } return (errno_t)0; }
#endif

//@ buf o=36
//@ val yi=0..3 d=0..365 s=0..86399
//@ pre: (years(), d < 365 + leap(YR[pin(yi, 0, 3)]))
//@ opt deadline=200 slow
int t_gmtime0(int *o, int yi, int d, int s){ years(); yi = pin(yi, 0, 3); return gm(o, YR[yi], d, s); }
//@ buf o=36
//@ val yi=4..7 d=0..365 s=0..86399
//@ pre: (years(), d < 365 + leap(YR[pin(yi, 4, 7)]))
//@ opt deadline=200 slow
int t_gmtime1(int *o, int yi, int d, int s){ years(); yi = pin(yi, 4, 7); return gm(o, YR[yi], d, s); }
//@ buf o=36
//@ val yi=8..11 d=0..365 s=0..86399
//@ pre: (years(), d < 365 + leap(YR[pin(yi, 8, 11)]))
//@ opt deadline=200 slow
int t_gmtime2(int *o, int yi, int d, int s){ years(); yi = pin(yi, 8, 11); return gm(o, YR[yi], d, s); }
//@ buf o=36
//@ val yi=12..15 d=0..365 s=0..86399
//@ pre: (years(), d < 365 + leap(YR[pin(yi, 12, 15)]))
//@ opt deadline=200 slow
int t_gmtime3(int *o, int yi, int d, int s){ years(); yi = pin(yi, 12, 15); return gm(o, YR[yi], d, s); }
//@ buf o=36
//@ val yi=16..19 d=0..365 s=0..86399
//@ pre: (years(), d < 365 + leap(YR[pin(yi, 16, 19)]))
//@ opt deadline=200 slow
int t_gmtime4(int *o, int yi, int d, int s){ years(); yi = pin(yi, 16, 19); return gm(o, YR[yi], d, s); }
//@ buf o=36
//@ val yi=20..23 d=0..365 s=0..86399
//@ pre: (years(), d < 365 + leap(YR[pin(yi, 20, 23)]))
//@ opt deadline=200 slow
int t_gmtime5(int *o, int yi, int d, int s){ years(); yi = pin(yi, 20, 23); return gm(o, YR[yi], d, s); }
//@ buf o=36
//@ val yi=24..27 d=0..365 s=0..86399
//@ pre: (years(), d < 365 + leap(YR[pin(yi, 24, 27)]))
//@ opt deadline=200 slow
int t_gmtime6(int *o, int yi, int d, int s){ years(); yi = pin(yi, 24, 27); return gm(o, YR[yi], d, s); }
//@ buf o=36
//@ val yi=28..31 d=0..365 s=0..86399
//@ pre: (years(), d < 365 + leap(YR[pin(yi, 28, 31)]))
//@ opt deadline=200 slow
int t_gmtime7(int *o, int yi, int d, int s){ years(); yi = pin(yi, 28, 31); return gm(o, YR[yi], d, s); }
//@ buf b=32
//@ val wday=0..6
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_a0(char *b, size_t n, int wday){ wday = pin(wday, 0, 6); struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = wday; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%a.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val wday=0..6
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_A1(char *b, size_t n, int wday){ wday = pin(wday, 0, 6); struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = wday; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%A.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val mon=0..11
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_b2(char *b, size_t n, int mon){ mon = pin(mon, 0, 11); struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = mon; tm.tm_year = 103; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%b.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val mon=0..11
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_B3(char *b, size_t n, int mon){ mon = pin(mon, 0, 11); struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = mon; tm.tm_year = 103; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%B.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val mday=1..31
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_d4(char *b, size_t n, int mday){ struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = mday; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%d.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val hour=0..23
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_H5(char *b, size_t n, int hour){ struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = hour; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%H.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val hour=0..23
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_I6(char *b, size_t n, int hour){ struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = hour; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%I.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val yday=0..365
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_j7(char *b, size_t n, int yday){ struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = 3; tm.tm_yday = yday; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%j.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val mon=0..11
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_m8(char *b, size_t n, int mon){ struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = mon; tm.tm_year = 103; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%m.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val min=0..59
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_M9(char *b, size_t n, int min){ struct tm tm; tm.tm_sec = 7; tm.tm_min = min; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%M.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val hour=0..23
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_p10(char *b, size_t n, int hour){ struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = hour; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%p.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val sec=0..60
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_S11(char *b, size_t n, int sec){ struct tm tm; tm.tm_sec = sec; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%S.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val yday=0..365 wday=0..6
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_U12(char *b, size_t n, int yday, int wday){ struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = wday; tm.tm_yday = yday; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%U.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val yday=0..365 wday=0..6
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_W13(char *b, size_t n, int yday, int wday){ struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = wday; tm.tm_yday = yday; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%W.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val wday=0..6
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_w14(char *b, size_t n, int wday){ struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = wday; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%w.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val mon=0..11 mday=1..31 year=-900..8099
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_x15(char *b, size_t n, int mon, int mday, int year){ struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = mday; tm.tm_mon = mon; tm.tm_year = year; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%x.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val hour=0..23 min=0..59 sec=0..60
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_X16(char *b, size_t n, int hour, int min, int sec){ struct tm tm; tm.tm_sec = sec; tm.tm_min = min; tm.tm_hour = hour; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%X.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val year=-900..8099
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_y17(char *b, size_t n, int year){ struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = year; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%y.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val year=-900..8099
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_Y18(char *b, size_t n, int year){ struct tm tm; tm.tm_sec = 7; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = year; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%Y.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val sec=0..1
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_Z19(char *b, size_t n, int sec){ struct tm tm; tm.tm_sec = sec; tm.tm_min = 45; tm.tm_hour = 13; tm.tm_mday = 12; tm.tm_mon = 5; tm.tm_year = 103; tm.tm_wday = 3; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%Z.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val wday=2..4 mon=6..7 mday=1..31 hour=0..23 min=0..59 sec=0..60 year=100..130
//@ pre: n <= 31
//@ opt deadline=100 paths=20000
int t_strftime_c20(char *b, size_t n, int wday, int mon, int mday, int hour, int min, int sec, int year){ wday = pin(wday, 0, 6); mon = pin(mon, 0, 11); struct tm tm; tm.tm_sec = sec; tm.tm_min = min; tm.tm_hour = hour; tm.tm_mday = mday; tm.tm_mon = mon; tm.tm_year = year; tm.tm_wday = wday; tm.tm_yday = 163; tm.tm_isdst = 0; int r = (int)strftime(b, n, "<%c.", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ pre: n <= 31
int t_strftime_lit(char *b, size_t n, int k){ struct tm tm; tm.tm_sec = 0; tm.tm_min = 0; tm.tm_hour = 0; tm.tm_mday = 1; tm.tm_mon = 0; tm.tm_year = 70; tm.tm_wday = 4; tm.tm_yday = 0; tm.tm_isdst = 0; int r = (int)strftime(b, n, k > 0 ? "%%abc%%%d/%m" : k < 0 ? "" : "%H:%M", &tm); if (!r) { for (int i = 0; i < 31; ++i) if (i < (int)n) b[i] = (char)0; } return r; }
//@ buf b=32
//@ val wday=2..3 mon=6..7 mday=1..31 hour=0..23 min=0..59 sec=0..60 year=-900..8099
//@ opt deadline=200 paths=20000 slow
int t_asctime(char *b, int wday, int mon, int mday, int hour, int min, int sec, int year){ struct tm tm; tm.tm_sec = sec; tm.tm_min = min; tm.tm_hour = hour; tm.tm_mday = mday; tm.tm_mon = mon = pin(mon, 0, 11); tm.tm_year = year; tm.tm_wday = pin(wday, 0, 6); tm.tm_yday = 0; tm.tm_isdst = 0; return asctime_r(&tm, b) == b; }
//@ pre: a > -4000000000000000LL && a < 4000000000000000LL && b > -4000000000000000LL && b < 4000000000000000LL
double t_difftime(time_t a, time_t b){ return difftime(a, b); }
//@ buf p=8
//@ val e=0..76
int t_time(time_t *p, int e, unsigned long long v){ return tms(p, e, v); }
//@ val e=0..76
//@ pre: v < 0x8000000000000000ULL
long long t_clock(int e, unsigned long long v){ return clk(e, v); }
//@ buf o=8 tm=36
//@ val yi=4..4 mon=-13..-12 mday=-40..400 h=-30..60 mi=-100..200 s=-100..200
//@ opt deadline=200 slow paths=20000
int t_mktime_a(long long *o, int *tm, int yi, int mon, int mday, int h, int mi, int s){ years(); yi = pin(yi, 4, 4); return mk(o, tm, YR[yi], pin(mon, -13, -12), mday, h, mi, s); }
//@ buf o=8 tm=36
//@ val yi=13..14 mon=1..2 mday=-40..400 h=-30..60 mi=-100..200 s=-100..200
//@ opt deadline=200 slow paths=20000
int t_mktime_b(long long *o, int *tm, int yi, int mon, int mday, int h, int mi, int s){ years(); yi = pin(yi, 13, 14); return mk(o, tm, YR[yi], pin(mon, 1, 2), mday, h, mi, s); }
//@ buf o=8 tm=36
//@ val yi=10..12 mon=10..14 mday=-40..400 h=-30..60 mi=-100..200 s=-100..200
//@ opt deadline=200 slow paths=20000
int t_mktime_c(long long *o, int *tm, int yi, int mon, int mday, int h, int mi, int s){ years(); yi = pin(yi, 10, 12); return mk(o, tm, YR[yi], pin(mon, 10, 14), mday, h, mi, s); }
//@ buf o=8 tm=36
//@ val yi=28..29 mon=1..2 mday=-40..400 h=-30..60 mi=-100..200 s=-100..200
//@ opt deadline=200 slow paths=20000
int t_mktime_d(long long *o, int *tm, int yi, int mon, int mday, int h, int mi, int s){ years(); yi = pin(yi, 28, 29); return mk(o, tm, YR[yi], pin(mon, 1, 2), mday, h, mi, s); }
//@ buf o=36
//@ val d=11015..11017 s=0..86399
//@ opt deadline=200 slow steps=400000
int t_local0(int *o, int d, int s){ d = pin(d, 11015, 11017); return lt(o, "", 0, d, s); }
//@ buf o=36
//@ val d=11015..11017 s=0..86399
//@ opt deadline=200 slow steps=400000
int t_local1(int *o, int d, int s){ d = pin(d, 11015, 11017); return lt(o, "TZ=UTC0", 0, d, s); }
//@ buf o=36
//@ val d=11015..11017 s=0..86399
//@ opt deadline=200 slow steps=400000
int t_local2(int *o, int d, int s){ d = pin(d, 11015, 11017); return lt(o, "TZ=EST5EDT", 18000, d, s); }
//@ buf o=36
//@ val d=11015..11017 s=0..86399
//@ opt deadline=200 slow steps=400000
int t_local3(int *o, int d, int s){ d = pin(d, 11015, 11017); return lt(o, "TZ=CET-1", -3600, d, s); }
//@ buf o=36
//@ val d=11015..11017 s=0..86399
//@ opt deadline=200 slow steps=400000
int t_local4(int *o, int d, int s){ d = pin(d, 11015, 11017); return lt(o, "TZ=IST-5:30", -19800, d, s); }
//@ buf o=36
//@ val d=11015..11017 s=0..86399
//@ opt deadline=200 slow steps=400000
int t_local5(int *o, int d, int s){ d = pin(d, 11015, 11017); return lt(o, "TZ=XXX+3:15:20", 11720, d, s); }
//@ buf o=36
//@ val d=11015..11017 s=0..86399
//@ opt deadline=200 slow steps=400000
int t_local6(int *o, int d, int s){ d = pin(d, 11015, 11017); return lt(o, "TZ=ABC11:07:59DEF", 40079, d, s); }
