#ifdef __WCPL__
#include <string.h>
#include <stdlib.h>
#else
#define NULL ((void*)0)
typedef unsigned char uc; typedef __SIZE_TYPE__ size_t;
static unsigned bump = 0x80000;
void *malloc(size_t n){ char *p = (char *)bump; bump += (n + 15) & ~15u; return p; }
size_t strlen(const char *s){ size_t n = 0; while (s[n] != 0) n++; return n; }
size_t strnlen(const char *s, size_t m){ size_t n = 0; while (n < m && s[n] != 0) n++; return n; }
void *memcpy(void *d, const void *s, size_t n){ for (size_t i = 0; i < n; i++) ((char*)d)[i] = ((const char*)s)[i]; return d; }
void *memmove(void *d, const void *s, size_t n){ char t[64]; for (size_t i = 0; i < n; i++) t[i] = ((const char*)s)[i]; for (size_t i = 0; i < n; i++) ((char*)d)[i] = t[i]; return d; }
void *memset(void *d, int c, size_t n){ for (size_t i = 0; i < n; i++) ((uc*)d)[i] = (uc)c; return d; }
void bzero(void *d, size_t n){ memset(d, 0, n); }
void *memccpy(void *d, const void *s, int c, size_t n){ for (size_t i = 0; i < n; i++) { uc x = ((const uc*)s)[i]; ((uc*)d)[i] = x; if (x == (uc)c) return (uc*)d + i + 1; } return NULL; }
void *memchr(const void *s, int c, size_t n){ for (size_t i = 0; i < n; i++) if (((const uc*)s)[i] == (uc)c) return (uc*)s + i; return NULL; }
int memcmp(const void *a, const void *b, size_t n){ for (size_t i = 0; i < n; i++) { uc x = ((const uc*)a)[i], y = ((const uc*)b)[i]; if (x != y) return x < y ? -1 : 1; } return 0; }
int strncmp(const char *a, const char *b, size_t n){ for (size_t i = 0; i < n; i++) { uc x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcmp(const char *a, const char *b){ return strncmp(a, b, 1000); }
int strcoll(const char *a, const char *b){ return strcmp(a, b); }
static int low(int c){ return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strncasecmp(const char *a, const char *b, size_t n){ for (size_t i = 0; i < n; i++) { int x = low((uc)a[i]), y = low((uc)b[i]); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int strcasecmp(const char *a, const char *b){ return strncasecmp(a, b, 1000); }
char *strcpy(char *d, const char *s){ memcpy(d, s, strlen(s) + 1); return d; }
char *strncpy(char *d, const char *s, size_t n){ size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s){ strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n){ size_t k = strnlen(s, n); size_t l = strlen(d); memcpy(d + l, s, k); d[l + k] = 0; return d; }
char *strchr(const char *s, int c){ for (size_t i = 0; ; i++) { if (s[i] == (char)c) return (char*)s + i; if (!s[i]) return NULL; } }
char *strrchr(const char *s, int c){ for (int i = (int)strlen(s); i >= 0; i--) if (s[i] == (char)c) return (char*)s + i; return NULL; }
static int in(char c, const char *set){ for (; *set; set++) if (*set == c) return 1; return 0; }
size_t strcspn(const char *s, const char *t){ size_t i = 0; while (s[i] && !in(s[i], t)) i++; return i; }
size_t strspn(const char *s, const char *t){ size_t i = 0; while (s[i] && in(s[i], t)) i++; return i; }
char *strpbrk(const char *s, const char *t){ s += strcspn(s, t); return *s ? (char*)s : NULL; }
void *memmem(const void *h, size_t n, const void *s, size_t m){ if (m > n) return NULL; for (size_t i = 0; i + m <= n; i++) if (memcmp((char*)h + i, s, m) == 0) return (char*)h + i; return NULL; }
char *strstr(const char *h, const char *s){ return memmem(h, strlen(h), s, strlen(s)); }
char *strtok_r(char *s, const char *d, char **sv){ if (!s) s = *sv; if (!s) return NULL; s += strspn(s, d); if (!*s) { *sv = NULL; return NULL; } char *e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = NULL; return s; }
static char *hold; char *strtok(char *s, const char *d){ return strtok_r(s, d, &hold); }
void memswap(void *a, void *b, size_t n){ for (size_t i = 0; i < n; i++) { uc t = ((uc*)a)[i]; ((uc*)a)[i] = ((uc*)b)[i]; ((uc*)b)[i] = t; } }
char *strndup(const char *s, size_t n){ size_t k = strnlen(s, n); char *d = malloc(k + 1); memcpy(d, s, k); d[k] = 0; return d; }
char *strdup(const char *s){ return strndup(s, 1000); }
size_t strxfrm(char *d, const char *s, size_t n){ size_t l = strlen(s); if (l < n) strcpy(d, s); return l; }
#endif
int pin(int n, int lo, int hi){ for (int i = lo; i < hi; ++i) if (n == i) return i; return hi; }
int sgn(int x){ return x < 0 ? -1 : x > 0 ? 1 : 0; }
int off(const void *r, const void *p){ return r == NULL ? -1 : (int)((char *)r - (char *)p); }
//@ buf p=8
//@ str p
int t_strlen(char *p){ return (int)strlen(p); }
//@ buf p=8
//@ val n=0..7
int t_strnlen(char *p, int n){ return (int)strnlen(p, (size_t)n); }
//@ buf p=12 q=12
//@ val n=0..8
int t_memcpy(char *p, char *q, int n){ return memcpy(p + 1, q + 2, (size_t)n) == p + 1; }
//@ buf p=16
//@ val n=0..9
//@ val i=0..6
//@ val j=0..6
int t_memmove(char *p, int i, int j, int n){ return memmove(p + i, p + j, (size_t)n) == p + i; }
//@ buf p=12
//@ val n=0..9
int t_memset(char *p, int c, int n){ return memset(p + 2, c, (size_t)n) == p + 2; }
//@ buf p=12
//@ val n=0..9
void t_bzero(char *p, int n){ bzero(p + 2, (size_t)n); }
//@ buf p=8 q=6
//@ val n=0..6
int t_memccpy(char *p, char *q, int c, int n){ return off(memccpy(p, q, c, (size_t)n), p); }
//@ buf p=6
//@ val n=0..6
int t_memchr(char *p, int c, int n){ return off(memchr(p, c, (size_t)n), p); }
//@ buf p=6 q=6
//@ val n=0..6
int t_memcmp(char *p, char *q, int n){ return sgn(memcmp(p, q, (size_t)n)); }
//@ buf p=5 q=5
//@ str p q
int t_strcmp(char *p, char *q){ return sgn(strcmp(p, q)); }
//@ buf p=4 q=4
//@ str p q
int t_strcoll(char *p, char *q){ return sgn(strcoll(p, q)); }
//@ buf p=5 q=5
//@ val n=0..5
int t_strncmp(char *p, char *q, int n){ return sgn(strncmp(p, q, (size_t)n)); }
//@ buf p=4 q=4
//@ str p q
int t_strcasecmp(char *p, char *q){ return sgn(strcasecmp(p, q)); }
//@ buf p=3 q=3
//@ val n=0..3
int t_strncasecmp(char *p, char *q, int n){ return sgn(strncasecmp(p, q, (size_t)n)); }
//@ buf p=10 q=7
//@ str q
int t_strcpy(char *p, char *q){ return strcpy(p + 1, q) == p + 1; }
//@ buf p=10 q=6
//@ val n=0..6
int t_strncpy(char *p, char *q, int n){ return strncpy(p + 1, q, (size_t)n) == p + 1; }
//@ buf p=10 q=5
//@ str q
//@ pre: p[4] == 0
int t_strcat(char *p, char *q){ return strcat(p, q) == p; }
//@ buf p=11 q=5
//@ pre: p[4] == 0
//@ val n=0..5
int t_strncat(char *p, char *q, int n){ return strncat(p, q, (size_t)n) == p; }
//@ buf p=6
//@ str p
int t_strchr(char *p, int c){ return off(strchr(p, c), p); }
//@ buf p=6
//@ str p
int t_strrchr(char *p, int c){ return off(strrchr(p, c), p); }
//@ buf p=5 q=4
//@ str p q
int t_strcspn(char *p, char *q){ return (int)strcspn(p, q); }
//@ buf p=5 q=4
//@ str p q
int t_strspn(char *p, char *q){ return (int)strspn(p, q); }
//@ buf p=5 q=4
//@ str p q
int t_strpbrk(char *p, char *q){ return off(strpbrk(p, q), p); }
//@ buf p=6 q=4
//@ str p q
//@ opt deadline=60
int t_strstr(char *p, char *q){ return off(strstr(p, q), p); }
//@ buf p=6 q=3
//@ val n=0..6
//@ val m=1..3
//@ opt deadline=60
int t_memmem(char *p, char *q, int n, int m){ return off(memmem(p, (size_t)n, q, (size_t)m), p); }
//@ buf p=5 q=3
//@ str p q
//@ opt deadline=60
int t_strtok(char *p, char *q){ int r = 0; char *s = strtok(p, q); for (int i = 0; i < 4; ++i) { r = r * 64 + (off(s, p) + 1) * 8; if (s == NULL) break; r += (int)strlen(s); s = strtok(NULL, q); } bzero(p, 5); return r; }
//@ buf p=5 q=2
//@ str p q
int t_strtok_r(char *p, char *q){ int r = 0; char *h; char *s = strtok_r(p, q, &h); for (int i = 0; i < 4; ++i) { r = r * 64 + (off(s, p) + 1) * 8; if (s == NULL) break; r += (int)strlen(s); s = strtok_r(NULL, q, &h); } bzero(p, 5); return r; }
//@ buf p=4
//@ str p
int t_strtok_2(char *p){ char s[4] = ",x,"; char *a = strtok(p, ","); char *b = strtok(&s[0], ","); char *c = strtok(NULL, ","); if (a != NULL) a = p + (a - p); bzero(p, 4); return off(a, p) * 100 + off(b, &s[0]) * 10 + off(c, &s[0]); }
//@ buf p=8 q=8
//@ val n=0..7
void t_memswap(char *p, char *q, int n){ memswap(p, q, (size_t)n); }
//@ buf p=6 q=8
//@ str p
int t_strdup(char *p, char *q){ char *d = strdup(p); strcpy(q, d); return d != p && d != NULL; }
//@ buf p=5 q=8
//@ str p
//@ val n=0..8
int t_strndup(char *p, char *q, int n){ n = pin(n, 0, 8); char *d = strndup(p, (size_t)n); strcpy(q, d); return d != p && d != NULL; }
//@ buf p=5 q=6
//@ val n=0..5
int t_strndup2(char *p, char *q, int n){ n = pin(n, 0, 8); char *d = strndup(p, (size_t)n); char *e = strndup(p, 3); memcpy(q, d, strlen(d) + 1); return (int)strlen(e) * 2 + (d != e); }
//@ buf p=6 q=5
//@ str q
//@ val n=0..5
//@ pre: n > strlen(q)
int t_strxfrm(char *p, char *q, int n){ strxfrm(p, q, (size_t)n); int k = (int)strlen(p); for (; k < 6; ++k) p[k] = 0; return (int)strxfrm(NULL, q, 0); }
