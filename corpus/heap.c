#ifdef __WCPL__
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
int ok(char *p, size_t n){ return p != NULL && ((uintptr_t)p & 15) == 0 && (uintptr_t)p + n >= (uintptr_t)p && (uintptr_t)p + n <= (uintptr_t)asm(memory.size, i32.const 16, i32.shl); }
int dj(char *p, size_t n, char *q, size_t m){ return (uintptr_t)p + n <= (uintptr_t)q || (uintptr_t)q + m <= (uintptr_t)p; }
int heap1(size_t n, size_t m, size_t k){ free(malloc(60000)); char *p = malloc(n), *q = malloc(m); if (!ok(p, n) || !ok(q, m) || !dj(p, n, q, m)) return 0; free(p); char *r = malloc(k); return ok(r, k) && dj(q, m, r, k); }
int heap2(size_t n, size_t m, size_t k){ free(malloc(60000)); char *p = malloc(n), *q = malloc(m), *r = malloc(k); if (!dj(p, n, q, m) || !dj(q, m, r, k) || !dj(p, n, r, k)) return 0; free(q); free(p); char *s = malloc(n + m); return ok(s, n + m) && dj(s, n + m, r, k) && ok(r, k); }
int pin(int n, int lo, int hi){ for (int i = lo; i < hi; ++i) if (n == i) return i; return hi; }
size_t size[8] = { 1, 16, 17, 40, 0, 100, 1000, 70000 };
char *blk[6]; size_t len[6]; char fill[6];
int same(char *p, size_t n, char v){ size_t i; if (n > 40) { if (p[n-1] != v || p[n/2] != v) return 0; n = 20; } for (i = 0; i < n; ++i) if (p[i] != v) return 0; return 1; }
void put(char *p, size_t n, char v){ size_t i; if (n > 40) { p[n-1] = p[n/2] = v; n = 20; } for (i = 0; i < n; ++i) p[i] = v; }
/* op codes: 0..3 malloc size class, 4..7 free slot, 8.. realloc slot/size; every live block keeps its bytes and stays disjoint */
int script(unsigned char *op, int nops, int first, char v){
  int i, j, used = 0;
  for (i = 0; i < 6; ++i) { blk[i] = NULL; len[i] = 0; }
  for (i = 0; i < nops; ++i) {
    int c = pin(op[i], 0, 11);
    if (c < 4) { if (used >= 6) continue; len[used] = size[first + c]; blk[used] = malloc(len[used]); if (!ok(blk[used], len[used])) return 0; fill[used] = (char)(v + used); put(blk[used], len[used], fill[used]); ++used; }
    else if (c < 8) { j = c - 4; if (j < used && blk[j] != NULL) { if (!same(blk[j], len[j], fill[j])) return 0; free(blk[j]); blk[j] = NULL; len[j] = 0; } }
    else { j = (c - 8) & 1; if (j < used && blk[j] != NULL) { size_t n = size[(first + c) & 3] * 3 + 1; char *q = realloc(blk[j], n); if (!ok(q, n)) return 0; size_t k = n < len[j] ? n : len[j]; if (!same(q, k < 20 ? k : 20, fill[j])) return 0; blk[j] = q; len[j] = n; put(q, n, fill[j]); } }
    for (j = 0; j < used; ++j) if (blk[j] != NULL) { int k; if (!same(blk[j], len[j], fill[j])) return 0; for (k = 0; k < j; ++k) if (blk[k] != NULL && !dj(blk[k], len[k], blk[j], len[j])) return 0; }
  }
  return 1;
}
int reall(int n, int m, char a, char b, char c){ n = pin(n, 3, 60); m = pin(m, 1, 130); char *p = malloc((size_t)n); char *g = malloc(5); p[0] = a; p[n-1] = b; p[n/2] = c; g[4] = a; p = realloc(p, (size_t)m); int r = p != NULL && p[0] == (n/2 == 0 ? c : a); if (m >= n && p[n-1] != (n/2 == n-1 ? c : b)) r = 0; if (m > n/2 && p[n/2] != c) r = 0; return r && g[4] == a && dj(p, (size_t)m, g, 5); }
int call(int a, int b, char v){ a = pin(a, 0, 8); b = pin(b, 0, 8); char *p = malloc(100); memset(p, v, 100); free(p); char *q = malloc(10); char *r = calloc((size_t)a, (size_t)b); if (r == NULL) return a * b == 0; int i; for (i = 0; i < a * b; ++i) if (r[i]) return 0; return dj(q, 10, r, (size_t)(a * b)); }
size_t mul[12] = { 2, 3, 4, 5, 7, 8, 16, 100, 4096, 65536, 0x40000000u, 0x80000000u };
int callbig(size_t a, int i){ size_t b = mul[pin(i, 0, 11)]; if (a <= 0x7fffffffu / b) return 1; return calloc(a, b) == NULL && calloc(b, a) == NULL; }
int big(char v){ char *p = malloc(20); p[19] = v; if (malloc(0x7fffffffu) != NULL || malloc(0xffffffffu) != NULL || malloc(0x80000000u) != NULL || malloc(0x7ffffff0u) != NULL) return 0; if (realloc(p, 0xfffffff0u) != NULL || realloc(p, 0xffffffffu) != NULL || realloc(p, 0x7ffffff1u) != NULL) return 0; char *q = malloc(20); return p[19] == v && dj(p, 20, q, 20); }
int nul(char v){ free(NULL); char *p = realloc(NULL, 30); if (!ok(p, 30)) return 0; p[29] = v; char *q = malloc(0); char *r = malloc(0); return p[29] == v && (q == NULL || q != r); }
/* freed memory is reused: a bounded working set never grows the memory */
int reuse(int n){ n = pin(n, 1, 5); int i; size_t sz = (size_t)(n * 3000); char *p; p = malloc(sz); free(p); size_t m0 = (size_t)asm(memory.size, i32.const 0, i32.shl); size_t m1; for (i = 0; i < 24; ++i) { p = malloc(sz); char *q = malloc(sz / 3); free(p); free(q); } m1 = (size_t)asm(memory.size, i32.const 0, i32.shl); return m1 - m0 <= 1; }
#else
#define NULL ((void*)0)
typedef __SIZE_TYPE__ size_t;
int heap1(size_t n, size_t m, size_t k){ return 1; }
int heap2(size_t n, size_t m, size_t k){ return 1; }
int script(unsigned char *op, int nops, int first, char v){ return 1; }
int reall(int n, int m, char a, char b, char c){ return 1; }
int call(int a, int b, char v){ return 1; }
int callbig(size_t a, int i){ return 1; }
int big(char v){ return 1; }
int nul(char v){ return 1; }
int reuse(int n){ return 1; }
#endif
//@ val n=0..2500
//@ val m=0..2500
//@ val k=0..2500
//@ opt deadline=200 slow
int t_heap1(size_t n, size_t m, size_t k){ return heap1(n, m, k); }
//@ val n=0..300
//@ val m=0..300
//@ val k=0..100
//@ opt deadline=200 slow
int t_heap2(size_t n, size_t m, size_t k){ return heap2(n, m, k); }
//@ buf p=4
//@ pre: p[0] < 4 && p[1] < 4 && p[2] < 12 && p[3] < 12
//@ opt deadline=200 slow
int t_script_a(unsigned char *p, char v){ return script(p, 4, 0, v); }
//@ buf p=4
//@ pre: p[0] < 4 && p[1] < 4 && p[2] < 12 && p[3] < 12
//@ opt deadline=200 slow
int t_script_b(unsigned char *p, char v){ return script(p, 4, 4, v); }
//@ buf p=5
//@ pre: p[0] < 3 && p[1] < 3 && p[2] < 3 && p[3] >= 4 && p[3] < 7 && p[4] >= 4 && p[4] < 7
//@ opt deadline=200 slow
int t_script_c(unsigned char *p, char v){ return script(p, 5, 2, v); }
//@ buf p=7
//@ pre: p[0] == 0 && p[1] == 1 && p[2] == 1 && p[3] >= 4 && p[3] < 7 && p[4] >= 4 && p[4] < 7 && p[5] < 4 && p[6] < 4
//@ opt deadline=200 slow
int t_script_d(unsigned char *p, char v){ return script(p, 7, 0, v); }
//@ val n=3..40
//@ val m=1..80
//@ opt deadline=100 slow paths=8000
int t_realloc(int n, int m, char a, char b, char c){ return reall(n, m, a, b, c); }
//@ val a=0..8
//@ val b=0..8
//@ opt deadline=100 slow
int t_calloc(int a, int b, char v){ return call(a, b, v); }
//@ val i=0..11
int t_callbig(size_t a, int i){ return callbig(a, i); }
int t_big(char v){ return big(v); }
int t_null(char v){ return nul(v); }
//@ val n=1..5
//@ opt steps=60000
int t_reuse(int n){ return reuse(n); }
