int gcnt;
int tick(int v){ gcnt = gcnt * 10 + v; return v; }
int fz(int v){ gcnt += 1; return 0; }

int t_if1(int a, int b){ int r = 0; if (a < b) r = 1; else if (a == b) r = 2; else r = 3; return r; }
int t_if2(int a, int b, int c){ if (a) { if (b) return 1; else { if (c) return 2; } return 3; } if (b || c) return 4; return 5; }
int t_if3(unsigned a, unsigned b){ int r = 7; if (a > b) { r += 1; } if (a >= b) { r += 2; } if (!(a < b)) { r += 4; } if (a != b) ; else r += 8; return r; }
int t_if4(long long a, double d){ int r = 0; if (a) r |= 1; if (!a) r |= 2; if (d) r |= 4; if (!d) r |= 8; if (d > 1.5) r |= 16; return r; }
int t_sc1(int a, int b){ int r; gcnt = 0; r = (a && tick(b)) + 10 * (b || tick(a)); return r * 1000 + gcnt; }
int t_sc2(int a, int b, int c){ int n = 0; if ((a > 0 && ++n) || (b > 0 && (n += 10)) || (c > 0 && (n += 100))) n += 1000; return n; }
int t_sc3(int a, int b){ int n = 0; int r = a ? (b ? (n = 1) : (n = 2)) : (b ? (n = 3) : (n = 4)); return r * 16 + n; }
int t_sc4(int a, int b, int c){ return !(a && b) == (!a || !b) ? (a && b && c) * 2 + (a || b || c) : -1; }
int t_sc5(int a, int b){ gcnt = 0; int r = (fz(a) && tick(1)) || (a == 3 && (tick(2), b)) || fz(b); return r * 100 + gcnt; }
int t_comma(int a, int b){ int x = (a++, b++, a + b); return (x += 2, x * 3 + a - b); }
int t_cond1(int a, int b, int c){ return a ? b ? 1 : 2 : c ? 3 : 4; }
int t_cond2(int a, unsigned b, long long c){ return (int)(a > 0 ? (long long)b : c) + (a ? -1 : 5); }
//@ val n=-2..6
int t_while(int n){ int s = 0; while (n > 0) { s += n; --n; } return s; }
//@ val n=-2..6
int t_dowhile(int n){ int s = 0; do { s += n * n; n = n - 1; } while (n > 0); return s; }
//@ val n=-2..6
//@ val m=0..4
int t_for1(int n, int m){ int s = 0; for (int i = 0; i < n; i++) { if (i == m) continue; s = s * 3 + i; } return s; }
//@ val n=-2..6
int t_for2(int n, int m){ int s = 0, i; for (i = 0; i < n; ++i) { if (i * i == m) break; s += 2; } return s * 100 + i; }
//@ val n=0..4
//@ val m=0..4
int t_nest1(int n, int m){ int s = 0; for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) { if (j > i) break; if (j == 1) continue; s = s * 2 + 1; } s += 100; } return s; }
//@ val n=0..3
int t_nest2(int n, int a){ int s = 0, i = 0; while (i < n) { int j = 0; do { s += 1; if (a == i + j) return s; if (j == a) break; ++j; } while (j < 3); ++i; if (i == a - 5) continue; s += 10; } return s * 7; }
//@ val n=0..4
int t_forever(int n){ int s = 0; for (;;) { s += n; if (--n <= 0) break; } return s; }
//@ val n=0..5
int t_forever2(int n){ int s = 0; while (1) { if (n-- <= 0) return s; s += 3; } return -1; }
//@ val n=0..5
int t_dobrk(int n, int a){ int s = 0; do { if (s == a) break; if (s & 1) { s += 3; continue; } s += 1; } while (--n > 0); return s; }
//@ val n=0..6
int t_forcomma(int n){ int i, j, s = 0; for (i = 0, j = n; i < j; ++i, --j) s += i * j + 1; return s; }
//@ val n=0..5
int t_shadow(int n){ int i = 5, s = 0; for (int i = 0; i < n; ++i) { int s2 = i; { int i = 9; s2 += i; } s += s2; } return s + i; }
int t_sw1(int x){ int r = 0; switch (x) { case 0: r = 10; break; case 1: r = 11; break; case 2: r = 12; break; case 3: r = 13; break; default: r = 99; } return r; }
int t_sw2(int x){ int r = 0; switch (x) { case 0: r += 1; case 1: r += 2; break; case 2: r += 4; default: r += 8; case 5: r += 16; break; case 6: r += 32; } return r; }
int t_sw3(int x){ int r = 1; switch (x) { case -3: r = 2; break; case -2: case -1: r = 3; break; case 4: r = 4; } return r; }
int t_sw4(int x){ switch (x) { case 1000: return 1; case -1000: return 2; case 1000000: return 3; case 0x7fffffff: return 4; case -0x7fffffff-1: return 5; default: return 6; } return 7; }
int t_sw5(char c){ switch (c) { case 'a': return 1; case 'b': return 2; case 'z': return 3; case '\n': return 4; case '\x7f': return 5; } return 0; }
int t_sw6(unsigned char c){ int r = 0; switch (c) { case 0: r = 1; break; case 200: r = 2; break; case 255: r = 3; break; default: r = 4; break; } return r; }
int t_sw7(int x, int y){ int r = 0; switch (x & 3) { case 0: switch (y) { case 0: r = 1; break; case 1: r = 2; break; default: r = 3; } r += 10; break; case 1: r = 4; break; case 3: r = 5; } return r; }
//@ val n=0..4
int t_sw8(int n, int x){ int s = 0; for (int i = 0; i < n; ++i) { switch (x + i) { case 0: continue; case 1: s += 5; break; case 2: s += 7; case 3: s += 11; break; default: s += 1; } s *= 2; } return s; }
int t_sw9(int x){ switch (x) { default: return 5; } return 6; }
int t_sw10(int x){ int r = 0; switch (x) { case 3: r = 1; } return r; }
int t_sw11(unsigned x){ switch ((int)x) { case 1: return 1; case 2: return 2; case 4: return 3; case 8: return 4; case 16: return 5; case 32: return 6; } return 0; }
int t_sw12(int x){ int r = 0; switch (x) { case 10: r = 1; break; case 11: r = 2; break; case 12: r = 3; break; case 14: r = 4; break; case 15: r = 5; break; case 17: r = 6; break; case 25: r = 7; break; } return r; }
int t_sw13(int x){ int y = 3; switch (x * 2 + 1) { case 1: { int y = 4; x += y; break; } case 3: { x -= y; } case 5: x += 2; } return x; }
enum En { EA, EB = 5, EC, ED = -1 };
int t_sw14(int x){ enum En e = (enum En)x; switch (e) { case EA: return 1; case EB: return 2; case EC: return 3; case ED: return 4; } return 0; }
int t_sw15(short x){ switch (x) { case -32768: return 1; case 32767: return 2; case -1: return 3; default: return 4; } return 0; }
//@ val n=0..3
int t_goto1(int n){ int r = 0; { top:; if (n > 0) { r += n; n--; goto top; } } return r; }
int t_goto2(int x){ int r = 0; { int i = 0; while (i < 3) { if (x + i == 7) goto out; ++i; r += i; } r = 100 + r; out:; } return r; }
int t_goto3(int a, int b){ int r = 1; { { if (a > 3) goto e1; r *= 2; if (b > 3) goto e2; r *= 3; e1:; } r *= 5; e2:; } return r; }
int t_goto4(int a, int b){ int n = 0, r = 0; { { again:; for (int i = 0; i < 2; ++i) { if (a == i && n < 1) { ++n; goto again; } if (b == i) goto done; ++r; } r += 50; } done:; } return r * 4 + n; }
int t_ret1(int a){ if (a > 10) return 1; { if (a > 5) return 2; { if (a > 0) return 3; } } return 4; }
int rec(int n){ if (n <= 0) return 1; return n * rec(n - 1) + 1; }
//@ val n=-1..5
int t_rec(int n){ return rec(n); }
int odd(int n);
int even(int n){ if (n == 0) return 1; return odd(n - 1); }
int odd(int n){ if (n == 0) return 0; return even(n - 1); }
//@ val n=0..5
int t_mutual(int n){ return even(n) * 2 + odd(n); }
void t_void(int *p, int a){ if (a < 0) { *p = 1; return; } if (a == 0) return; *p = a; }
int t_empty(int a){ ; { } if (a) ; else ; for (; a < 0; ) { return 3; } while (a < -5) ; return a & 1; }
int t_order(int a, int b){ int x = a; int y = (x = x + b) + 0; int z = x; x = x * 2; return x - y + z; }
int t_incexpr(int a){ int i = a; int j = i++ + 5; int k = ++i * 2; int m = i-- - 1; int n = --i; return j + 3 * k + 5 * m + 7 * n + 11 * i; }
