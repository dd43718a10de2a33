#ifdef __WCPL__
int prompt(int *o, int tty, int c, int c2, int in, int how){
  OO = o; OK = 0; VTTY = tty; VIN = in; int r, n;
  if (how == 0) { putchar(c); putchar(c2); } else if (how == 1) { char b[3]; b[0] = (char)c; b[1] = (char)c2; b[2] = '\0'; fputs(&b[0], stdout); } else { char b[2]; b[0] = (char)c; b[1] = (char)c2; fwrite(&b[0], 1, 2, stdout); }
  n = OK; r = getchar(); OO[OK++] = r; OO[OK++] = n > 0 && !tty;
  return getchar(); }
void atend(void){ putchar('e'); }
int leave(int *o, int tty, int c, int c2, int how){
  OO = o; OK = 0; VTTY = tty; VIN = -1;
  if (how & 2) atexit(&atend);
  putchar(c); if (how & 1) fputc('E', stderr); putchar(c2);
  exit(c & 7); return 0; }
int flushall(int *o, int c, int c2){
  OO = o; OK = 0; VTTY = 0; VIN = -1; start((unsigned char *)o, 0, "w", 0, 60, -1, -1);
  putchar(c); fputc(c2, F); fflush(NULL); OO[OK++] = DevByte(0); OO[OK++] = DevByte(1); fflush(NULL); return OK; }
unsigned char PB[4200];
/* len bytes between two others, in pieces of size sz, through a buffer of the kind md */
int bigw(int md, int len, int sz, int a, int x, int b){
  int i, r = 1; for (i = 0; i < len; ++i) PB[i] = (unsigned char)(i * 7 + (i >> 8)); PB[0] = (unsigned char)x; PB[len - 1] = (unsigned char)(x ^ b);
  start(&PB[0], 0, "w", md, 9999, -1, -1); VBIG = 1; BP = 0; BN = 0;
  if (a >= 0) { if (fputc(a, F) != a) r = 0; }
  for (i = 0; i + sz <= len; i += sz) if (fwrite((char *)&PB[i], (size_t)sz, 1, F) != 1) r = 0;
  if (i < len && fwrite((char *)&PB[i], 1, (size_t)(len - i), F) != (size_t)(len - i)) r = 0;
  if (ftell(F) != (long)(len + (a >= 0))) r = 0;
  if (fputc(b, F) != b) r = 0;
  if (fclose(F) != 0) r = 0;
  if (BN != len + 1 + (a >= 0)) r = 0;
  if (a >= 0 && BIG[0] != a) r = 0;
  if (memcmp((char *)&BIG[a >= 0], (char *)&PB[0], (size_t)len) != 0) r = 0;
  if (BIG[len + (a >= 0)] != b) r = 0;
  return r; }
/* a line of len characters and a last byte, read in pieces of size sz; back to the middle; to the end */
int bigr(int md, int len, int sz, int x, int b, int ck){
  int i, k, r = 1; for (i = 0; i < len; ++i) BIG[i] = (unsigned char)(65 + (i & 31)); BIG[0] = (unsigned char)x; BIG[len - 1] = (unsigned char)10; BIG[len] = (unsigned char)b;
  start(&BIG[0], 0, "r", md, 9999, -1, -1); VBIG = 1; BP = 0; BN = len + 1; VCK = ck;
  if (fgets((char *)&PB[0], 4100, F) == NULL) r = 0;
  if (memcmp((char *)&PB[0], (char *)&BIG[0], (size_t)len) != 0 || PB[len] != 0) r = 0;
  if (ftell(F) != (long)len) r = 0;
  rewind(F); memset((char *)&PB[0], 0, 4200);
  for (i = 0; i < len + 1; i += k) { k = (int)fread((char *)&PB[i], 1, (size_t)sz, F); if (k <= 0) break; if (k != sz && i + k != len + 1) r = 0; }
  if (i != len + 1 || !feof(F) && fgetc(F) != EOF) r = 0;
  if (memcmp((char *)&PB[0], (char *)&BIG[0], (size_t)(len + 1)) != 0) r = 0;
  if (fseek(F, (long)(len - 1), SEEK_SET) != 0 || fgetc(F) != 10 || fgetc(F) != b || fgetc(F) != EOF || fclose(F) != 0) r = 0;
  return r; }
#else
int bigw(int md, int len, int sz, int a, int x, int b){ return 1; }
int bigr(int md, int len, int sz, int x, int b, int ck){ return 1; }
int prompt(int *o, int tty, int c, int c2, int in, int how){ int k = 0; if (tty) { o[k++] = c; o[k++] = c2; } o[k++] = -1; o[k++] = in; o[k++] = 0; o[k++] = -1; return -1; }
int leave(int *o, int tty, int c, int c2, int how){ int k = 0; if (how & 1) { if (tty && c == '\n') o[k++] = c; o[k++] = 1000 + 'E'; if (!(tty && c == '\n')) o[k++] = c; } else o[k++] = c; o[k++] = c2; if (how & 2) o[k++] = 'e'; return c & 7; }
int flushall(int *o, int c, int c2){ o[0] = c; o[1] = c2; o[2] = 256; return 3; }
#endif
//@ buf o=60
//@ val c=1..255 c2=1..255 in=0..255 how=0..2
//@ opt deadline=60
int t_prompt_tty(int *o, int c, int c2, int in, int how){ how = pin(how, 0, 2); return prompt(o, 1, c, c2, in, how); }
//@ buf o=60
//@ val c=1..255 c2=1..255 in=0..255 how=0..2
//@ opt deadline=60
int t_noprompt(int *o, int c, int c2, int in, int how){ how = pin(how, 0, 2); return prompt(o, 0, c, c2, in, how); }
//@ buf o=60
//@ val c=1..255 c2=1..255 how=0..3 tty=0..1
//@ opt deadline=60 exit
int t_exit_flushes(int *o, int c, int c2, int how, int tty){ how = pin(how, 0, 3); tty = pin(tty, 0, 1); return leave(o, tty, c, c2, how); }
//@ buf o=60
//@ val c=0..255 c2=0..255
//@ opt deadline=60
int t_flush_all(int *o, int c, int c2){ return flushall(o, c, c2); }
//@ val a=-1..255 x=1..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigw_0(int a, int x, int b){ if (a < 0) return bigw(0, 1024, 1024, -1, x, b); return bigw(0, 1024, 1024, a, x, b); }
//@ val a=-1..255 x=1..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigw_1(int a, int x, int b){ if (a < 0) return bigw(0, 1032, 1032, -1, x, b); return bigw(0, 1032, 1032, a, x, b); }
//@ val a=-1..255 x=1..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigw_2(int a, int x, int b){ if (a < 0) return bigw(0, 2100, 2100, -1, x, b); return bigw(0, 2100, 2100, a, x, b); }
//@ val a=-1..255 x=1..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigw_3(int a, int x, int b){ if (a < 0) return bigw(0, 2048, 3, -1, x, b); return bigw(0, 2048, 3, a, x, b); }
//@ val a=-1..255 x=1..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigw_4(int a, int x, int b){ if (a < 0) return bigw(0, 1100, 600, -1, x, b); return bigw(0, 1100, 600, a, x, b); }
//@ val a=-1..255 x=1..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigw_5(int a, int x, int b){ if (a < 0) return bigw(2, 1200, 1200, -1, x, b); return bigw(2, 1200, 1200, a, x, b); }
//@ val a=-1..255 x=1..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigw_6(int a, int x, int b){ if (a < 0) return bigw(7, 1100, 1100, -1, x, b); return bigw(7, 1100, 1100, a, x, b); }
//@ val a=-1..255 x=1..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigw_7(int a, int x, int b){ if (a < 0) return bigw(6, 2100, 2100, -1, x, b); return bigw(6, 2100, 2100, a, x, b); }
//@ val x=11..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigr_0(int x, int b){ return bigr(0, 1024, 1500, x, b, 9999); }
//@ val x=11..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigr_1(int x, int b){ return bigr(0, 1032, 1033, x, b, 9999); }
//@ val x=11..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigr_2(int x, int b){ return bigr(0, 2100, 100, x, b, 9999); }
//@ val x=11..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigr_3(int x, int b){ return bigr(0, 3000, 4000, x, b, 1000); }
//@ val x=11..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigr_4(int x, int b){ return bigr(1, 1100, 1100, x, b, 9999); }
//@ val x=11..255 b=1..255
//@ opt deadline=120 steps=3000000 slow
int t_bigr_5(int x, int b){ return bigr(6, 300, 7, x, b, 9999); }
