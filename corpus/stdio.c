#ifdef __WCPL__
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <stdio.h>
#include <wasi/api.h>
/* the device behind descriptor 3: at most VCK bytes per call, reads fail at offset VER, writes fail at offset VFULL */
unsigned char V[64]; int VN, VP, VCK, VER, VFULL, VOPEN;
/* standard streams: what reaches descriptor 1 is logged, descriptor 0 gives VIN and logs -1 */
int *OO; int OK, VTTY, VIN;
/* a large device for transfers beyond BUFSIZ */
unsigned char BIG[4200]; int VBIG, BP, BN;
errno_t env_fd_read(fd_t fd, iovec_t *iov, size_t n, size_t *nread){
  int i, k = (int)iov->buf_len; unsigned char *b = (unsigned char *)iov->buf;
  if (fd == 0) { OO[OK++] = -1; if (VIN < 0) { *nread = (size_t)0; return ERRNO_SUCCESS; } b[0] = (unsigned char)VIN; VIN = -1; *nread = (size_t)1; return ERRNO_SUCCESS; }
  if (fd == 3 && VBIG) { if (k > BN - BP) k = BN - BP; if (k > VCK) k = VCK; memcpy((char *)b, (char *)&BIG[BP], (size_t)k); BP += k; *nread = (size_t)k; return ERRNO_SUCCESS; }
  if (fd != 3 || n != 1) return ERRNO_BADF;
  if (VER >= 0 && VP >= VER) return ERRNO_IO;
  if (VER >= 0 && k > VER - VP) k = VER - VP;
  if (k > VN - VP) k = VN - VP;
  if (k > VCK) k = VCK;
  for (i = 0; i < k; ++i) b[i] = V[VP + i];
  if (k < 0) k = 0;
  VP += k; *nread = (size_t)k;
  return ERRNO_SUCCESS;
}
errno_t env_fd_write(fd_t fd, ciovec_t *iov, size_t n, size_t *nw){
  int i, k = (int)iov->buf_len; unsigned char *b = (unsigned char *)iov->buf;
  if (fd == 1 || fd == 2) { for (i = 0; i < k; ++i) OO[OK++] = b[i] + (fd == 2 ? 1000 : 0); *nw = (size_t)k; return ERRNO_SUCCESS; }
  if (fd == 3 && VBIG) { if (k > VCK) k = VCK; if (k > 4200 - BP) k = 4200 - BP; memcpy((char *)&BIG[BP], (char *)b, (size_t)k); BP += k; if (BP > BN) BN = BP; *nw = (size_t)k; return ERRNO_SUCCESS; }
  if (fd != 3 || n != 1) return ERRNO_BADF;
  if (VFULL >= 0 && VP >= VFULL) return ERRNO_NOSPC;
  if (VFULL >= 0 && k > VFULL - VP) k = VFULL - VP;
  if (k > VCK) k = VCK;
  for (i = 0; i < k; ++i) V[VP + i] = b[i];
  VP += k; if (VP > VN) VN = VP;
  *nw = (size_t)k;
  return ERRNO_SUCCESS;
}
errno_t env_fd_seek(fd_t fd, filedelta_t off, whence_t wh, filesize_t *p){
  filedelta_t t = off;
  if (VBIG) { if (wh == WHENCE_CUR) t += (filedelta_t)BP; else if (wh == WHENCE_END) t += (filedelta_t)BN; if (t < 0 || t > 4200) return ERRNO_INVAL; BP = (int)t; *p = (filesize_t)t; return ERRNO_SUCCESS; }
  if (wh == WHENCE_CUR) t += (filedelta_t)VP; else if (wh == WHENCE_END) t += (filedelta_t)VN;
  if (t < 0 || t > 60) return ERRNO_INVAL;
  VP = (int)t; *p = (filesize_t)t;
  return ERRNO_SUCCESS;
}
errno_t env_fd_fdstat_get(fd_t fd, fdstat_t *s){ int tty = fd < 3 && VTTY; s->fs_filetype = tty ? FILETYPE_CHARACTER_DEVICE : FILETYPE_REGULAR_FILE; s->fs_flags = (fdflags_t)0; s->fs_rights_base = tty ? RIGHTS_FD_READ | RIGHTS_FD_WRITE : (rights_t)-1LL; s->fs_rights_inheriting = (rights_t)-1LL; return ERRNO_SUCCESS; }
errno_t env_fd_close(fd_t fd){ VOPEN--; return ERRNO_SUCCESS; }
FILE *F; char UB[16]; fpos_t FPOS[1];
void start(unsigned char *d, int n, const char *mode, int md, int ck, int er, int full){
  int i; for (i = 0; i < n; ++i) V[i] = d[i];
  for (i = n; i < 64; ++i) V[i] = (unsigned char)0;
  VBIG = 0; VN = n; VP = 0; VCK = ck; VER = er; VFULL = full; VOPEN = 1;
  F = fdopen(3, mode);
  /* buffering: default, 8 bytes inside FILE, unbuffered, 1..4 bytes in a buffer of the caller's, line by line */
  if (md == 1) setvbuf(F, NULL, _IOFBF, 8);
  else if (md == 2) setvbuf(F, NULL, _IONBF, 0);
  else if (md >= 3 && md <= 6) setvbuf(F, &UB[0], _IOFBF, 6 + md);
  else if (md == 7) setvbuf(F, NULL, _IOLBF, 8);
  else if (md == 8) setvbuf(F, &UB[0], _IOLBF, 11);
}
int Getc(void){ return fgetc(F); }
int Ungetc(int c){ return ungetc(c, F); }
int Fread(unsigned char *b, int sz, int n){ return (int)fread((char *)b, (size_t)sz, (size_t)n, F); }
int Fgets(unsigned char *b, int n){ char *r = fgets((char *)b, n, F); return r == NULL ? 0 : r == (char *)b ? 1 : 2; }
int Fseek(int off, int wh){ return fseek(F, (long)off, wh) == 0; }
int Ftell(void){ return (int)ftell(F); }
int Flags(void){ return (feof(F) ? 1 : 0) + (ferror(F) ? 2 : 0); }
void Rewind(void){ rewind(F); }
void Clearerr(void){ clearerr(F); }
int Save(void){ return fgetpos(F, &FPOS[0]); }
int Back(void){ return fsetpos(F, &FPOS[0]) == 0; }
int Putc(int c){ return fputc(c, F); }
int Fwrite(unsigned char *b, int sz, int n){ return (int)fwrite((char *)b, (size_t)sz, (size_t)n, F); }
int Fputs(unsigned char *b){ return fputs((char *)b, F) >= 0; }
int Fflush(void){ return fflush(F); }
int FflushAll(void){ return fflush(NULL); }
int Fclose(void){ int r = fclose(F); return r == 0 && VOPEN == 0 ? 0 : r == 0 ? 1 : -1; }
int Device(unsigned char *o){ int i; for (i = 0; i < VN; ++i) o[i] = V[i]; return VN; }
int DevByte(int i){ return i < VN ? V[i] : 256; }
int failing(void){ return VFULL >= 0 || VCK < 60; }
#else
#define NULL ((void*)0)
static unsigned char V[64]; static int VN, VP, VER, UG, FL, FPOS_;
void start(unsigned char *d, int n, const char *mode, int md, int ck, int er, int full){
  for (int i = 0; i < 64; ++i) V[i] = i < n ? d[i] : 0; VN = n; VP = 0; VER = er; UG = -1; FL = 0; }
int Getc(void){
  if (UG >= 0) { int c = UG; UG = -1; return c; }
  if (VER >= 0 && VP >= VER) { FL |= 2; return -1; }
  if (VP >= VN) { FL |= 1; return -1; }
  return V[VP++]; }
int Ungetc(int c){ if (c == -1) return -1; UG = c & 255; FL &= ~1; return UG; }
int Fread(unsigned char *b, int sz, int n){ int i, c; if (sz == 0) return 0; for (i = 0; i < sz * n; ++i) { c = Getc(); if (c < 0) return i / sz; b[i] = (unsigned char)c; } return n; }
int Fgets(unsigned char *b, int n){ int i, c; for (i = 0; i < n - 1; ) { int f = FL; FL = 0; c = Getc(); int g = FL; FL |= f; if (c < 0) { if (i == 0 || (g & 2)) return 0; break; } b[i++] = (unsigned char)c; if (c == '\n') break; } b[i] = 0; return 1; }
static int seekto(long long t){ if (t < 0 || t > 60) return 0; VP = (int)t; UG = -1; FL &= ~1; return 1; }
int Fseek(int off, int wh){ return seekto((long long)off + (wh == 1 ? VP - (UG >= 0) : wh == 2 ? VN : 0)); }
int Ftell(void){ return VP - (UG >= 0); }
int Flags(void){ return FL; }
void Rewind(void){ seekto(0); FL = 0; }
void Clearerr(void){ FL = 0; }
int Save(void){ FPOS_ = VP - (UG >= 0); return 0; }
int Back(void){ return seekto(FPOS_); }
int Putc(int c){ while (VN < VP) V[VN++] = 0; V[VP++] = (unsigned char)c; if (VP > VN) VN = VP; return c & 255; }
int Fwrite(unsigned char *b, int sz, int n){ if (sz == 0) return 0; for (int i = 0; i < sz * n; ++i) Putc(b[i]); return n; }
int Fputs(unsigned char *b){ while (*b) Putc(*b++); return 1; }
int Fflush(void){ return 0; }
int FflushAll(void){ return 0; }
int Fclose(void){ return 0; }
int Device(unsigned char *o){ for (int i = 0; i < VN; ++i) o[i] = V[i]; return VN; }
int DevByte(int i){ return i < VN ? V[i] : 256; }
int failing(void){ return 0; }
#endif
int pin(int n, int lo, int hi){ for (int i = lo; i < hi; ++i) if (n == i) return i; return hi; }
int K, PU, SK; unsigned char B[40];
void log1(int *o, int v){ o[K] = v; K = K + 1; }
/* one byte can be pushed back at a time (PU = 1); before offset 0 (PU = 2) the position is indeterminate until it is read */
void tell(int *o){ if (PU != 2) log1(o, Ftell()); }
void op(int *o, int k, int x, int n, int sz){
  int i, r;
  switch (k) {
    case 'g': log1(o, Getc()); PU = 0; break;
    case 'u': if (PU == 0) { r = Ftell(); log1(o, Ungetc(x)); if (x != -1) PU = r > 0 ? 1 : 2; } break;
    case 'r': n = pin(n, 0, 7); r = Fread(&B[0], sz, n); log1(o, r); for (i = 0; i < r * sz; ++i) log1(o, B[i]); PU = 0; break;
    case 'l': n = pin(n, 0, 7); r = Fgets(&B[0], n + 1); log1(o, r); if (r == 1) for (i = 0; B[i]; ++i) log1(o, B[i]); if (n > 0) PU = 0; break;
    case 'a': n = pin(n, 0, 7); r = Fseek(n - 1, 0); log1(o, r); if (r) PU = 0; else SK = 1; break;
    case 'c': n = pin(n, 0, 7); if (PU == 2) SK = 1; else { r = Fseek(n - 3, 1); log1(o, r); if (r) PU = 0; else SK = 1; } break;
    case 'e': n = pin(n, 0, 7); r = Fseek(n - 6, 2); log1(o, r); if (r) PU = 0; else SK = 1; break;
    case 'w': Rewind(); PU = 0; break;
    case 'k': Clearerr(); break;
    case 's': if (PU != 2) log1(o, Save()); break;
    case 'b': r = Back(); log1(o, r); if (r) PU = 0; break;
    case 'p': log1(o, Putc(x)); break;
    case 'P': B[0] = (unsigned char)x; B[1] = (unsigned char)(x + 1); B[2] = (unsigned char)'\n'; B[3] = (unsigned char)(x + 2); B[4] = (unsigned char)(x + 3); B[5] = (unsigned char)'x'; n = pin(n, 0, 6); log1(o, Fwrite(&B[0], sz, n / sz)); break;
    case 'S': B[0] = (unsigned char)(x | 1); B[1] = (unsigned char)10; B[2] = (unsigned char)'b'; B[3] = (unsigned char)'c'; B[4] = (unsigned char)'d'; n = pin(n, 0, 5); B[n] = (unsigned char)0; log1(o, Fputs(&B[0])); break;
    case 'f': log1(o, Fflush()); break;
    case 'F': log1(o, FflushAll()); break;
    default:;
  }
  log1(o, k == 'p' || k == 'P' || k == 'S' ? Flags() & 2 : Flags()); /* writing at end of file may clear the end-of-file indicator */
}
void rest(int *o){ int i, r; tell(o); log1(o, Getc()); log1(o, Flags()); r = Fread(&B[0], 1, 12); log1(o, r); for (i = 0; i < r; ++i) log1(o, B[i]); log1(o, Ftell()); log1(o, Flags()); log1(o, Fclose()); }
/* reading: the operations k1, k2, k3 on a file of n bytes, then the rest of the file */
int rd(int *o, unsigned char *d, int n, int md, int ck, int er, int k1, int k2, int k3, int x1, int n1, int x2, int n2, int x3, int n3){
  start(d, n, "r", md, ck, er, -1); K = 0; PU = 0; Save();
  op(o, k1, x1, n1, 1); if (k2) op(o, k2, x2, n2, 2); if (k3) op(o, k3, x3, n3, 3);
  rest(o); return K; }
/* writing: every result and the contents are exact */
int wr(int *o, unsigned char *d, int n, int md, int ck, int full, int k1, int k2, int k3, int x1, int n1, int x2, int n2, int x3, int n3){
  start(d, n, "w", md, ck, -1, full); K = 0; PU = 0; Save();
  op(o, k1, x1, n1, 1); if (k2) op(o, k2, x2, n2, 2); if (k3) op(o, k3, x3, n3, 1);
  log1(o, Ftell()); log1(o, Fclose()); int r = Device(&B[0]); log1(o, r); for (int i = 0; i < r; ++i) log1(o, B[i]); return K; }
/* update streams: a repositioning call between reading and writing, or end of file before writing */
int up(int *o, unsigned char *d, int n, int md, int ck, int k1, int k2, int k3, int x1, int n1, int x2, int n2, int x3, int n3){
  start(d, n, "r+", md, ck, -1, -1); K = 0; PU = 0; Save();
  SK = 0; op(o, k1, x1, n1, 1); op(o, k2, x2, n2, 1); if (SK || (k2 == 'g' && (Flags() & 1) == 0)) return K; op(o, k3, x3, n3, 1);
  Fseek(1, 0); PU = 0; rest(o); int r = Device(&B[0]); log1(o, r); for (int i = 0; i < r; ++i) log1(o, B[i]); return K; }
/* a device that fills up or takes a few bytes at a time: if every call reports success the file has every byte, and a failed call sets the error indicator */
unsigned char X[40]; int XN, BAD;
void note(int good){ if (!good) { BAD = 1; if (!(Flags() & 2)) BAD = 3; } }
void opf(int k, int x, int n){
  int i;
  switch (k) {
    case 'p': note(Putc(x) == (x & 255)); X[XN++] = (unsigned char)x; break;
    case 'P': B[0] = (unsigned char)x; for (i = 1; i < 6; ++i) B[i] = (unsigned char)(x + i); n = pin(n, 0, 6); note(Fwrite(&B[0], 1, n) == n); for (i = 0; i < n; ++i) X[XN++] = B[i]; break;
    case 'Q': B[0] = (unsigned char)x; for (i = 1; i < 6; ++i) B[i] = (unsigned char)(x + i); n = pin(n, 0, 3); note(Fwrite(&B[0], 2, n) == n); for (i = 0; i < 2 * n; ++i) X[XN++] = B[i]; break;
    case 'S': B[0] = (unsigned char)(x | 1); B[1] = (unsigned char)10; B[2] = (unsigned char)'b'; B[3] = (unsigned char)'c'; B[4] = (unsigned char)'d'; n = pin(n, 0, 5); B[n] = (unsigned char)0; note(Fputs(&B[0])); for (i = 0; i < n; ++i) X[XN++] = B[i]; break;
    case 'f': note(Fflush() == 0); break;
    case 'F': note(FflushAll() == 0); break;
    case 'a': note(Fseek(XN, 0)); break;
    default:;
  }
}
int wf(unsigned char *d, int md, int ck, int full, int k1, int k2, int k3, int x1, int n1, int x2, int n2, int x3, int n3){
  start(d, 0, "w", md, ck, -1, full); XN = 0; BAD = 0;
  opf(k1, x1, n1); if (k2) opf(k2, x2, n2); if (k3) opf(k3, x3, n3);
  int b = BAD; if (b == 3) return 1; int c = Fclose(); if (b == 0 && c == 0) { if (DevByte(XN) != 256) return 2; for (int i = 0; i < XN; ++i) if (DevByte(i) != X[i]) return 3; } return 0; }
