#ifdef __WCPL__
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <stdio.h>
#include <dirent.h>
/* a WASI host laid out by the bytes of the WASI preview 1 ABI; every call it receives is logged */
int *LO; int LK;
void L(int v){ LO[LK++] = v; }
void L8(long long v){ L((int)v); L((int)(v >> 32)); }
void Lp(const char *p, int n){ int i; L(n); for (i = 0; i < n && i < 8; ++i) L((int)(p[i] & 255)); }
int HERR, HFT, HFL, HNL; long long HRB, HRI, HV;    /* error to report, file type, flags, link count, rights, value */
int PN; char *PP[12]; int PW; int HE2;                        /* preopened directories, their descriptors start at 3 */
char *RB_;
void p8(char *p, long long v){ *(long long *)p = v; }
void p4(char *p, int v){ *(int *)p = v; }
int env_fd_read(int fd, char *iov, int n, char *res){ int k = *(int *)(iov + 4); L(1); L(fd); L(n); L(k); if (HERR) return HERR; if (k > 0) (*(char **)iov)[0] = 'R'; p4(res, HNL); return 0; }
int env_fd_write(int fd, char *iov, int n, char *res){ int k = *(int *)(iov + 4); L(2); L(fd); L(n); L(k); if (HERR) return HERR; if (k > 0) L((int)(*(char **)iov)[0]); p4(res, HNL); return 0; }
int env_fd_pread(int fd, char *iov, int n, long long off, char *res){ int k = *(int *)(iov + 4); L(3); L(fd); L(n); L(k); L8(off); if (HERR) return HERR; if (k > 0) (*(char **)iov)[0] = 'R'; p4(res, HNL); return 0; }
int env_fd_pwrite(int fd, char *iov, int n, long long off, char *res){ int k = *(int *)(iov + 4); L(4); L(fd); L(n); L(k); L8(off); if (HERR) return HERR; if (k > 0) L((int)(*(char **)iov)[0]); p4(res, HNL); return 0; }
int env_fd_seek(int fd, long long off, int wh, char *res){ L(5); L(fd); L8(off); L(wh); if (HERR) return HERR; p8(res, HV); return 0; }
int env_fd_close(int fd){ L(6); L(fd); return HERR; }
int HSE;
int env_fd_fdstat_get(int fd, char *s){ L(7); L(fd); if (HSE) return HSE; s[0] = (char)HFT; s[2] = (char)HFL; s[3] = (char)(HFL >> 8); p8(s + 8, HRB); p8(s + 16, HRI); return 0; }
int env_fd_fdstat_set_flags(int fd, int fl){ L(8); L(fd); L(fl & 65535); return HERR; }
void fst(char *p){ p8(p, HV); p8(p + 8, HRB); p[16] = (char)HFT; p8(p + 24, (long long)HNL); p8(p + 32, HRI); p8(p + 40, HV); p8(p + 48, HRI); p8(p + 56, HRB); }
int env_fd_filestat_get(int fd, char *p){ L(9); L(fd); if (HERR) return HERR; fst(p); return 0; }
int env_path_filestat_get(int fd, int lf, char *path, int n, char *p){ L(10); L(fd); L(lf); Lp(path, n); if (HERR) return HERR; fst(p); return 0; }
int env_fd_filestat_set_size(int fd, long long z){ L(11); L(fd); L8(z); return HERR; }
int env_path_create_directory(int fd, char *p, int n){ L(12); L(fd); Lp(p, n); return HERR; }
int env_path_remove_directory(int fd, char *p, int n){ L(13); L(fd); Lp(p, n); return HE2; }
int env_path_unlink_file(int fd, char *p, int n){ L(14); L(fd); Lp(p, n); return HERR; }
int env_path_link(int fd, int lf, char *p, int n, int fd2, char *q, int m){ L(15); L(fd); L(lf); Lp(p, n); L(fd2); Lp(q, m); return HERR; }
int env_path_symlink(char *p, int n, int fd, char *q, int m){ L(16); Lp(p, n); L(fd); Lp(q, m); return HERR; }
int env_path_readlink(int fd, char *p, int n, char *b, int k, char *res){ L(17); L(fd); Lp(p, n); L(k); if (HERR) return HERR; if (k > 0) b[0] = 'K'; p4(res, HNL); return 0; }
int env_path_open(int fd, int lf, char *p, int n, int of, long long rb, long long ri, int ff, char *res){ L(18); L(fd); L(lf); Lp(p, n); L(of & 65535); L8(rb); L8(ri); L(ff & 65535); if (HERR) return HERR; p4(res, HNL); return 0; }
int env_fd_datasync(int fd){ L(19); L(fd); return HERR; }
int env_fd_sync(int fd){ L(20); L(fd); return HERR; }
int env_fd_advise(int fd, long long a, long long b, int c){ L(21); L(fd); L8(a); L8(b); L(c & 255); return HERR; }
int env_fd_allocate(int fd, long long a, long long b){ L(22); L(fd); L8(a); L8(b); return HERR; }
int env_path_rename(int fd, char *p, int n, int fd2, char *q, int m){ L(23); L(fd); Lp(p, n); L(fd2); Lp(q, m); return HERR; }
int env_fd_prestat_get(int fd, char *p){ if (fd < 3 || fd >= 3 + PN) return 8; p[0] = (char)(PW >> (fd - 3) & 1); p4(p + 4, (int)strlen(PP[fd - 3])); return 0; }
int env_fd_prestat_dir_name(int fd, char *b, int n){ if (fd < 3 || fd >= 3 + PN) return 8; if (n > (int)strlen(PP[fd - 3])) return 28; memcpy(b, PP[fd - 3], (size_t)n); return 0; }
void res(int r){ L(100); L(r); if (r == -1) L(errno); }
void res8(long long r){ L(100); L8(r); if (r == -1LL) L(errno); }
char BUF[8];
void Read(int fd, int k){ errno = 0; BUF[0] = '-'; res((int)read(fd, (void *)&BUF[0], (size_t)k)); L((int)BUF[0]); }
void Write(int fd, int k){ errno = 0; BUF[0] = 'W'; res((int)write(fd, (void *)&BUF[0], (size_t)k)); }
void Pread(int fd, int k, long long o){ errno = 0; BUF[0] = '-'; res((int)pread(fd, (void *)&BUF[0], (size_t)k, (off_t)o)); L((int)BUF[0]); }
void Pwrite(int fd, int k, long long o){ errno = 0; BUF[0] = 'W'; res((int)pwrite(fd, (void *)&BUF[0], (size_t)k, (off_t)o)); }
void Lseek(int fd, long long o, int w){ errno = 0; res8((long long)lseek(fd, (off_t)o, w)); }
void Ftruncate(int fd, long long o){ errno = 0; res(ftruncate(fd, (off_t)o)); }
void Close(int fd){ errno = 0; res(close(fd)); }
void Fdatasync(int fd){ errno = 0; res(fdatasync(fd)); }
void Fsync(int fd){ errno = 0; res(fsync(fd)); }
void Isatty(int fd){ int r; errno = 0; r = isatty(fd); L(100); L(r); if (r == 0) L(errno); }
int DIRTY;
void stlog(int r, struct stat *s){ res(r); if (r == 0) { L8((long long)s->st_dev); L8((long long)s->st_ino); L((int)s->st_nlink); L((int)s->st_mode & S_IFMT);
  L(S_ISBLK(s->st_mode) ? 1 : 0); L(S_ISCHR(s->st_mode) ? 1 : 0); L(S_ISDIR(s->st_mode) ? 1 : 0); L(S_ISREG(s->st_mode) ? 1 : 0); L(S_ISLNK(s->st_mode) ? 1 : 0); L(S_ISSOCK(s->st_mode) ? 1 : 0);
  L8((long long)s->st_size); L8((long long)s->st_atime); L((int)s->st_atime_ns); L8((long long)s->st_mtime); L((int)s->st_mtime_ns); L8((long long)s->st_ctime); L((int)s->st_ctime_ns); } }
void Fstat(int fd){ struct stat s; memset((char *)&s, DIRTY, sizeof(s)); errno = 0; stlog(fstat(fd, &s), &s); }
void Fstatat(int fd, char *p, int f){ struct stat s; memset((char *)&s, DIRTY, sizeof(s)); errno = 0; stlog(fstatat(fd, p, &s, f ? AT_SYMLINK_NOFOLLOW : 0), &s); }
void Stat(char *p, int lnk){ struct stat s; memset((char *)&s, DIRTY, sizeof(s)); errno = 0; stlog(lnk ? lstat(p, &s) : stat(p, &s), &s); }
int oflag(int b){ return (b & 1 ? O_APPEND : 0) | (b & 2 ? O_DSYNC : 0) | (b & 4 ? O_NONBLOCK : 0) | (b & 8 ? O_RSYNC : 0) | (b & 16 ? O_SYNC : 0) | (b & 32 ? O_CREAT : 0) | (b & 64 ? O_DIRECTORY : 0) | (b & 128 ? O_EXCL : 0) | (b & 256 ? O_TRUNC : 0) | (b & 512 ? O_NOFOLLOW : 0); }
int oacc(int a){ switch (a) { case 0: return O_RDONLY; case 1: return O_WRONLY; case 2: return O_RDWR; case 3: return O_EXEC; case 4: return O_SEARCH; } return O_SEARCH | O_RDONLY; }
void Openat(int fd, char *p, int a, int b){ errno = 0; res(openat(fd, p, oacc(a) | oflag(b))); }
void Open(char *p, int a, int b){ errno = 0; res(open(p, oacc(a) | oflag(b))); }
void Getfl(int fd){ int r, a; errno = 0; r = fcntl(fd, F_GETFL); L(100); if (r == -1) { L(-1); L(errno); } else { a = r & O_ACCMODE; L(a == O_RDONLY ? 0 : a == O_WRONLY ? 1 : a == O_RDWR ? 2 : a == O_SEARCH ? 4 : 9); L(r & 0xFFF); } }
void Setfl(int fd, int b){ errno = 0; res(fcntl(fd, F_SETFL, oflag(b))); }
void Fadvise(int fd, long long a, long long b, int k){ int v = k == 0 ? POSIX_FADV_NORMAL : k == 1 ? POSIX_FADV_SEQUENTIAL : k == 2 ? POSIX_FADV_RANDOM : k == 3 ? POSIX_FADV_WILLNEED : k == 4 ? POSIX_FADV_DONTNEED : POSIX_FADV_NOREUSE; L(posix_fadvise(fd, (off_t)a, (off_t)b, v)); }
void Fallocate(int fd, long long a, long long b){ L(posix_fallocate(fd, (off_t)a, (off_t)b)); }
void Accessm(char *p, int m){ errno = 0; res(access(p, (m & 1 ? R_OK : 0) | (m & 2 ? W_OK : 0) | (m & 4 ? X_OK : 0) | (m & 8 ? 64 : 0))); }
void Access(char *p){ errno = 0; res(access(p, F_OK)); }
void Unlinkat(int fd, char *p, int d){ errno = 0; res(unlinkat(fd, p, d ? AT_REMOVEDIR : 0)); }
void Unlink(char *p){ errno = 0; res(unlink(p)); }
void Rmdir(char *p){ errno = 0; res(rmdir(p)); }
void Mkdir(char *p){ errno = 0; res(mkdir(p, (mode_t)0777)); }
void Linkat(int fd, char *p, int g, char *q, int f){ errno = 0; res(linkat(fd, p, g, q, f ? AT_SYMLINK_FOLLOW : 0)); }
void Link(char *p, char *q){ errno = 0; res(link(p, q)); }
void Symlink(char *p, char *q){ errno = 0; res(symlink(p, q)); }
void Readlinkat(int fd, char *p, int k){ errno = 0; BUF[0] = '-'; res((int)readlinkat(fd, p, &BUF[0], (size_t)k)); L((int)BUF[0]); }
void Remove(char *p){ int r; errno = 0; r = remove(p); L(100); L(r == 0 ? 0 : 1); }
void Fopen(char *p, char *m){ FILE *f; int a; errno = 0; f = fopen(p, m); L(100); if (f == NULL) { L(-1); L(errno); } else { L(0); L(fileno(f)); } }
/* a directory: entries have 64-bit cookies, the host cuts the last entry where the buffer ends; call DFAIL fails */
int DN, DLEN[6], DFAIL, DCALL; long long DINO[6]; int DTY[6]; char *DNM[6]; char *DB;
long long cookie(int i){ return i == 0 ? 0LL : (long long)i * 1000003LL; }
int env_fd_readdir(int fd, char *b, int n, long long ck, char *res){
  char h[24]; int i, u = 0, k; if (DCALL++ == DFAIL) return 29;
  DB = b;
  for (i = 0; i < DN && cookie(i) != ck; ++i) ;
  for (; i < DN && u < n; ++i) {
    memset(&h[0], 0x55, (size_t)24); p8(&h[0], cookie(i + 1)); p8(&h[8], DINO[i]); p4(&h[16], DLEN[i]); h[20] = (char)DTY[i];
    k = n - u < 24 ? n - u : 24; memcpy(b + u, &h[0], (size_t)k); u += k;
    k = n - u < DLEN[i] ? n - u : DLEN[i]; memcpy(b + u, DNM[i], (size_t)k); u += k;
  }
  p4(res, u); return 0; }
void ent(int i, char *nm, int n, int ty, long long ino){ DNM[i] = nm; DLEN[i] = n; DTY[i] = ty; DINO[i] = ino; DN = i + 1; }
DIR *DP; long DPOS;
void dlog(struct dirent *d){ int n = (int)strlen(&d->d_name[0]); L(200); L8((long long)d->d_ino); L((int)d->d_type); L(n); Lp(&d->d_name[0], n < 3 ? n : 3); if (n > 3) L((int)(d->d_name[n - 1] & 255)); }
int Dopen(void){ errno = 0; DP = fdopendir(9); if (DP == NULL) { L(201); L(errno); return 0; } L(dirfd(DP)); return 1; }
int Dread(void){ struct dirent *d; errno = 0; d = readdir(DP); if (d == NULL) { L(202); L(errno); return 0; } dlog(d); return 1; }
void Dtell(void){ DPOS = telldir(DP); }
void Dseek(void){ seekdir(DP, DPOS); }
void Drew(void){ rewinddir(DP); }
void Dclose(void){ L(closedir(DP)); }
int dsel(const struct dirent *d){ return d->d_name[0] != 'x'; }
void Dscan(char *p, int sel){ struct dirent **l; int i, n; errno = 0; l = NULL;
  if (sel) n = scandir(p, &l, &dsel, &alphasort); else n = scandir(p, &l, NULL, &alphasort);
  L(n); if (n < 0) L(errno); for (i = 0; i < n; ++i) { dlog(l[i]); free((void *)l[i]); } if (n >= 0) free((void *)l); }
void Readlink(char *p){ errno = 0; BUF[0] = '-'; res((int)readlink(p, &BUF[0], (size_t)8)); L((int)BUF[0]); }
void Rename(char *p, char *q){ errno = 0; res(rename(p, q)); }
#else
static int *LO; static int LK;
static void L(int v){ LO[LK++] = v; }
static void L8(long long v){ L((int)v); L((int)(v >> 32)); }
static void Lp(const char *p, int n){ L(n); for (int i = 0; i < n && i < 8; ++i) L((int)(p[i] & 255)); }
static int HERR, HFT, HFL, HNL, HSE, PN, PW, DIRTY; static long long HRB, HRI, HV; static char *PP[12]; static int HE2;
static int slen(const char *s){ int n = 0; while (s[n]) n++; return n; }
static int Q;
static int res(int e, int r){ if (Q) return !e; L(100); L(e ? -1 : r); if (e || r == -1) L(e); return !e; }
enum { E_ACCES = 2, E_BADF = 8, E_INVAL = 28, E_NOTTY = 59, E_SPIPE = 70, E_NOTCAPABLE = 76 };
void Read(int fd, int k){ L(1); L(fd); L(1); L(k); res(HERR == E_NOTCAPABLE ? E_BADF : HERR, HNL); L(!HERR && k ? 'R' : '-'); }
void Write(int fd, int k){ L(2); L(fd); L(1); L(k); if (!HERR && k) L('W'); res(HERR == E_NOTCAPABLE ? E_BADF : HERR, HNL); }
/* a refused transfer at an offset: the descriptor lacks the right (EBADF) or cannot seek (ESPIPE) */
static int prerr(int fd, int right){ int e = HERR; if (e == E_NOTCAPABLE) { L(7); L(fd); if (!HSE) e = HRB >> right & 1 ? E_SPIPE : E_BADF; } return e; }
void Pread(int fd, int k, long long o){ if (o < 0) { res(E_INVAL, 0); L('-'); return; } L(3); L(fd); L(1); L(k); L8(o); res(prerr(fd, 1), HNL); L(!HERR && k ? 'R' : '-'); }
void Pwrite(int fd, int k, long long o){ if (o < 0) { res(E_INVAL, 0); return; } L(4); L(fd); L(1); L(k); L8(o); if (!HERR && k) L('W'); res(prerr(fd, 6), HNL); }
void Lseek(int fd, long long o, int w){ L(5); L(fd); L8(o); L(w); L(100); if (HERR) { L8(-1); L(HERR == E_NOTCAPABLE ? E_SPIPE : HERR); } else L8(HV); }
void Ftruncate(int fd, long long o){ if (o < 0) { res(E_INVAL, 0); return; } L(11); L(fd); L8(o); res(HERR, 0); }
void Close(int fd){ L(6); L(fd); res(HERR, 0); }
void Fdatasync(int fd){ L(19); L(fd); res(HERR == E_NOTCAPABLE ? E_BADF : HERR, 0); }
void Fsync(int fd){ L(20); L(fd); res(HERR == E_NOTCAPABLE ? E_INVAL : HERR, 0); }
/* a terminal is a character device that cannot seek */
void Isatty(int fd){ L(7); L(fd); int e = HSE ? HSE : HFT == 2 && !(HRB & 0x24) ? 0 : E_NOTTY; L(100); L(!e); if (e) L(e); }
static void st(int e){ if (!res(e, 0)) return; int t = HFT; L8(HV); L8(HRB); L(HNL); L(t == 1 ? 0x6000 : t == 2 ? 0x2000 : t == 3 ? 0x4000 : t == 4 ? 0x8000 : t == 5 || t == 6 ? 0xc000 : t == 7 ? 0xa000 : 0);
  L(t == 1); L(t == 2); L(t == 3); L(t == 4); L(t == 7); L(t == 5 || t == 6); L8(HRI);
  long long v[3] = { HV, HRI, HRB }; for (int i = 0; i < 3; ++i) { L8((long long)((unsigned long long)v[i] / 1000000000)); L((int)((unsigned long long)v[i] % 1000000000)); } }
void Fstat(int fd){ L(9); L(fd); st(HERR); }
void Fstatat(int fd, char *p, int f){ L(10); L(fd); L(!f); Lp(p, slen(p)); st(HERR); }
/* the directory a path lies in: the preopened directory with the longest matching name, the last of equals; leading separators and ./ of names are ignored */
static int find(char *p, char **rel){
  int best = -1, bl = 0; while (*p == '/') p++;
  for (int i = 0; i < PN; ++i) if (!(PW >> i & 1)) {
    char *s = PP[i]; for (;;) { if (*s == '/') s++; else if (*s == '.' && s[1] == '/') s += 2; else if (*s == '.' && !s[1]) s++; else break; }
    int n = slen(s), j = 0, m = n; while (j < n && p[j] == s[j]) j++;
    while (m > 0 && s[m - 1] == '/') m--;
    if (j < n || (n && p[m] && p[m] != '/')) continue;
    if (best < 0 || n >= bl) { best = i + 3; bl = n; }
  }
  if (best < 0) { res(E_NOTCAPABLE, 0); return -1; }
  p += bl; while (*p == '/') p++; *rel = *p ? p : (char *)"."; return best; }
void Stat(char *p, int lnk){ char *r; int d = find(p, &r); if (d < 0) return; L(10); L(d); L(!lnk); Lp(r, slen(r)); st(HERR); }
void Openat(int fd, char *p, int a, int b){
  if (a > 4) { res(E_INVAL, 0); return; }
  L(7); L(fd); if (HSE) { res(HSE, 0); return; }
  long long m = ~0x404143LL; if (a == 0 || a == 2) m |= 0x4002; if (a == 1 || a == 2) m |= 0x400141;
  L(18); L(fd); L(!(b >> 9 & 1)); Lp(p, slen(p)); L(b >> 5 & 15); L8(m & HRI); L8(HRI); L(b & 31); res(HERR, HNL); }
void Open(char *p, int a, int b){ char *r; int d = find(p, &r); if (d >= 0) Openat(d, r, a, b); }
void Getfl(int fd){ L(7); L(fd); L(100); if (HSE) { L(-1); L(HSE); return; } int r = (HRB & 0x4002) != 0, w = (int)(HRB >> 6 & 1); L(r ? w ? 2 : 0 : w ? 1 : 4); L(HFL); }
void Setfl(int fd, int b){ L(8); L(fd); L(b & 31); res(HERR, 0); }
void Fadvise(int fd, long long a, long long b, int k){ if (a < 0 || b < 0) { L(E_INVAL); return; } L(21); L(fd); L8(a); L8(b); L(k); L(HERR); }
void Fallocate(int fd, long long a, long long b){ if (a < 0 || b < 0) { L(E_INVAL); return; } L(22); L(fd); L8(a); L8(b); L(HERR); }
void Accessm(char *p, int m){ int fd = find(p, &p); if (fd < 0) return; if (m & 8) { res(E_INVAL, 0); return; } L(10); L(fd); L(1); Lp(p, slen(p)); if (HERR || !m) { res(HERR, 0); return; } L(7); L(fd); if (HSE) { res(HSE, 0); return; }
  int ok = 1; if (m & 1) ok = (int)(HRI >> (HFT == 3 ? 14 : 1) & 1); if (m & 2) ok = ok && (HRI >> 6 & 1); res(ok ? 0 : E_ACCES, 0); }
void Access(char *p){ char *r; int d = find(p, &r); if (d < 0) return; L(10); L(d); L(1); Lp(r, slen(r)); res(HERR, 0); }
void Unlinkat(int fd, char *p, int d){ L(d ? 13 : 14); L(fd); Lp(p, slen(p)); res(HERR, 0); }
void Unlink(char *p){ char *r; int d = find(p, &r); if (d >= 0) Unlinkat(d, r, 0); }
void Rmdir(char *p){ char *r; int d = find(p, &r); if (d >= 0) Unlinkat(d, r, 1); }
void Mkdir(char *p){ char *r; int d = find(p, &r); if (d < 0) return; L(12); L(d); Lp(r, slen(r)); res(HERR, 0); }
void Linkat(int fd, char *p, int g, char *q, int f){ L(15); L(fd); L(!!f); Lp(p, slen(p)); L(g); Lp(q, slen(q)); res(HERR, 0); }
void Link(char *p, char *q){ char *r, *t; int d = find(p, &r), e; if (d < 0) return; e = find(q, &t); if (e >= 0) Linkat(d, r, e, t, 0); }
void Symlink(char *p, char *q){ char *t; int e = find(q, &t); if (e < 0) return; L(16); Lp(p, slen(p)); L(e); Lp(t, slen(t)); res(HERR, 0); }
void Rename(char *p, char *q){ char *r, *t; int d = find(p, &r), e; if (d < 0) return; e = find(q, &t); if (e < 0) return; L(23); L(d); Lp(r, slen(r)); L(e); Lp(t, slen(t)); res(HERR, 0); }
void Remove(char *p){ char *r; Q = 1; int d = find(p, &r); Q = 0; if (d < 0) { L(100); L(1); return; } int e = HERR; L(14); L(d); Lp(r, slen(r)); if (e == 31 || e == E_NOTCAPABLE) { e = HE2; L(13); L(d); Lp(r, slen(r)); } L(100); L(e ? 1 : 0); }
void Fopen(char *p, char *m){ L(7); L(0); L(7); L(1); char *r, *t = m; int d = find(p, &r), a = *m == 'r' ? 0 : 1, b = *m == 'w' ? 256 + 32 : *m == 'a' ? 32 + 1 : 0; if (d < 0) return;
  while (*++t) { if (*t == '+') a = 2; if (*t == 'x') b |= 128; }
  L(7); L(d); long long k = ~0x404143LL; if (a != 1) k |= 0x4002; if (a) k |= 0x400141;
  L(18); L(d); L(1); Lp(r, slen(r)); L(b >> 5 & 15); L8(k & HRI); L8(HRI); L(b & 31);
  if (HERR) { L(100); L(-1); L(HERR); return; }
  if (*m == 'a' && a == 1) { L(5); L(HNL); L8(0); L(2); }
  L(100); L(0); L(HNL); }
static int DN, DLEN[6], DFAIL, DCALL, DTY[6], DI, DPOS; static long long DINO[6]; static char *DNM[6];
void ent(int i, char *nm, int n, int ty, long long ino){ DNM[i] = nm; DLEN[i] = n; DTY[i] = ty; DINO[i] = ino; DN = i + 1; }
static void dlog(int i){ int n = DLEN[i]; L(200); L8(DINO[i]); L(DTY[i]); L(n); Lp(DNM[i], n < 3 ? n : 3); if (n > 3) L(DNM[i][n - 1] & 255); }
static int skip(int i){ if (DLEN[i] == 0) return 1; for (int k = 0; k < DLEN[i] && k < 3; ++k) if (!DNM[i][k]) return 1; return 0; }
int Dopen(void){ DI = DPOS = 0; if (DFAIL == 0) { L(201); L(29); return 0; } L(9); return 1; }
int Dread(void){ while (DI < DN && skip(DI)) DI++; if (DI >= DN) { L(202); L(0); return 0; } dlog(DI++); return 1; }
void Dtell(void){ DPOS = DI; }
void Dseek(void){ DI = DPOS; }
void Drew(void){ DI = 0; }
void Dclose(void){ L(6); L(9); L(0); }
static int dcmp(int a, int b){ int k = 0; for (; k < DLEN[a] && k < DLEN[b]; ++k) if (DNM[a][k] != DNM[b][k]) return (unsigned char)DNM[a][k] < (unsigned char)DNM[b][k]; return DLEN[a] < DLEN[b]; }
void Dscan(char *p, int sel){ char *r; Q = 1; int d = find(p, &r); if (d < 0) { Q = 0; L(-1); L(76); return; } HNL = 9; Openat(d, r, 0, 4 + 64); Q = 0; if (HERR) { L(-1); L(HERR); return; }
  if (DFAIL == 0) { L(6); L(9); L(-1); L(29); return; }
  L(6); L(9); int l[6], n = 0; for (int i = 0; i < DN; ++i) if (!skip(i) && !(sel && DNM[i][0] == 'x')) l[n++] = i;
  for (int i = 1; i < n; ++i) for (int j = i; j > 0 && dcmp(l[j], l[j - 1]); --j) { int t = l[j]; l[j] = l[j - 1]; l[j - 1] = t; }
  L(n); for (int i = 0; i < n; ++i) dlog(l[i]); }
void Readlinkat(int fd, char *p, int k){ L(17); L(fd); Lp(p, slen(p)); L(k); res(HERR, HNL); L(!HERR && k ? 'K' : '-'); }
void Readlink(char *p){ char *r; int d = find(p, &r); if (d < 0) { L('-'); return; } Readlinkat(d, r, 8); }
#endif
int start(int *o, int err){ LO = o; LK = 0; HERR = err; HE2 = err; HSE = 0; HNL = 5; HFT = 4; HFL = 0; HRB = -1LL; HRI = -1LL; HV = 0LL; PN = 0; PW = 0; DIRTY = 0; DN = 0; DFAIL = -1; DCALL = 0; return 0; }
char DOT[2];
char *dot(void){ DOT[0] = '.'; return &DOT[0]; }
//@ buf o=40
//@ val fd=-2..2000000000 k=0..1 err=0..76 nl=0..8
int t_read(int *o, int fd, int k, int err, int nl){ start(o, err); HNL = nl; Read(fd, k); return LK; }
//@ buf o=40
//@ val k=0..1 err=0..76 nl=0..8
int t_write(int *o, int fd, int k, int err, int nl){ start(o, err); HNL = nl; Write(fd, k); return LK; }
//@ buf o=60
//@ val k=0..1 err=0..76 nl=0..8 se=0..76
int t_pread(int *o, int fd, int k, long long off, int err, int nl, int se, long long rb){ start(o, err); HNL = nl; HSE = se; HRB = rb; Pread(fd, k, off); return LK; }
//@ buf o=60
//@ val k=0..1 err=0..76 nl=0..8 se=0..76
int t_pwrite(int *o, int fd, int k, long long off, int err, int nl, int se, long long rb){ start(o, err); HNL = nl; HSE = se; HRB = rb; Pwrite(fd, k, off); return LK; }
//@ buf o=40
//@ val err=0..76 wh=0..2
//@ pre: r >= 0
int t_lseek(int *o, int fd, long long off, int wh, int err, long long r){ start(o, err); HV = r; Lseek(fd, off, wh); return LK; }
//@ buf o=40
//@ val err=0..76
int t_ftruncate(int *o, int fd, long long off, int err){ start(o, err); Ftruncate(fd, off); return LK; }
//@ buf o=40
//@ val err=0..76 k=0..2
int t_fdonly(int *o, int fd, int err, int k){ start(o, err); if (k == 0) Close(fd); else if (k == 1) Fdatasync(fd); else Fsync(fd); return LK; }
//@ buf o=40
//@ val err=0..76 ft=0..7
int t_isatty(int *o, int fd, int err, int ft, long long rb){ start(o, 0); HSE = err; HFT = ft; HRB = rb; Isatty(fd); return LK; }
//@ buf o=140
//@ val err=0..76 ft=0..7 nl=0..2000000000 k=0..2
int t_stat(int *o, int fd, int err, int ft, long long a, long long b, long long c, int nl, int k, int dirty){ start(o, err); HFT = ft; HV = a; HRB = b; HRI = c; HNL = nl; DIRTY = dirty; if (k == 0) Fstat(fd); else { char p[3]; p[0] = 'x'; p[1] = '.'; p[2] = 0; Fstatat(fd, &p[0], k - 1); } return LK; }
//@ buf o=120 p=3
//@ str p
//@ val err=0..76 a=0..5 b=0..1023 se=0..76
int t_openat(int *o, int fd, char *p, int a, int b, int err, int se, int ff, long long ri){ start(o, err); HSE = se; HRI = ri; Openat(fd, p, a, b); return LK; }
//@ buf o=40
//@ val se=0..76 fl=0..31
int t_getfl(int *o, int fd, int se, int fl, long long rb){ start(o, 0); HSE = se; HRB = rb; HFL = fl; Getfl(fd); return LK; }
//@ buf o=40
//@ val err=0..76 b=0..1023
int t_setfl(int *o, int fd, int b, int err){ start(o, err); Setfl(fd, b); return LK; }
//@ buf o=60
//@ val err=0..76 k=0..5
int t_advise(int *o, int fd, long long a, long long b, int k, int err){ start(o, err); Fadvise(fd, a, b, k); return LK; }
//@ buf o=60
//@ val err=0..76
int t_allocate(int *o, int fd, long long a, long long b, int err){ start(o, err); Fallocate(fd, a, b); return LK; }
//@ buf o=80 p=3
//@ str p
//@ val err=0..76 se=0..76 m=0..15 ft=0..7
int t_accessm(int *o, char *p, int m, int err, int se, int ft, long long ri){ start(o, err); HSE = se; HFT = ft; HRI = ri; PN = 1; PP[0] = dot(); Accessm(p, m); return LK; }
//@ buf o=80 p=4
//@ str p
//@ val err=0..76 d=0..1
int t_unlinkat(int *o, int fd, char *p, int d, int err){ start(o, err); Unlinkat(fd, p, d); return LK; }
//@ buf o=80 p=3 q=3
//@ str p q
//@ val err=0..76 f=0..1
int t_linkat(int *o, int fd, char *p, int gd, char *q, int f, int err){ start(o, err); Linkat(fd, p, gd, q, f); return LK; }
//@ buf o=80 p=3
//@ str p
//@ val err=0..76 k=0..8 nl=0..8
int t_readlinkat(int *o, int fd, char *p, int k, int err, int nl){ start(o, err); HNL = nl; Readlinkat(fd, p, k); return LK; }
int setpre(int n, char *p, char *q, char *r){ PN = n; PP[0] = p; PP[1] = q; PP[2] = r; return 0; }
int pin(int n, int lo, int hi){ int i; for (i = lo; i < hi; ++i) if (n == i) return i; return hi; }
char PA[16], PB[16], PC[16];
char *pre(int k, char *b){
  const char *s = k == 0 ? "." : k == 1 ? "/" : k == 2 ? "a" : k == 3 ? "./a" : k == 4 ? "/a" : k == 5 ? "a/" : k == 6 ? "ab" : k == 7 ? "a/b" : k == 8 ? "/./a//" : k == 9 ? ".." : k == 10 ? ".a" : k == 11 ? "" : "b";
  int i = 0; while (s[i]) { b[i] = s[i]; i = i + 1; } b[i] = 0; return b; }
//@ buf o=80 x=4
//@ str x
int t_dir0(int *o, char *x){ start(o, 0); pre(0, &PA[0]); setpre(1, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dir1(int *o, char *x){ start(o, 0); pre(1, &PA[0]); setpre(1, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dir2(int *o, char *x){ start(o, 0); pre(2, &PA[0]); setpre(1, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dir3(int *o, char *x){ start(o, 0); pre(3, &PA[0]); setpre(1, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dir4(int *o, char *x){ start(o, 0); pre(4, &PA[0]); setpre(1, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dir5(int *o, char *x){ start(o, 0); pre(5, &PA[0]); setpre(1, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dir6(int *o, char *x){ start(o, 0); pre(6, &PA[0]); setpre(1, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dir7(int *o, char *x){ start(o, 0); pre(7, &PA[0]); setpre(1, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dir8(int *o, char *x){ start(o, 0); pre(8, &PA[0]); setpre(1, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dir9(int *o, char *x){ start(o, 0); pre(9, &PA[0]); setpre(1, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dir10(int *o, char *x){ start(o, 0); pre(10, &PA[0]); setpre(1, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dir11(int *o, char *x){ start(o, 0); pre(11, &PA[0]); setpre(1, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dir12(int *o, char *x){ start(o, 0); pre(12, &PA[0]); setpre(1, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirs0(int *o, char *x){ start(o, 0); pre(0, &PA[0]); pre(2, &PB[0]); setpre(2, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirs1(int *o, char *x){ start(o, 0); pre(2, &PA[0]); pre(6, &PB[0]); setpre(2, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirs2(int *o, char *x){ start(o, 0); pre(2, &PA[0]); pre(7, &PB[0]); setpre(2, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirs3(int *o, char *x){ start(o, 0); pre(7, &PA[0]); pre(2, &PB[0]); setpre(2, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirs4(int *o, char *x){ start(o, 0); pre(2, &PA[0]); pre(3, &PB[0]); setpre(2, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirs5(int *o, char *x){ start(o, 0); pre(5, &PA[0]); pre(2, &PB[0]); setpre(2, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirs6(int *o, char *x){ start(o, 0); pre(1, &PA[0]); pre(8, &PB[0]); setpre(2, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirs7(int *o, char *x){ start(o, 0); pre(12, &PA[0]); pre(6, &PB[0]); setpre(2, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirs8(int *o, char *x){ start(o, 0); pre(9, &PA[0]); pre(0, &PB[0]); setpre(2, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirs9(int *o, char *x){ start(o, 0); pre(10, &PA[0]); pre(11, &PB[0]); setpre(2, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirs10(int *o, char *x){ start(o, 0); pre(8, &PA[0]); pre(5, &PB[0]); setpre(2, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirt0(int *o, char *x){ start(o, 0); pre(2, &PA[0]); pre(0, &PB[0]); pre(7, &PC[0]); setpre(3, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirt1(int *o, char *x){ start(o, 0); pre(7, &PA[0]); pre(2, &PB[0]); pre(6, &PC[0]); setpre(3, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirt2(int *o, char *x){ start(o, 0); pre(0, &PA[0]); pre(3, &PB[0]); pre(4, &PC[0]); setpre(3, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
int t_dirt3(int *o, char *x){ start(o, 0); pre(11, &PA[0]); pre(5, &PB[0]); pre(9, &PC[0]); setpre(3, &PA[0], &PB[0], &PC[0]); Unlink(x); return LK; }
void dirs(int a, int b){ pre(a, &PA[0]); pre(b, &PB[0]); setpre(2, &PA[0], &PB[0], &PC[0]); }
//@ buf o=80 x=3
//@ str x
//@ val err=0..76 k=0..6
int t_path(int *o, char *x, int k, int err){ start(o, err); dirs(2, 0); k = pin(k, 0, 6);
  switch (k) { case 0: Open(x, 2, 256 + 4); break; case 1: Access(x); break; case 2: Unlink(x); break; case 3: Rmdir(x); break; case 4: Mkdir(x); break; case 5: Readlink(x); break; case 6: Remove(x); break; } return LK; }
//@ buf o=80 x=3
//@ str x
//@ val err=0..76 k=0..6
int t_nopath(int *o, char *x, int k, int err){ start(o, err); dirs(2, 7); k = pin(k, 0, 6);
  switch (k) { case 0: Open(x, 1, 32 + 2); break; case 1: Access(x); break; case 2: Unlink(x); break; case 3: Rmdir(x); break; case 4: Mkdir(x); break; case 5: Readlink(x); break; case 6: Remove(x); break; } return LK; }
//@ buf o=140 x=3
//@ str x
//@ val k=0..1
int t_statpath(int *o, char *x, int k){ start(o, 0); dirs(2, 6); Stat(x, k); return LK; }
//@ buf o=80 x=3 y=3
//@ str x y
//@ val err=0..76 k=0..2
int t_twopaths(int *o, char *x, char *y, int k, int err){ start(o, err); dirs(2, 6); k = pin(k, 0, 2); if (k == 0) Link(x, y); else if (k == 1) Symlink(x, y); else Rename(x, y); return LK; }
//@ buf o=80 x=3
//@ str x
//@ val w=0..7
int t_notdir(int *o, char *x, int w){ start(o, 0); dirs(2, 11); setpre(3, PP[0], PP[1], pre(7, &PC[0])); PW = pin(w, 0, 7); Unlink(x); return LK; }
//@ buf o=80 x=4
//@ str x
//@ val n=4..10
int t_manydirs(int *o, char *x, int n){ int i; start(o, 0); PN = pin(n, 4, 10); pre(2, &PA[0]); pre(12, &PB[0]); for (i = 0; i < PN; ++i) PP[i] = i == 4 ? &PB[0] : i == 8 ? dot() : &PA[0]; Unlink(x); return LK; }
//@ buf o=80 x=3
//@ str x
//@ val e1=0..76 e2=0..76
int t_remove(int *o, char *x, int e1, int e2){ start(o, e1); dirs(0, 2); HE2 = e2; Remove(x); return LK; }
//@ buf o=120 m=4
//@ str m
//@ val err=0..76 nl=3..2000000000
//@ pre: m[0] == 'r' || m[0] == 'w' || m[0] == 'a'
//@ pre: m[1] == 0 || m[1] == '+' || m[1] == 'b' || (m[1] == 'x' && m[0] == 'w')
//@ pre: m[1] == 0 || m[2] == 0 || m[2] == '+' || m[2] == 'b' || (m[2] == 'x' && m[0] == 'w')
//@ pre: m[1] == 0 || m[2] == 0 || m[3] == 0 || m[3] == '+' || m[3] == 'b' || (m[3] == 'x' && m[0] == 'w')
int t_fopen(int *o, char *m, int err, int nl, long long ri){ start(o, 0); HERR = err; HNL = nl; HRI = ri; dirs(0, 2); PC[0] = 'f'; PC[1] = 0; Fopen(&PC[0], m); return LK; }
//@ buf o=200 a=2 b=2 c=2
//@ val la=0..2 lb=0..2 lc=0..2 n=0..3 ta=0..7 tb=0..7
int t_readdir(int *o, char *a, char *b, char *c, int la, int lb, int lc, int n, int ta, int tb, long long i1, long long i2){
  start(o, 0); if (n > 0) ent(0, a, pin(la, 0, 2), ta, i1); if (n > 1) ent(1, b, pin(lb, 0, 2), tb, i2); if (n > 2) ent(2, c, pin(lc, 0, 2), ta, 7LL);
  if (Dopen()) { while (Dread()) ; Dread(); Dclose(); } return LK; }
int dop(int k){ switch (k) { case 0: Dread(); break; case 1: Dtell(); break; case 2: Dseek(); break; case 3: Drew(); break; } return 0; }
char N1[8], N2[8], N3[8], N4[8];
int four(int n){ N1[0] = 'p'; N2[0] = 'q'; N2[1] = 'r'; N3[0] = 'x'; N3[1] = 't'; N3[2] = 'u'; N4[0] = 'o'; ent(0, &N1[0], 1, 3, 11LL); ent(1, &N2[0], 2, 4, 12LL); ent(2, &N3[0], 3, 7, 13LL); ent(3, &N4[0], 1, 4, 14LL); DN = n; return 0; }
//@ buf o=200
//@ val k=0..3 l=0..3 m=0..3 z=0..4
int t_dirops(int *o, int k, int l, int m, int z){ start(o, 0); four(pin(z, 0, 4)); if (Dopen()) { Dtell(); Dread(); Dread(); dop(pin(k, 0, 3)); dop(pin(l, 0, 3)); dop(pin(m, 0, 3)); while (Dread()) ; Dclose(); } return LK; }
//@ buf o=200
//@ val k=0..3 l=0..3 m=0..3 n=0..3
int t_dirops4(int *o, int k, int l, int m, int n){ start(o, 0); four(3); if (Dopen()) { dop(pin(k, 0, 3)); dop(pin(l, 0, 3)); dop(pin(m, 0, 3)); dop(pin(n, 0, 3)); while (Dread()) ; Dclose(); } return LK; }
char NB[9000];
int big(int n){ int i; for (i = 0; i < n; ++i) NB[i] = 'a'; NB[n - 1] = 'z'; return 0; }
//@ buf o=200
//@ val n=0..3 f=0..3
//@ opt steps=60000000 deadline=200
int t_bigdir0(int *o, int n, int f){ start(o, 0); n = pin(n, 0, 3); n = n == 0 ? 3989 : n == 1 ? 3996 : n == 2 ? 4008 : 4020; big(n); four(4); ent(1, &NB[0], n, 4, 99LL); DN = 4; if (Dopen()) { while (Dread()) ; Dclose(); } return LK; }
//@ buf o=200
//@ val n=0..3
//@ opt steps=60000000 deadline=200
int t_bigdir1(int *o, int n){ start(o, 0); n = pin(n, 0, 3); n = n == 0 ? 4047 : n == 1 ? 4048 : n == 2 ? 4071 : 4096; big(n); four(4); ent(1, &NB[0], n, 4, 99LL); DN = 4; if (Dopen()) { while (Dread()) ; Dclose(); } return LK; }
//@ buf o=200 a=2 b=2 c=2
//@ opt deadline=120
//@ val la=1..2 lb=1..2 lc=1..2 sel=0..1 err=0..1
//@ pre: (a[0] != b[0] || (la == 2 && lb == 2 && a[1] != b[1])) && (b[0] != c[0] || (lb == 2 && lc == 2 && b[1] != c[1])) && (a[0] != c[0] || (la == 2 && lc == 2 && a[1] != c[1]))
int t_scandir(int *o, char *a, char *b, char *c, int la, int lb, int lc, int sel, int err){ start(o, err ? 44 : 0); HNL = 9; dirs(0, 2); PC[0] = 'f'; PC[1] = 0; ent(0, a, pin(la, 1, 2), 4, 21LL); ent(1, b, pin(lb, 1, 2), 3, 22LL); ent(2, c, pin(lc, 1, 2), 4, 23LL); Dscan(&PC[0], sel); return LK; }
//@ buf o=200
//@ val sel=0..1 n=0..4 f=-1..0
int t_scanall(int *o, int sel, int n, int f){ start(o, 0); HNL = 9; dirs(0, 2); PC[0] = 'f'; PC[1] = 0; four(pin(n, 0, 4)); DFAIL = f; Dscan(&PC[0], sel); return LK; }
