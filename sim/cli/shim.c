/* Loaded into setup / zkp-prove / zkp-verify: files, crashes and randomness under the simulator.
 * Operations on relative paths are numbered; DST_FAULTS="kind:op:arg,..." says what happens at
 * which of them, DST_SEED drives getrandom, DST_LOG gets one line per operation. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXF 16
static struct { char kind[12]; long op; long arg; int used; } F[MAXF];
static int nf = -1, logfd = -1, full = 0;
static long op = 0;
static uint64_t rs = 0;
static unsigned char tracked[1024];

static long sys3(long n, long a, long b, long c) {
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  return r;
}
static long sys4(long n, long a, long b, long c, long d) {
  long r;
  register long r10 __asm__("r10") = d;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static void init(void) {
  if (nf >= 0) return;
  nf = 0;
  const char *s = getenv("DST_SEED");
  rs = s ? strtoull(s, 0, 10) : 1;
  const char *l = getenv("DST_LOG");
  if (l) {
    long fd = sys4(SYS_openat, AT_FDCWD, (long)l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (fd >= 0) { /* out of the way of the tool's own descriptors */
      long hi = sys3(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
      if (hi >= 0) { sys3(SYS_close, fd, 0, 0); fd = hi; }
      logfd = (int)fd;
    }
  }
  const char *f = getenv("DST_FAULTS");
  while (f && *f && nf < MAXF) {
    int n = 0;
    if (sscanf(f, "%11[a-z]:%ld:%ld%n", F[nf].kind, &F[nf].op, &F[nf].arg, &n) < 3) break;
    F[nf].used = 0;
    nf++;
    f += n;
    if (*f == ',') f++;
  }
}
static void note(const char *what, const char *path, long n, const char *fault) {
  if (logfd < 0) return;
  char b[512];
  int k = snprintf(b, sizeof b, "%ld %s %s %ld %s\n", op, what, path ? path : "-", n, fault ? fault : "-");
  if (k > 0) sys3(SYS_write, logfd, (long)b, k < (int)sizeof b ? k : (int)sizeof b - 1);
}
/* the fault planned for the current operation, if it applies to this kind of operation */
static int hit(const char *ok) {
  for (int i = 0; i < nf; i++)
    if (!F[i].used && F[i].op == op && strstr(ok, F[i].kind)) { F[i].used = 1; return i; }
  return -1;
}
static void die(void) {
  sys3(SYS_exit_group, 137, 0, 0);
  for (;;) ;
}
static int ours(const char *p) { return p && p[0] != '/'; }
static int is(int i, const char *k) { return i >= 0 && !strcmp(F[i].kind, k); }

static long do_open(int dir, const char *p, int flags, int mode) {
  init();
  if (!ours(p) || (flags & O_DIRECTORY)) return ret(sys4(SYS_openat, dir, (long)p, flags, mode));
  int wr = (flags & O_ACCMODE) != O_RDONLY;
  int i = hit(" crash eio eintr nofd ");
  note(wr ? "create" : "open", p, 0, i >= 0 ? F[i].kind : 0);
  op++;
  if (is(i, "crash")) die();
  if (is(i, "eio")) { errno = EIO; return -1; }
  if (is(i, "eintr")) { errno = EINTR; return -1; }
  if (is(i, "nofd")) { errno = EMFILE; return -1; }
  struct stat st;
  if (wr && full && (flags & O_CREAT) && sys4(SYS_newfstatat, dir, (long)p, (long)&st, 0) < 0) { errno = ENOSPC; return -1; }
  long fd = ret(sys4(SYS_openat, dir, (long)p, flags, mode));
  if (fd >= 0 && fd < 1024) tracked[fd] = wr ? 2 : 1;
  return fd;
}
int open64(const char *p, int flags, ...) {
  va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a);
  return (int)do_open(AT_FDCWD, p, flags, m);
}
int open(const char *p, int flags, ...) {
  va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a);
  return (int)do_open(AT_FDCWD, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
  va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a);
  return (int)do_open(d, p, flags, m);
}
int openat(int d, const char *p, int flags, ...) {
  va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a);
  return (int)do_open(d, p, flags, m);
}
int close(int fd) {
  init();
  if (fd >= 0 && fd < 1024) tracked[fd] = 0;
  return (int)ret(sys3(SYS_close, fd, 0, 0));
}
ssize_t write(int fd, const void *b, size_t n) {
  init();
  if (fd < 0 || fd >= 1024 || tracked[fd] != 2) return ret(sys3(SYS_write, fd, (long)b, n));
  int i = hit(" crash tear enospc eio short eintr lost ");
  note("write", 0, (long)n, i >= 0 ? F[i].kind : 0);
  op++;
  size_t part = i >= 0 && n > 0 ? (size_t)F[i].arg % n : 0;
  if (is(i, "crash")) die();
  if (is(i, "tear")) { if (part) sys3(SYS_write, fd, (long)b, part); die(); }
  if (is(i, "eio")) { if (part) sys3(SYS_write, fd, (long)b, part); errno = EIO; return -1; }
  if (is(i, "eintr")) { errno = EINTR; return -1; }
  if (is(i, "enospc")) {
    full = 1;
    if (part) return ret(sys3(SYS_write, fd, (long)b, part));
  }
  if (full) { errno = ENOSPC; return -1; }
  if (is(i, "short") && n > 1) return ret(sys3(SYS_write, fd, (long)b, part ? part : 1));
  if (is(i, "lost")) {
    struct stat st;
    sys3(SYS_lseek, fd, n, SEEK_CUR);
    off_t at = sys3(SYS_lseek, fd, 0, SEEK_CUR);
    if (sys3(SYS_fstat, fd, (long)&st, 0) == 0 && st.st_size < at) sys3(SYS_ftruncate, fd, at, 0);
    return n;
  }
  return ret(sys3(SYS_write, fd, (long)b, n));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  init();
  if (fd < 0 || fd >= 1024 || tracked[fd] != 2) return ret(sys3(SYS_writev, fd, (long)v, c));
  for (int k = 0; k < c; k++)
    if (v[k].iov_len) return write(fd, v[k].iov_base, v[k].iov_len); /* a short writev is legal */
  return 0;
}
static ssize_t rd(int fd, void *b, size_t n, long nr, off_t at) {
  init();
  if (fd < 0 || fd >= 1024 || !tracked[fd] || !n) return ret(sys4(nr, fd, (long)b, n, at));
  int i = hit(" crash eio short eintr flip ");
  note("read", 0, (long)n, i >= 0 ? F[i].kind : 0);
  op++;
  if (is(i, "crash")) die();
  if (is(i, "eio")) { errno = EIO; return -1; }
  if (is(i, "eintr")) { errno = EINTR; return -1; }
  if (is(i, "short") && n > 1) n = 1 + (size_t)F[i].arg % (n - 1);
  long r = sys4(nr, fd, (long)b, n, at);
  if (is(i, "flip") && r > 0) ((unsigned char *)b)[(F[i].arg / 8) % r] ^= 1 << (F[i].arg % 8);
  return ret(r);
}
ssize_t read(int fd, void *b, size_t n) { return rd(fd, b, n, SYS_read, 0); }
ssize_t pread64(int fd, void *b, size_t n, off64_t at) { return rd(fd, b, n, SYS_pread64, at); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t at) {
  init();
  if (fd < 0 || fd >= 1024 || tracked[fd] != 2) return ret(sys4(SYS_pwrite64, fd, (long)b, n, at));
  long was = sys3(SYS_lseek, fd, 0, SEEK_CUR);
  sys3(SYS_lseek, fd, at, SEEK_SET);
  ssize_t r = write(fd, b, n);
  int e = errno;
  sys3(SYS_lseek, fd, was, SEEK_SET);
  errno = e;
  return r;
}
#define PATHOP(what, p, call)                                                                        \
  init();                                                                                            \
  if (!ours(p)) return (int)ret(call);                                                               \
  int i = hit(" crash eio enospc ");                                                                 \
  note(what, p, 0, i >= 0 ? F[i].kind : 0);                                                          \
  op++;                                                                                              \
  if (is(i, "crash")) die();                                                                         \
  if (is(i, "eio")) { errno = EIO; return -1; }                                                      \
  if (is(i, "enospc")) { full = 1; errno = ENOSPC; return -1; }                                      \
  return (int)ret(call);
int mkdir(const char *p, mode_t m) { PATHOP("mkdir", p, sys3(SYS_mkdir, (long)p, m, 0)) }
int unlink(const char *p) { PATHOP("unlink", p, sys3(SYS_unlink, (long)p, 0, 0)) }
int rename(const char *p, const char *q) { PATHOP("rename", p, sys3(SYS_rename, (long)p, (long)q, 0)) }
int link(const char *p, const char *q) { PATHOP("link", p, sys3(SYS_link, (long)p, (long)q, 0)) }
#define FDOP(what, call)                                                                             \
  init();                                                                                            \
  if (fd < 0 || fd >= 1024 || !tracked[fd]) return (int)ret(call);                                   \
  int i = hit(" crash eio ");                                                                        \
  note(what, 0, 0, i >= 0 ? F[i].kind : 0);                                                          \
  op++;                                                                                              \
  if (is(i, "crash")) die();                                                                         \
  if (is(i, "eio")) { errno = EIO; return -1; }                                                      \
  return (int)ret(call);
int fsync(int fd) { FDOP("fsync", sys3(SYS_fsync, fd, 0, 0)) }
int fdatasync(int fd) { FDOP("fdatasync", sys3(SYS_fdatasync, fd, 0, 0)) }
int ftruncate64(int fd, off64_t n) { FDOP("ftruncate", sys3(SYS_ftruncate, fd, n, 0)) }
int ftruncate(int fd, off_t n) { FDOP("ftruncate", sys3(SYS_ftruncate, fd, n, 0)) }

static void fill(unsigned char *b, size_t n) {
  while (n) {
    rs += 0x9e3779b97f4a7c15ull;
    uint64_t z = rs;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    z ^= z >> 31;
    size_t k = n < 8 ? n : 8;
    memcpy(b, &z, k);
    b += k;
    n -= k;
  }
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  (void)f;
  init();
  note("random", 0, (long)n, 0);
  fill(b, n);
  return (ssize_t)n;
}
int getentropy(void *b, size_t n) {
  getrandom(b, n, 0);
  return 0;
}
long syscall(long nr, ...) {
  va_list a;
  va_start(a, nr);
  long x[6];
  for (int i = 0; i < 6; i++) x[i] = va_arg(a, long);
  va_end(a);
  if (nr == SYS_getrandom) return getrandom((void *)x[0], (size_t)x[1], (unsigned)x[2]);
  long r;
  register long r10 __asm__("r10") = x[3];
  register long r8 __asm__("r8") = x[4];
  register long r9 __asm__("r9") = x[5];
  __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(x[0]), "S"(x[1]), "d"(x[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret(r);
}
