/* The system-call seam of the command line tool: preloaded into the real
 * binary, it answers read, write and open calls on the input and on standard
 * output as the simulator's script says.
 *
 * SIMIO = "fd;pathlen:path;in-chunks;out-chunks;faults;seed"
 *   fd      shared record (u64[64])
 *   chunks  comma separated sizes, cycled; empty: as asked for
 *   faults  on:at:errno:sticky, comma separated; on 0 read, 1 write, 2 open;
 *           errno 0: return 0, -1: die
 *   seed    of the random bytes the system gives
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXF 24
#define MAXC 16
static volatile uint64_t *rec;
static int in_fd = 0, ready = 0;
static char path[512];
static long chin[MAXC], chout[MAXC];
static int nin, nout, ci, co;
static struct { int on; long at; int err; int sticky; int gone; } F[MAXF];
static int nf;
static uint64_t seed;

enum { R_IN, R_OUT, R_READS, R_WRITES, R_OPENS, R_EOF, R_HASH, R_HARD_READ, R_HARD_WRITE, R_HARD_OPEN, R_OTHER, R_FIRED = 16 };

static long num(const char **p) {
  long s = 1, v = 0;
  if (**p == '-') { s = -1; (*p)++; }
  while (**p >= '0' && **p <= '9') v = v * 10 + (*(*p)++ - '0');
  return s * v;
}
static void mixin(uint64_t x) {
  uint64_t h = rec[R_HASH] ^ x;
  h = (h ^ (h >> 30)) * 0xBF58476D1CE4E5B9ull;
  h = (h ^ (h >> 27)) * 0x94D049BB133111EBull;
  rec[R_HASH] = h ^ (h >> 31);
}
__attribute__((constructor)) static void init(void) {
  if (ready) return;
  const char *p = getenv("SIMIO");
  if (!p) return;
  int fd = num(&p);
  p++;
  long n = num(&p);
  p++;
  if (n > 500) n = 500;
  memcpy(path, p, n);
  path[n] = 0;
  p += n + 1;
  while (*p && *p != ';') { if (nin < MAXC) chin[nin++] = num(&p); if (*p == ',') p++; }
  if (*p) p++;
  while (*p && *p != ';') { if (nout < MAXC) chout[nout++] = num(&p); if (*p == ',') p++; }
  if (*p) p++;
  while (*p && *p != ';' && nf < MAXF) {
    F[nf].on = num(&p); p++;
    F[nf].at = num(&p); p++;
    F[nf].err = num(&p); p++;
    F[nf].sticky = num(&p);
    nf++;
    if (*p == ',') p++;
  }
  while (*p && *p != ';') p++;
  if (*p) p++;
  seed = (uint32_t)num(&p);
  void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (m == MAP_FAILED) _exit(95);
  rec = m;
  if (path[0]) in_fd = -1;
  ready = 1;
}
static void watch(void) {
  if (rec[R_READS] + rec[R_WRITES] + rec[R_OPENS] > 2000000) _exit(96);
}
/* fault due at this offset? -1: none; otherwise its index */
static int due(int on, long pos) {
  for (int i = 0; i < nf; i++)
    if (!F[i].gone && F[i].on == on && F[i].at <= pos) return i;
  return -1;
}
static ssize_t strike(int i, int hard_slot) {
  rec[R_FIRED + i]++;
  if (!F[i].sticky) F[i].gone = 1;
  mixin(0x1000 + i);
  if (F[i].err == -1) { syscall(SYS_kill, getpid(), SIGKILL); for (;;) ; }
  if (F[i].err != EINTR) rec[hard_slot]++;
  if (F[i].err == 0) return 0;
  errno = F[i].err;
  return -1;
}
static size_t bound(int on, long pos, size_t n) {
  for (int i = 0; i < nf; i++)
    if (!F[i].gone && F[i].on == on && F[i].at > pos && (size_t)(F[i].at - pos) < n) n = F[i].at - pos;
  return n;
}

ssize_t getrandom(void *b, size_t n, unsigned flags) {
  init();
  if (!ready) return syscall(SYS_getrandom, b, n, flags);
  for (size_t i = 0; i < n; i++) {
    seed = seed * 6364136223846793005ull + 1442695040888963407ull;
    ((unsigned char *)b)[i] = seed >> 56;
  }
  return n;
}

ssize_t read(int fd, void *b, size_t n) {
  init();
  if (!ready || fd != in_fd || n == 0) return syscall(SYS_read, fd, b, n);
  rec[R_READS]++;
  watch();
  long pos = rec[R_IN];
  int i = due(0, pos);
  if (i >= 0) return strike(i, R_HARD_READ);
  if (nin) { size_t c = chin[ci++ % nin]; if (c < 1) c = 1; if (c < n) n = c; }
  n = bound(0, pos, n);
  ssize_t r = syscall(SYS_read, fd, b, n);
  if (r > 0) rec[R_IN] += r;
  if (r == 0) rec[R_EOF]++;
  mixin(0x2000000 + r);
  return r;
}
ssize_t write(int fd, const void *b, size_t n) {
  init();
  if (!ready || fd != 1 || n == 0) return syscall(SYS_write, fd, b, n);
  rec[R_WRITES]++;
  watch();
  long pos = rec[R_OUT];
  int i = due(1, pos);
  if (i >= 0) return strike(i, R_HARD_WRITE);
  if (nout) { size_t c = chout[co++ % nout]; if (c < 1) c = 1; if (c < n) n = c; }
  n = bound(1, pos, n);
  ssize_t r = syscall(SYS_write, fd, b, n);
  if (r > 0) rec[R_OUT] += r;
  mixin(0x3000000 + r);
  return r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  init();
  if (!ready || fd != in_fd) return syscall(SYS_readv, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  init();
  if (!ready || fd != 1) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  init();
  if (!ready || fd != in_fd || o != (off64_t)rec[R_IN]) return syscall(SYS_pread64, fd, b, n, o);
  ssize_t r = read(fd, b, n);
  return r;
}
/* in-kernel copies would bypass the seam: as on a file system without them */
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { init(); if (ready) { rec[R_OTHER]++; errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, f, n); }
ssize_t sendfile(int o, int i, off_t *f, size_t n) { return sendfile64(o, i, (off64_t *)f, n); }
ssize_t splice(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) { init(); if (ready) { rec[R_OTHER]++; errno = EINVAL; return -1; } return syscall(SYS_splice, a, x, b, y, n, f); }
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) { init(); if (ready) { rec[R_OTHER]++; errno = EXDEV; return -1; } return syscall(SYS_copy_file_range, a, x, b, y, n, f); }

static int opened(int dir, const char *p, int flags, mode_t m) {
  init();
  if (!ready || !path[0] || strcmp(p, path) != 0) return syscall(SYS_openat, dir, p, flags, m);
  rec[R_OPENS]++;
  watch();
  int i = due(2, 0);
  if (i >= 0) return strike(i, R_HARD_OPEN);
  int fd = syscall(SYS_openat, dir, p, flags, m);
  if (fd >= 0 && in_fd < 0) in_fd = fd;
  return fd;
}
#define MODE va_list ap; va_start(ap, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
int open(const char *p, int f, ...) { MODE return opened(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE return opened(AT_FDCWD, p, f, m); }
int openat(int d, const char *p, int f, ...) { MODE return opened(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE return opened(d, p, f, m); }
