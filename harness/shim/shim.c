// Preloaded into the program under test: records what it does to the file system and
// injects faults and delays. Settings come from the environment:
//   LV_SHIM_LOG    file that gets one line per recorded call
//   LV_SHIM_FAULTS file with lines "op<TAB>path suffix<TAB>errno<TAB>skip<TAB>count<TAB>limit"
//                  op: openr openw read write opendir; errno 0: only limit the size to <limit> bytes
//   LV_SHIM_DELAY  "max microseconds:seed": random delays around opens, reads and writes
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXF 256
struct fault { char op[8]; char path[512]; int err; long skip; long count; long limit; atomic_long seen; };
static struct fault faults[MAXF];
static int nfaults;
static int logfd = -1;
static unsigned delay_max;
static atomic_uint_fast64_t delay_state;
static char *fdpath[4096];
static char fdmode[4096];

static long raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

__attribute__((constructor)) static void init(void) {
  const char *l = getenv("LV_SHIM_LOG"), *f = getenv("LV_SHIM_FAULTS"), *d = getenv("LV_SHIM_DELAY");
  if (d) { unsigned s = 1; sscanf(d, "%u:%u", &delay_max, &s); delay_state = s * 2654435761u + 1; }
  if (f) {
    int fd = syscall(SYS_openat, AT_FDCWD, f, O_RDONLY | O_CLOEXEC);
    static char buf[65536];
    long n = fd >= 0 ? syscall(SYS_read, fd, buf, sizeof buf - 1) : 0;
    if (fd >= 0) syscall(SYS_close, fd);
    if (n < 0) n = 0;
    buf[n] = 0;
    for (char *p = buf; *p && nfaults < MAXF;) {
      char *e = strchr(p, '\n');
      if (e) *e = 0;
      struct fault *x = &faults[nfaults];
      if (sscanf(p, "%7[^\t]\t%511[^\t]\t%d\t%ld\t%ld\t%ld", x->op, x->path, &x->err, &x->skip, &x->count, &x->limit) == 6) nfaults++;
      if (!e) break;
      p = e + 1;
    }
  }
  if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
  if (logfd >= 0) { int hi = fcntl(logfd, F_DUPFD_CLOEXEC, 900); if (hi >= 0) { syscall(SYS_close, logfd); logfd = hi; } }
}

static void record(const char *op, const char *path, long ret) {
  if (logfd < 0) return;
  char b[3 * PATH_MAX + 128];
  int n = snprintf(b, 64, "%s\t%ld\t", op, ret);
  for (const unsigned char *p = (const unsigned char *)path; *p && n < (int)sizeof b - 8; p++) {
    if (*p < 0x21 || *p > 0x7e || *p == '%') n += sprintf(b + n, "%%%02X", *p);
    else b[n++] = *p;
  }
  b[n++] = '\n';
  raw_write(logfd, b, n);
}

static void pause_a_bit(void) {
  if (!delay_max) return;
  uint64_t x = atomic_fetch_add(&delay_state, 0x9E3779B97F4A7C15ull);
  x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31;
  if (x % 3 == 0) return;
  struct timespec t = {0, (long)(x % delay_max) * 1000};
  nanosleep(&t, 0);
}

// 1: fail with errno set; 2: limit the size
static int faulty(const char *op, const char *path, size_t *size) {
  size_t lp = strlen(path);
  for (int i = 0; i < nfaults; i++) {
    struct fault *x = &faults[i];
    size_t ls = strlen(x->path);
    if (strcmp(x->op, op) || ls > lp || strcmp(path + lp - ls, x->path)) continue;
    long k = atomic_fetch_add(&x->seen, 1);
    if (k < x->skip || (x->count >= 0 && k >= x->skip + x->count)) continue;
    if (x->err) { record("fault", path, x->err); errno = x->err; return 1; }
    if (size && *size > (size_t)x->limit) { record("limit", path, x->limit); *size = x->limit; return 2; }
  }
  return 0;
}

static void full(int dir, const char *p, char *out) {
  if (p[0] != '/' && dir != AT_FDCWD) {
    char l[64], b[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", dir);
    long n = readlink(l, b, sizeof b - 1);
    if (n > 0) { b[n] = 0; snprintf(out, PATH_MAX * 2, "%s/%s", b, p); return; }
  }
  snprintf(out, PATH_MAX * 2, "%s", p);
}

static int do_open(int dir, const char *p, int flags, mode_t mode) {
  char path[PATH_MAX * 2];
  full(dir, p, path);
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_TRUNC | O_CREAT));
  pause_a_bit();
  if (faulty(w ? "openw" : "openr", path, 0)) { int e = errno; record(w ? "openw-failed" : "openr-failed", path, e); errno = e; return -1; }
  int fd = syscall(SYS_openat, dir, p, flags, mode);
  int e = errno;
  if (w) record("openw", path, fd);
  else if (fd >= 0) record("openr", path, fd);
  if (fd >= 0 && fd < 4096) {
    free(fdpath[fd]);
    fdpath[fd] = strdup(path);
    fdmode[fd] = w ? 'w' : 'r';
  }
  errno = e;
  return fd;
}
#define MODE mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int f, ...) { MODE return do_open(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE return do_open(AT_FDCWD, p, f, m); }
int openat(int d, const char *p, int f, ...) { MODE return do_open(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE return do_open(d, p, f, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static const char *of(int fd) { return fd >= 0 && fd < 4096 ? fdpath[fd] : 0; }
int close(int fd) {
  if (fd >= 0 && fd < 4096 && fdpath[fd]) { free(fdpath[fd]); fdpath[fd] = 0; }
  return syscall(SYS_close, fd);
}
ssize_t read(int fd, void *b, size_t n) {
  const char *p = of(fd);
  if (p) { pause_a_bit(); if (faulty("read", p, &n) == 1) return -1; }
  return syscall(SYS_read, fd, b, n);
}
static ssize_t wr(int fd, const void *b, size_t n, long off) {
  const char *p = of(fd);
  if (p) {
    pause_a_bit();
    if (faulty("write", p, &n) == 1) { int e = errno; record("write-failed", p, e); errno = e; return -1; }
  }
  ssize_t r = off < 0 ? syscall(SYS_write, fd, b, n) : syscall(SYS_pwrite64, fd, b, n, off);
  int e = errno;
  if (p) record("write", p, r);
  errno = e;
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return wr(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return wr(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return wr(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  const char *p = of(fd);
  if (!p) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return wr(fd, v[i].iov_base, v[i].iov_len, -1);
  return 0;
}
DIR *opendir(const char *p) {
  static DIR *(*real)(const char *);
  if (!real) real = (DIR *(*)(const char *))dlsym(RTLD_NEXT, "opendir");
  pause_a_bit();
  if (faulty("opendir", p, 0)) { int e = errno; record("opendir-failed", p, e); errno = e; return 0; }
  return real(p);
}

// calls that change the file system otherwise
#define P1(name, sig, args, path, dirfd) \
  int name sig { char q[PATH_MAX * 2]; full(dirfd, path, q); \
    static int (*real) sig; if (!real) real = (int (*) sig)dlsym(RTLD_NEXT, #name); \
    int r = real args; int e = errno; record("change:" #name, q, r < 0 ? -e : r); errno = e; return r; }
P1(unlink, (const char *p), (p), p, AT_FDCWD)
P1(unlinkat, (int d, const char *p, int f), (d, p, f), p, d)
P1(rmdir, (const char *p), (p), p, AT_FDCWD)
P1(mkdir, (const char *p, mode_t m), (p, m), p, AT_FDCWD)
P1(mkdirat, (int d, const char *p, mode_t m), (d, p, m), p, d)
P1(rename, (const char *p, const char *n), (p, n), n, AT_FDCWD)
P1(renameat, (int d, const char *p, int e_, const char *n), (d, p, e_, n), n, e_)
P1(renameat2, (int d, const char *p, int e_, const char *n, unsigned f), (d, p, e_, n, f), n, e_)
P1(truncate, (const char *p, off_t l), (p, l), p, AT_FDCWD)
P1(truncate64, (const char *p, off64_t l), (p, l), p, AT_FDCWD)
P1(chmod, (const char *p, mode_t m), (p, m), p, AT_FDCWD)
P1(fchmodat, (int d, const char *p, mode_t m, int f), (d, p, m, f), p, d)
P1(link, (const char *p, const char *n), (p, n), n, AT_FDCWD)
P1(linkat, (int d, const char *p, int e_, const char *n, int f), (d, p, e_, n, f), n, e_)
P1(symlink, (const char *p, const char *n), (p, n), n, AT_FDCWD)
P1(symlinkat, (const char *p, int d, const char *n), (p, d, n), n, d)
#define F1(name, sig, args) \
  int name sig { static int (*real) sig; if (!real) real = (int (*) sig)dlsym(RTLD_NEXT, #name); \
    const char *q = of(fd); int r = real args; int e = errno; record("change:" #name, q ? q : "?", r < 0 ? -e : r); errno = e; return r; }
F1(ftruncate, (int fd, off_t l), (fd, l))
F1(ftruncate64, (int fd, off64_t l), (fd, l))
F1(fchmod, (int fd, mode_t m), (fd, m))
F1(fchown, (int fd, uid_t u, gid_t g), (fd, u, g))
