/* Counts the file system changes a process makes below VP_CRASH_ROOT, and
 * kills it (with nothing flushed or cleaned up) at the VP_CRASH_AT-th one.
 * A write is cut in half first.  Children are not affected.
 * With VP_GATE, asks before every change or open there instead: writes a
 * byte to the FIFO VP_GATE.at and waits for one from VP_GATE.go, of which a
 * 'k' kills it. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[4096];
static size_t rootlen;
static long crash_at;
static long count;
static int countfd = -1;
static int gate_at = -1, gate_go = -1;
static pthread_mutex_t gate_lock = PTHREAD_MUTEX_INITIALIZER;
static ssize_t (*real_write)(int, const void *, size_t);

__attribute__((constructor)) static void start(void) {
  const char *r = getenv("VP_CRASH_ROOT"), *a = getenv("VP_CRASH_AT"), *c = getenv("VP_CRASH_COUNT");
  if (r) { strncpy(root, r, sizeof root - 1); rootlen = strlen(root); }
  if (a) crash_at = atol(a);
  if (c) countfd = open(c, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  real_write = dlsym(RTLD_NEXT, "write");
  const char *g = getenv("VP_GATE");
  if (g) {
    char f[4200];
    snprintf(f, sizeof f, "%s.at", g);
    gate_at = open(f, O_RDWR | O_CLOEXEC);
    snprintf(f, sizeof f, "%s.go", g);
    gate_go = open(f, O_RDWR | O_CLOEXEC);
  }
  unsetenv("LD_PRELOAD");
}
__attribute__((destructor)) static void stop(void) {
  if (countfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%ld\n", count); if (pwrite(countfd, b, n, 0) < 0) {} }
}
static int below(int dirfd, const char *p) {
  char buf[8192], full[8192];
  if (!rootlen || !p) return 0;
  if (p[0] != '/') {
    char l[64];
    if (dirfd == AT_FDCWD) { if (!getcwd(buf, sizeof buf)) return 0; }
    else { snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(l, buf, sizeof buf - 1); if (n < 0) return 0; buf[n] = 0; }
    snprintf(full, sizeof full, "%s/%s", buf, p);
    p = full;
  }
  return !strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen]);
}
static int fd_below(int fd) {
  char l[64], buf[8192];
  if (!rootlen || fd < 3) return 0;
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, buf, sizeof buf - 1);
  if (n < 0) return 0;
  buf[n] = 0;
  return below(AT_FDCWD, buf);
}
static int ask(void) {
  char c = 0;
  pthread_mutex_lock(&gate_lock);
  if (real_write(gate_at, "x", 1) < 0) {}
  while (read(gate_go, &c, 1) < 0 && errno == EINTR) {}
  pthread_mutex_unlock(&gate_lock);
  return c == 'k';
}
static int hit(void) {
  if (gate_at >= 0) return ask();
  long n = __atomic_add_fetch(&count, 1, __ATOMIC_SEQ_CST);
  if (countfd >= 0) stop();
  return crash_at && n == crash_at;
}
static void dead(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
#define REAL(t, name, ...) static t (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)
#define CHK(cond) do { int e_ = errno; if (cond) { if (hit()) dead(); } errno = e_; } while (0)

#define OPENLIKE(name) \
int name(const char *p, int fl, ...) { REAL(int, name, const char *, int, ...); mode_t m = 0; \
  if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
  CHK((gate_at >= 0 || (fl & (O_CREAT | O_TRUNC))) && below(AT_FDCWD, p)); return real(p, fl, m); }
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(name) \
int name(int d, const char *p, int fl, ...) { REAL(int, name, int, const char *, int, ...); mode_t m = 0; \
  if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
  CHK((gate_at >= 0 || (fl & (O_CREAT | O_TRUNC))) && below(d, p)); return real(d, p, fl, m); }
OPENATLIKE(openat)
OPENATLIKE(openat64)
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); CHK(below(AT_FDCWD, p)); return real(p, m); }
int rmdir(const char *p) { REAL(int, rmdir, const char *); CHK(below(AT_FDCWD, p)); return real(p); }
int unlink(const char *p) { REAL(int, unlink, const char *); CHK(below(AT_FDCWD, p)); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, int, const char *, int); CHK(below(d, p)); return real(d, p, f); }
int symlink(const char *t, const char *p) { REAL(int, symlink, const char *, const char *); CHK(below(AT_FDCWD, p)); return real(t, p); }
int link(const char *t, const char *p) { REAL(int, link, const char *, const char *); CHK(below(AT_FDCWD, p) || (gate_at >= 0 && below(AT_FDCWD, t))); return real(t, p); }
int linkat(int a, const char *t, int d, const char *p, int f) { REAL(int, linkat, int, const char *, int, const char *, int); CHK(below(d, p) || (gate_at >= 0 && below(a, t))); return real(a, t, d, p, f); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); CHK(below(AT_FDCWD, a) || below(AT_FDCWD, b)); return real(a, b); }
int chmod(const char *p, mode_t m) { REAL(int, chmod, const char *, mode_t); CHK(below(AT_FDCWD, p)); return real(p, m); }
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (fd_below(fd) && hit()) { if (real(fd, b, n / 2) < 0) {} dead(); }
  return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  CHK(fd_below(fd)); return real(fd, v, c);
}
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
  if (fd_below(b) && hit()) { if (real(a, x, b, y, n / 2, f) < 0) {} dead(); }
  return real(a, x, b, y, n, f);
}
