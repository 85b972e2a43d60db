/* LD_PRELOAD schedule control: the process stops before every system call it makes on the pact
 * file ($SCHED_FILE), reports the call on fd 198 and continues when fd 199 delivers 'g'
 * ('k': die here, as if killed).  Sleeps are reported and skipped, blocking locks become retries. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#define OUT 198
#define IN 199
static int tracked[1024];
static const char *target(void) { static const char *t; static int i; if (!i) { t = getenv("SCHED_FILE"); i = 1; } return t; }
static int is_target(const char *p) { const char *t = target(); return t && p && strncmp(p, t, strlen(t)) == 0; }
static int fd_t(int fd) { return fd >= 0 && fd < 1024 && tracked[fd]; }
void sched_stop(const char *name) {
  if (!target()) return;
  char buf[256]; int n = snprintf(buf, sizeof buf, "%s\n", name);
  if (syscall(SYS_write, OUT, buf, n) != n) _exit(9);
  char c; ssize_t r = syscall(SYS_read, IN, &c, 1);
  if (r != 1) _exit(9);
  if (c == 'k') _exit(137);
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name)*)dlsym(RTLD_NEXT, #name)
int open64(const char *path, int flags, ...) {
  REAL(open64); mode_t m = 0; va_list ap; va_start(ap, flags); if (flags & (O_CREAT)) m = va_arg(ap, mode_t); va_end(ap);
  if (!is_target(path)) return real(path, flags, m);
  sched_stop(flags & O_TRUNC ? "open_trunc" : "open");
  int fd = real(path, flags, m); if (fd >= 0 && fd < 1024) tracked[fd] = 1; return fd;
}
int open(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = 0; if (flags & (O_CREAT)) m = va_arg(ap, mode_t); va_end(ap);
  return open64(path, flags, m);
}
int close(int fd) { if (fd_t(fd)) { sched_stop("close"); tracked[fd] = 0; } return syscall(SYS_close, fd); }
int flock(int fd, int op) {
  if (!fd_t(fd)) return syscall(SYS_flock, fd, op);
  const char *n = (op & LOCK_UN) ? "unlock" : (op & LOCK_EX) ? "lock_ex" : "lock_sh";
  for (;;) {
    sched_stop(n);
    int r = syscall(SYS_flock, fd, op | LOCK_NB);
    if (r == 0 || (op & (LOCK_NB | LOCK_UN)) || errno != EWOULDBLOCK) return r;
  }
}
ssize_t read(int fd, void *b, size_t n) { if (fd_t(fd)) sched_stop("read"); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (fd_t(fd)) sched_stop("write"); return syscall(SYS_write, fd, b, n); }
int ftruncate64(int fd, off64_t l) { if (fd_t(fd)) sched_stop("truncate"); return syscall(SYS_ftruncate, fd, l); }
int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
int statx(int d, const char *restrict p, int fl, unsigned m, struct statx *restrict s) {
  if (is_target(p)) sched_stop("stat");
  return syscall(SYS_statx, d, p, fl, m, s);
}
int rename(const char *a, const char *b) { if (is_target(a) || is_target(b)) sched_stop("rename"); return syscall(SYS_rename, a, b); }
int nanosleep(const struct timespec *a, struct timespec *b) { if (target()) { sched_stop("sleep"); return 0; } return syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  if (target()) { sched_stop("sleep"); return 0; }
  return syscall(SYS_clock_nanosleep, c, f, a, b) ? errno : 0;
}
