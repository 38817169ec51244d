/* Shows what a run asks of its surroundings (environment variables, files) and
   answers questions about clock, process, terminal and randomness as told:
   PROBE_LOG=file, PROBE_TIME=seconds to add, PROBE_PID=n, PROBE_RAND=seed, PROBE_TTY=0|1. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static const char *look(const char *n) {
  size_t k = strlen(n);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1;
  return 0;
}
static int logfd = -2;
static void note(char what, const char *s) {
  if (logfd == -2) {
    const char *p = look("PROBE_LOG");
    logfd = p ? (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644) : -1;
  }
  if (logfd < 0) return;
  char b[4200];
  int n = snprintf(b, sizeof b, "%c %s\n", what, s);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  syscall(SYS_write, logfd, b, n);
}
static long num(const char *n, long d) { const char *p = look(n); return p && *p ? atol(p) : d; }

char *getenv(const char *n) { if (strncmp(n, "PROBE_", 6)) note('E', n); return (char *)look(n); }
char *secure_getenv(const char *n) { return getenv(n); }

int clock_gettime(clockid_t c, struct timespec *t) {
  int r = syscall(SYS_clock_gettime, c, t);
  if (!r && c == CLOCK_REALTIME) { note('T', ""); t->tv_sec += num("PROBE_TIME", 0); }
  return r;
}
int gettimeofday(struct timeval *t, void *z) {
  struct timespec s; clock_gettime(CLOCK_REALTIME, &s); (void)z;
  if (t) { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; }
  return 0;
}
time_t time(time_t *p) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
pid_t getpid(void) { note('P', ""); return num("PROBE_PID", syscall(SYS_getpid)); }
pid_t getppid(void) { note('P', ""); return num("PROBE_PID", syscall(SYS_getppid)); }
int isatty(int fd) {
  note('Y', "");
  long v = num("PROBE_TTY", -1);
  if (v == 1) return 1;
  if (v == 0) { errno = ENOTTY; return 0; }
  char b[64];
  return syscall(SYS_ioctl, fd, 0x5401, b) == 0;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  long s = num("PROBE_RAND", -1);
  note('R', "");
  if (s < 0) return syscall(SYS_getrandom, b, n, f);
  unsigned long x = 0x9E3779B97F4A7C15UL * (s + 1);
  for (size_t k = 0; k < n; k++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ((unsigned char *)b)[k] = x >> 32; }
  return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

#define MODE int m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); }
static int op(int d, const char *p, int f, int m) { note(f & (O_WRONLY | O_RDWR) ? 'W' : 'F', p); return syscall(SYS_openat, d, p, f, m); }
int open(const char *p, int f, ...) { MODE return op(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE return op(AT_FDCWD, p, f, m); }
int openat(int d, const char *p, int f, ...) { MODE return op(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE return op(d, p, f, m); }
int access(const char *p, int m) { note('F', p); return syscall(SYS_access, p, m); }
int statx(int d, const char *restrict p, int f, unsigned k, struct statx *restrict s) { if (p && *p) note('F', p); return syscall(SYS_statx, d, p, f, k, s); }
int stat(const char *restrict p, struct stat *restrict s) { note('F', p); return syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int stat64(const char *restrict p, struct stat64 *restrict s) { note('F', p); return syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int lstat(const char *restrict p, struct stat *restrict s) { note('F', p); return syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *restrict p, struct stat64 *restrict s) { note('F', p); return syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
