/* Stand-in for the operating system's file calls: plays a plan of answers and
 * records every call that concerns the input, the destination or standard output.
 *   C8S_LOG   file the recording is appended to
 *   C8S_IN    path of the input as given to the program
 *   C8S_PLAN  "o=..;r=..;c=..;w=.."  comma-separated answers to successive
 *             opens of the input, reads of it, creations and writes of the destination:
 *             "-" serve; "e" EINTR; "x" fail; "X" fail from now on; "sN" serve at most N bytes
 *   C8S_ERRNO "open,read,create,write": what failures are called
 *   C8S_STDOUT=1  the destination is standard output
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define NFD 1024
static int kind[NFD];                 /* 0 other, 1 input, 2 destination */
static int logfd = -1, to_stdout;
static const char *inpath;
static char *plan[4];                 /* o r c w */
static char store[4][512];
static int failure[4] = { EACCES, EIO, EACCES, ENOSPC };

__attribute__((constructor)) static void init(void) {
  const char *l = getenv("C8S_LOG"), *p = getenv("C8S_PLAN");
  inpath = getenv("C8S_IN");
  to_stdout = getenv("C8S_STDOUT") != NULL;
  if (l) {
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    if (fd >= 0) { logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, fd); }
  }
  const char *en = getenv("C8S_ERRNO");
  if (en) sscanf(en, "%d,%d,%d,%d", failure, failure + 1, failure + 2, failure + 3);
  const char *names = "orcw";
  for (int k = 0; k < 4; k++) {
    plan[k] = store[k];
    if (!p) continue;
    const char *q = p;
    while (q) {
      if (q[0] == names[k] && q[1] == '=') {
        size_t n = strcspn(q + 2, ";");
        if (n > 511) n = 511;
        memcpy(store[k], q + 2, n); store[k][n] = 0;
      }
      q = strchr(q, ';'); if (q) q++;
    }
  }
}

static void note(const char *fmt, ...) {
  if (logfd < 0) return;
  char b[256]; va_list a; va_start(a, fmt);
  int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
  syscall(SYS_write, logfd, b, n);
}
static void note_data(char cls, const unsigned char *d, long n) {
  if (logfd < 0) return;
  char *b = malloc(2 * n + 8); long k = sprintf(b, "W %c ", cls);
  for (long j = 0; j < n; j++) k += sprintf(b + k, "%02x", d[j]);
  b[k++] = '\n'; syscall(SYS_write, logfd, b, k); free(b);
}

/* next answer of a plan: '-' serve, 'e', 'x', or 's' with *lim */
static char answer(int k, size_t *lim) {
  char *p = plan[k];
  if (!p || !*p) return '-';
  if (*p == 'X') return 'x';
  char c = *p++;
  if (c == 's') *lim = strtoul(p, &p, 10);
  if (*p == ',') p++;
  plan[k] = p;
  return c;
}

static int do_open(int dir, const char *path, int flags, int mode) {
  size_t lim;
  int w = (flags & O_ACCMODE) != O_RDONLY;
  int in = !w && inpath && !strcmp(path, inpath);
  int out = w && strncmp(path, "/proc/", 6) && strncmp(path, "/sys/", 5);
  if (in || out) {
    char a = answer(in ? 0 : 2, &lim);
    if (a == 'e') { note("%c eintr\n", in ? 'O' : 'C'); errno = EINTR; return -1; }
    if (a == 'x') { note("%c err\n", in ? 'O' : 'C'); errno = failure[in ? 0 : 2]; return -1; }
  }
  int fd = syscall(SYS_openat, dir, path, flags, mode);
  if (fd >= 0 && fd < NFD) kind[fd] = in ? 1 : out ? 2 : 0;
  if (in || out) {
    int e = errno;
    note("%c %s\n", in ? 'O' : 'C', fd >= 0 ? "ok" : e == EINTR ? "eintr" : "err");
    errno = e;
  }
  return fd;
}
#define MODE int m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); }
int open(const char *p, int f, ...) { MODE return do_open(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE return do_open(AT_FDCWD, p, f, m); }
int openat(int d, const char *p, int f, ...) { MODE return do_open(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE return do_open(d, p, f, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { if (fd >= 0 && fd < NFD) kind[fd] = 0; if (fd == logfd) return 0; return syscall(SYS_close, fd); }

static ssize_t rd(int fd, void *b, size_t n, int at, off64_t off) {
  int k = fd >= 0 && fd < NFD ? kind[fd] : 0;
  if (k == 1 && n > 0) {
    size_t lim = n;
    char a = answer(1, &lim);
    if (a == 'e') { note("R eintr\n"); errno = EINTR; return -1; }
    if (a == 'x') { note("R err\n"); errno = failure[1]; return -1; }
    if (lim < n && lim > 0) n = lim;
  }
  ssize_t r = at ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
  if (k == 1 && n > 0) {
    int e = errno;
    if (r < 0) note("R %s\n", e == EINTR ? "eintr" : "err"); else note("R %ld\n", (long) r);
    errno = e;
  }
  return r;
}
ssize_t read(int fd, void *b, size_t n) { return rd(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return rd(fd, b, n, 1, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return rd(fd, b, n, 1, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  ssize_t t = 0;
  for (int k = 0; k < c; k++) {
    if (!v[k].iov_len) continue;
    ssize_t r = rd(fd, v[k].iov_base, v[k].iov_len, 0, 0);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t) r < v[k].iov_len) break;
  }
  return t;
}

static ssize_t wr(int fd, const void *b, size_t n, int at, off64_t off) {
  int k = fd >= 0 && fd < NFD ? kind[fd] : 0;
  int dest = k == 2 || (fd == 1 && to_stdout);
  char cls = k == 2 ? 'f' : fd == 1 ? 's' : 0;
  if (cls && dest && n > 0) {
    size_t lim = n;
    char a = answer(3, &lim);
    if (a == 'e') { note("W %c eintr\n", cls); errno = EINTR; return -1; }
    if (a == 'x') { note("W %c err\n", cls); errno = failure[3]; return -1; }
    if (lim < n && lim > 0) n = lim;
  }
  ssize_t r = at ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
  if (cls) {
    int e = errno;
    if (r < 0) note("W %c %s\n", cls, e == EINTR ? "eintr" : "err");
    else if (r > 0) note_data(cls, b, r);
    errno = e;
  }
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { return wr(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return wr(fd, b, n, 1, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return wr(fd, b, n, 1, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  ssize_t t = 0;
  for (int k = 0; k < c; k++) {
    if (!v[k].iov_len) continue;
    ssize_t r = wr(fd, v[k].iov_base, v[k].iov_len, 0, 0);
    if (r < 0) return t ? t : r;
    t += r;
    if ((size_t) r < v[k].iov_len) break;
  }
  return t;
}
