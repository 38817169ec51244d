/* Watches what a run does to the file system and lets a controller choose when.
   GATE_LOG=file: paths the run created, wrote, renamed, removed or linked.
   GATE_ASK=file: paths the run looked at in any way.
   GATE_OUT, GATE_IN: descriptors; before every call on files of its own the run
   writes a byte to the one and waits for a byte from the other. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

extern char **environ;
static const char *look(const char *n) {
  size_t k = strlen(n);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1;
  return 0;
}
static void put(const char *var, const char *s) {
  const char *p = look(var);
  if (!p || !s || !*s) return;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  if (fd < 0) return;
  char b[9000], cwd[4096] = "";
  if (s[0] != '/') { if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) cwd[0] = 0; }
  int n = snprintf(b, sizeof b, "%s%s%s%c", cwd, cwd[0] ? "/" : "", s, 0);
  syscall(SYS_write, fd, b, n < (int)sizeof b ? n : (int)sizeof b);
  syscall(SYS_close, fd);
}
static void ask(const char *s) { put("GATE_ASK", s); }
static void note(const char *s) { put("GATE_LOG", s); ask(s); }
static pthread_mutex_t one = PTHREAD_MUTEX_INITIALIZER;
static void gate(const char *p) {
  const char *o = look("GATE_OUT"), *i = look("GATE_IN");
  if (!o || !i) return;
  if (p && (!strncmp(p, "/proc", 5) || !strncmp(p, "/sys", 4) || !strncmp(p, "/dev", 4) || !strncmp(p, "/etc", 4) || !strncmp(p, "/usr", 4) || !strncmp(p, "/lib", 4))) return;
  char c = 'g';
  int e = errno;
  pthread_mutex_lock(&one);
  if (syscall(SYS_write, atoi(o), &c, 1) == 1) syscall(SYS_read, atoi(i), &c, 1);
  pthread_mutex_unlock(&one);
  errno = e;
}
#define MODE int m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); }
static int op(int d, const char *p, int f, int m) { gate(p); if (f & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) note(p); else ask(p); return syscall(SYS_openat, d, p, f, m); }
int open(const char *p, int f, ...) { MODE return op(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE return op(AT_FDCWD, p, f, m); }
int openat(int d, const char *p, int f, ...) { MODE return op(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE return op(d, p, f, m); }
int creat(const char *p, mode_t m) { return op(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return op(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void *b, size_t n) { if (fd > 2) gate(0); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (fd > 2) gate(0); return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { if (fd > 2) gate(0); return syscall(SYS_writev, fd, v, n); }
#define TWO(name, call) { gate(0); note(a); note(b); return syscall call; }
int rename(const char *a, const char *b) TWO(rename, (SYS_rename, a, b))
int renameat(int x, const char *a, int y, const char *b) TWO(renameat, (SYS_renameat, x, a, y, b))
int renameat2(int x, const char *a, int y, const char *b, unsigned f) TWO(renameat2, (SYS_renameat2, x, a, y, b, f))
int link(const char *a, const char *b) TWO(link, (SYS_link, a, b))
int linkat(int x, const char *a, int y, const char *b, int f) TWO(linkat, (SYS_linkat, x, a, y, b, f))
int symlink(const char *a, const char *b) { gate(0); note(b); return syscall(SYS_symlink, a, b); }
int unlink(const char *a) { gate(0); note(a); return syscall(SYS_unlink, a); }
int unlinkat(int d, const char *a, int f) { gate(0); note(a); return syscall(SYS_unlinkat, d, a, f); }
int rmdir(const char *a) { gate(0); note(a); return syscall(SYS_rmdir, a); }
int mkdir(const char *a, mode_t m) { gate(0); note(a); return syscall(SYS_mkdir, a, m); }
int truncate(const char *a, off_t n) { gate(0); note(a); return syscall(SYS_truncate, a, n); }
int truncate64(const char *a, off64_t n) { gate(0); note(a); return syscall(SYS_truncate, a, n); }
int ftruncate(int fd, off_t n) { gate(0); return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { gate(0); return syscall(SYS_ftruncate, fd, n); }
int chmod(const char *a, mode_t m) { gate(0); note(a); return syscall(SYS_chmod, a, m); }
int mkstemp(char *t) { gate(0); int fd = -1; static unsigned k; size_t n = strlen(t);
  for (int r = 0; r < 1000 && fd < 0; r++) { snprintf(t + n - 6, 7, "%06u", (unsigned)(syscall(SYS_getpid) * 7 + k++) % 1000000); fd = syscall(SYS_openat, AT_FDCWD, t, O_RDWR | O_CREAT | O_EXCL, 0600); }
  note(t); return fd; }
int statx(int d, const char *p, int f, unsigned m, struct statx *b) { ask(p); return syscall(SYS_statx, d, p, f, m, b); }
int stat(const char *p, struct stat *b) { ask(p); return syscall(SYS_newfstatat, AT_FDCWD, p, b, 0); }
int stat64(const char *p, struct stat64 *b) { ask(p); return syscall(SYS_newfstatat, AT_FDCWD, p, b, 0); }
int lstat(const char *p, struct stat *b) { ask(p); return syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *b) { ask(p); return syscall(SYS_newfstatat, AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
int access(const char *p, int m) { ask(p); return syscall(SYS_faccessat, AT_FDCWD, p, m); }
ssize_t readlink(const char *p, char *b, size_t n) { ask(p); return syscall(SYS_readlinkat, AT_FDCWD, p, b, n); }
