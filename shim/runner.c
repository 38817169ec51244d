/* Runs the assembler many times.
     runner run  EXE FORK.SO DIR JOBS RESULTS
     runner vary SEEDS OUT SEED COUNT DICTIONARY
     runner fuzz EXE FORK.SO DIR SEEDS FOUND SECONDS SEED WORKERS DICTIONARY
   JOBS, SEEDS, FOUND and DICTIONARY hold texts, each preceded by its length.
   "run" records, for each text: wait status, what was printed, and the output
   file.  "vary" writes variations of the texts.  "fuzz" varies the texts and keeps those that make an instrumented
   assembler do something no earlier one did; it judges nothing. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#define EDGES 65536
#define SIZE (EDGES + 262144)
#define SENTINEL "OLD CONTENT\nOLD CONTENT\nOLD CONTENT\nOLD CONTENT\n"
#define HANG 10000
typedef struct { uint8_t *p; uint32_t n; } Text;

static void die(const char *m) { perror(m); exit(3); }
static uint8_t *slurp(const char *path, size_t *n) {
  int fd = open(path, O_RDONLY); struct stat s;
  if (fd < 0 || fstat(fd, &s)) die(path);
  uint8_t *p = malloc(s.st_size + 1); size_t k = 0;
  while (k < (size_t)s.st_size) { ssize_t r = read(fd, p + k, s.st_size - k); if (r <= 0) die(path); k += r; }
  close(fd); *n = k; return p;
}
static Text *texts(const char *path, int *count) {
  size_t n, k = 0; uint8_t *p = slurp(path, &n); int c = 0;
  while (k + 4 <= n) { uint32_t l; memcpy(&l, p + k, 4); k += 4 + l; c++; }
  Text *t = malloc(sizeof(Text) * (c + 1)); k = 0;
  for (int i = 0; i < c; i++) { memcpy(&t[i].n, p + k, 4); t[i].p = p + k + 4; k += 4 + t[i].n; }
  *count = c; return t;
}
/* ------------------------------------------------------------ the server */
static int to, from, outfd, infd; static pid_t server;
static void start(const char *exe, const char *so, const char *dir, const char *map) {
  int a[2], b[2];
  if (mkdir(dir, 0700) && errno != EEXIST) die(dir);
  if (chdir(dir)) die(dir);
  outfd = open("stdout", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
  infd = open("t.s", O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (outfd < 0 || infd < 0 || pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) die("start");
  server = fork();
  if (!server) {
    struct rlimit l = {4ul << 30, 4ul << 30}, f = {256ul << 20, 256ul << 20}, c = {0, 0};
    setrlimit(RLIMIT_AS, &l); setrlimit(RLIMIT_FSIZE, &f); setrlimit(RLIMIT_CORE, &c);
    int z = open("/dev/null", O_RDWR);
    dup2(z, 0); dup2(outfd, 1); dup2(z, 2);
    dup2(a[0], 198); dup2(b[1], 199);
    char e1[4096], e2[4096]; snprintf(e1, 4096, "LD_PRELOAD=%s", so); snprintf(e2, 4096, "C8S_MAP=%s", map ? map : "");
    char *env[] = {"PATH=/usr/bin:/bin", "LC_ALL=C", "RUST_BACKTRACE=0", "C8S_FORK=1", e1, map ? e2 : 0, 0};
    char *argv[] = {"c8s", "-o", "t.hex", "t.s", 0};
    execve(exe, argv, env); _exit(9);
  }
  close(a[0]); close(b[1]); to = a[1]; from = b[0];
}
static int answer(void *p, int ms) {
  struct pollfd f = {from, POLLIN, 0};
  int r = poll(&f, 1, ms);
  if (r == 0) return 0;
  if (r < 0 || read(from, p, 4) != 4) die("server");
  return 1;
}
/* status: exit code, 256 + signal, or 999 for a run that did not end */
static int execute(Text t, int sentinel) {
  if (ftruncate(outfd, 0) || ftruncate(infd, 0)) die("truncate");
  for (uint32_t k = 0; k < t.n;) { ssize_t r = pwrite(infd, t.p + k, t.n - k, k); if (r <= 0) die("write"); k += r; }
  if (sentinel) {
    int fd = open("t.hex", O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || write(fd, SENTINEL, sizeof SENTINEL - 1) != sizeof SENTINEL - 1) die("t.hex");
    close(fd);
  }
  int pid, st, hung = 0;
  if (write(to, "x", 1) != 1) die("server");
  if (!answer(&pid, 20000)) die("server");
  if (!answer(&st, HANG)) { hung = 1; kill(pid, SIGKILL); if (!answer(&st, 20000)) die("server"); }
  return hung ? 999 : WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
}
static void put(FILE *f, const void *p, uint32_t n) { fwrite(&n, 4, 1, f); fwrite(p, 1, n, f); }
static uint8_t *contents(int fd, uint32_t *n) {
  struct stat s; if (fstat(fd, &s)) die("fstat");
  uint8_t *p = malloc(s.st_size + 1); uint32_t k = 0;
  while (k < s.st_size) { ssize_t r = pread(fd, p + k, s.st_size - k, k); if (r <= 0) break; k += r; }
  *n = k; return p;
}
/* ------------------------------------------------------------ variation */
static uint64_t rs;
static uint32_t rnd(uint32_t n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return n ? (uint32_t)((rs >> 11) % n) : 0; }
#define MAXLEN 3000
typedef struct { uint32_t a, b; int kind; } Tok;          /* kind: w word, n number, s string, b blank, l newline, c comment, p other */
static int word(int c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int digit(int c) { return c >= '0' && c <= '9'; }
static int hexa(int c) { return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int split(const uint8_t *s, uint32_t n, Tok *t, int max) {
  int c = 0; uint32_t i = 0;
  while (i < n && c < max) {
    uint32_t a = i; int k;
    if (word(s[i])) { k = 'w'; while (i < n && (word(s[i]) || digit(s[i]))) i++; }
    else if (digit(s[i])) { k = 'n'; while (i < n && digit(s[i])) i++; }
    else if ((s[i] == '$' || s[i] == '#')) { k = 'n'; i++; while (i < n && hexa(s[i])) i++; }
    else if (s[i] == '%') { k = 'n'; i++; while (i < n && (s[i] == '0' || s[i] == '1' || s[i] == '.')) i++; }
    else if (s[i] == '"') { k = 's'; i++; while (i < n && s[i] != '"') { if (s[i] == '\\') i++; i++; } if (i < n) i++; else i = n; }
    else if (s[i] == ';') { k = 'c'; while (i < n && s[i] != '\n') i++; }
    else if (s[i] == '\n') { k = 'l'; i++; }
    else if (s[i] == ' ' || s[i] == '\t') { k = 'b'; while (i < n && (s[i] == ' ' || s[i] == '\t')) i++; }
    else { k = 'p'; i++; while (i < n && (s[i] & 0xC0) == 0x80) i++; }
    if (i > n) i = n;
    t[c].a = a; t[c].b = i; t[c].kind = k; c++;
  }
  return c;
}
static uint32_t replace(uint8_t *s, uint32_t n, uint32_t a, uint32_t b, const uint8_t *p, uint32_t m) {
  if (n - (b - a) + m > MAXLEN) return n;
  uint8_t tmp[MAXLEN + 1];
  if (m > MAXLEN) return n;
  memcpy(tmp, p, m);
  memmove(s + a + m, s + b, n - b); memcpy(s + a, tmp, m);
  return n - (b - a) + m;
}
static int value(const uint8_t *p, uint32_t n) {
  char b[40]; if (n > 30) return 0;
  memcpy(b, p, n); b[n] = 0;
  for (char *c = b; *c; c++) if (*c == '.') *c = '0';
  return *b == '$' || *b == '#' ? strtol(b + 1, 0, 16) : *b == '%' ? strtol(b + 1, 0, 2) : strtol(b, 0, 10);
}
static int spell(char *b, int v, int style) {
  if (v < 0) v = 0;
  switch (style) {
    case 0: return sprintf(b, "%d", v);
    case 1: return sprintf(b, "$%x", v);
    case 2: return sprintf(b, "#%X", v);
    case 3: return sprintf(b, "0%d", v);
    case 4: return sprintf(b, "$%03X", v);
    default: { int n = 1; *b = '%'; for (int k = 12; k >= 0; k--) if (v >> k || n > 1 || !k) b[n++] = v >> k & 1 ? '1' : rnd(4) ? '0' : '.'; b[n] = 0; return n; }
  }
}
static Text *dict; static int ndict;
static const int edge[] = {0, 1, 2, 3, 15, 16, 17, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4079, 4080, 4092, 4093, 4094, 4095, 4096, 4097};
static uint32_t vary(uint8_t *s, uint32_t n, Text other) {
  static Tok t[MAXLEN + 1], u[MAXLEN + 1]; char b[80];
  int c = split(s, n, t, MAXLEN), i = c ? rnd(c) : 0, j = c ? rnd(c) : 0;
  /* the line around token i */
  uint32_t la = c ? t[i].a : 0, lb;
  while (la > 0 && s[la - 1] != '\n') la--;
  lb = la; while (lb < n && s[lb++] != '\n') ;
  uint32_t lc = c ? t[j].a : 0; while (lc > 0 && s[lc - 1] != '\n') lc--;
  switch (rnd(20)) {
    case 0: case 1: if (ndict && c) { Text d = dict[rnd(ndict)]; return replace(s, n, t[i].a, t[i].b, d.p, d.n); } return n;
    case 2: if (ndict) { Text d = dict[rnd(ndict)]; uint32_t at = c ? t[i].a : 0; return replace(s, n, at, at, d.p, d.n); } return n;
    case 3: return c ? replace(s, n, t[i].a, t[i].b, s, 0) : n;
    case 4: return c ? replace(s, n, t[j].a, t[j].a, s + t[i].a, t[i].b - t[i].a) : n;
    case 5: return c ? replace(s, n, t[j].a, t[j].b, s + t[i].a, t[i].b - t[i].a) : n;
    case 6: return replace(s, n, la, lb, s, 0);
    case 7: { uint32_t m = lb - la; uint8_t l[MAXLEN]; memcpy(l, s + la, m);                                  /* repeat a line */
              for (int k = rnd(4) ? 1 : 1 << rnd(6); k > 0; k--) n = replace(s, n, la, la, l, m); return n; }
    case 8: { uint32_t m = lb - la; uint8_t l[MAXLEN]; memcpy(l, s + la, m);                                  /* move a line */
              n = replace(s, n, la, lb, s, 0); if (lc > la) lc = lc >= lb ? lc - m : la; return replace(s, n, lc, lc, l, m); }
    case 9: return replace(s, n, lc, lc, s + la, lb - la);                                                    /* copy a line */
    case 10: case 11: case 12:                                                                                  /* another number */
      for (int k = 0; k < c; k++) { int q = (i + k) % c; if (t[q].kind == 'n') {
        int v = value(s + t[q].a, t[q].b - t[q].a), w = v;
        switch (rnd(9)) { case 0: v++; break; case 1: v--; break; case 2: v += 1 + rnd(16); break; case 3: v = edge[rnd(sizeof edge / sizeof *edge)]; break;
          case 4: v ^= 1 << rnd(12); break; case 5: v = rnd(4096); break; case 6: v = rnd(256); break; case 7: break;
          default: for (int m = 0; m < c; m++) if (t[(j + m) % c].kind == 'n') { w = value(s + t[(j + m) % c].a, t[(j + m) % c].b - t[(j + m) % c].a); break; } v = w + (int)rnd(5) - 2; }
        int m = spell(b, v, rnd(6)); return replace(s, n, t[q].a, t[q].b, (uint8_t *)b, m); } }
      return n;
    case 13:                                                                                                  /* rename a word, everywhere or here */
      if (c) { int q = i; for (int k = 0; k < c && t[q].kind != 'w'; k++) q = (q + 1) % c;
        if (t[q].kind != 'w') return n;
        uint8_t old[MAXLEN], neu[MAXLEN + 4]; uint32_t m = t[q].b - t[q].a, m2 = m; memcpy(old, s + t[q].a, m); memcpy(neu, old, m);
        switch (rnd(6)) { case 0: neu[m2++] = '_'; break; case 1: neu[m2++] = "aZ09_xvV"[rnd(8)]; break; case 2: for (uint32_t k = 0; k < m; k++) if (word(neu[k]) && neu[k] != '_') neu[k] ^= 32; break;
          case 3: { uint32_t k = rnd(m); if (word(neu[k]) && neu[k] != '_') neu[k] ^= 32; break; } case 4: if (m > 1) m2--; break;
          default: { int x = rnd(c); for (int k = 0; k < c; k++) if (t[(x + k) % c].kind == 'w') { Tok y = t[(x + k) % c]; m2 = y.b - y.a; memcpy(neu, s + y.a, m2); break; } } }
        if (rnd(2)) return replace(s, n, t[q].a, t[q].b, neu, m2);
        for (int k = c - 1; k >= 0; k--) if (t[k].kind == 'w' && t[k].b - t[k].a == m && !memcmp(s + t[k].a, old, m)) n = replace(s, n, t[k].a, t[k].b, neu, m2);
        return n; }
      return n;
    case 14: { static const char *x[] = {"\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xe2\x80\x83", "\r", "\t", "\v", "\f", "\\", "\"", ";", "\n", ",", ":", ".", "[i]", "[", "]", "\xc2\xa0", "\x01", "'", "%", "$", "#", "_", "-", "0", " ", "\r\n", "\xc2\x85", "\xef\xbb\xbf", "@"};
               const char *p = x[rnd(32)]; uint32_t at = n ? rnd(n + 1) : 0; while (at < n && (s[at] & 0xC0) == 0x80) at++;
               return replace(s, n, at, at, (const uint8_t *)p, strlen(p)); }
    case 15: if (c) { uint8_t r[MAXLEN]; uint32_t m = 1u << rnd(9), at = t[i].a + (t[i].b - t[i].a > 1);            /* a long run */
               memset(r, s[t[i].a] < 128 && rnd(2) ? s[t[i].b - 1] : "a0 ;\nz"[rnd(6)], m); return replace(s, n, at, at, r, m); }
             return n;
    case 16: { uint32_t a = la, x = other.n ? rnd(other.n) : 0; while (x > 0 && other.p[x - 1] != '\n') x--;          /* head of one, tail of another */
               if (a + other.n - x > MAXLEN) return n; memcpy(s + a, other.p + x, other.n - x); return a + other.n - x; }
    case 17: case 18: { int d = split(other.p, other.n > MAXLEN ? MAXLEN : other.n, u, MAXLEN); if (!d) return n;     /* a line of another */
               uint32_t x = u[rnd(d)].a, y; while (x > 0 && other.p[x - 1] != '\n') x--; y = x; while (y < other.n && other.p[y++] != '\n') ;
               return replace(s, n, la, la, other.p + x, y - x); }
    default: if (c && t[i].kind == 'w') for (uint32_t k = t[i].a; k < t[i].b; k++) if (word(s[k]) && s[k] != '_' && rnd(2)) s[k] ^= 32; return n;
  }
}
/* ------------------------------------------------------------ search */
#define QMAX 60000
#define ARENA (256u << 20)
typedef struct { uint32_t off, n; uint8_t why; uint8_t ready; } Entry;
typedef struct { uint8_t virgin[SIZE]; Entry q[QMAX]; uint32_t nq, used, runs; } Shared;
static Shared *sh; static uint8_t *arena, *map;
static uint8_t bucket(uint8_t c) { return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }
static int fresh(void) {
  int why = 0; uint64_t *m = (uint64_t *)map;
  for (int w = 0; w < SIZE / 8; w++) if (m[w]) for (int k = w * 8; k < w * 8 + 8; k++) if (map[k]) {
    uint8_t b = k < EDGES ? bucket(map[k]) : 1, v = sh->virgin[k];
    if (b & ~v) { uint8_t old = __atomic_fetch_or(&sh->virgin[k], b, __ATOMIC_RELAXED);
      if (b & ~old) { int r = k >= EDGES ? 1 : old ? 2 : 3; if (r > why) why = r; } }
  }
  return why;
}
static void add(Text t, int why) {
  uint32_t at = __atomic_fetch_add(&sh->used, t.n, __ATOMIC_RELAXED), k = __atomic_fetch_add(&sh->nq, 1, __ATOMIC_RELAXED);
  if (k >= QMAX || (uint64_t)at + t.n > ARENA) return;
  memcpy(arena + at, t.p, t.n);
  sh->q[k].off = at; sh->q[k].n = t.n; sh->q[k].why = why;
  __atomic_store_n(&sh->q[k].ready, 1, __ATOMIC_RELEASE);
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static int step(Text t) {
  memset(map, 0, SIZE);
  execute(t, 0);
  __atomic_fetch_add(&sh->runs, 1, __ATOMIC_RELAXED);
  return fresh();
}
static Text pick(uint32_t nq) {
  for (;;) { uint32_t k = rnd(2) ? rnd(nq) : nq - 1 - rnd(nq / 3 + 1);
    if (k < nq && __atomic_load_n(&sh->q[k].ready, __ATOMIC_ACQUIRE)) { Text t = {arena + sh->q[k].off, sh->q[k].n}; return t; } }
}
int main(int argc, char **argv) {
  signal(SIGPIPE, SIG_IGN);
  if (argc == 7 && !strcmp(argv[1], "run")) {
    int n, hangs = 0; Text *t = texts(argv[5], &n); FILE *f = fopen(argv[6], "wb"); if (!f) die(argv[6]);
    start(argv[2], argv[3], argv[4], 0);
    for (int k = 0; k < n; k++) {
      if (hangs > 3) { uint32_t r = 1000; fwrite(&r, 4, 1, f); put(f, "", 0); put(f, "", 0); continue; }     /* skipped */
      uint32_t r = execute(t[k], 1), m; fwrite(&r, 4, 1, f);
      if (r == 999) hangs++;
      uint8_t *p = contents(outfd, &m); put(f, p, m > 1 << 20 ? 1 << 20 : m); free(p);
      int fd = open("t.hex", O_RDONLY);
      if (fd < 0) put(f, "", 0); else { p = contents(fd, &m); put(f, p, m); free(p); close(fd); }
    }
    fclose(f); return 0;
  }
  if (argc == 7 && !strcmp(argv[1], "vary")) {
    int n, count = atoi(argv[5]); Text *t = texts(argv[2], &n); FILE *f = fopen(argv[3], "wb"); if (!f || !n) die(argv[3]);
    dict = texts(argv[6], &ndict);
    rs = 0x9E3779B97F4A7C15ull * (1 + (uint64_t)atoll(argv[4])) | 1; for (int k = 0; k < 9; k++) rnd(1);
    static uint8_t s[2 * MAXLEN + 8];
    for (int k = 0; k < count; k++) {
      Text a = t[rnd(n)], b = t[rnd(n)]; uint32_t m = a.n; if (m > MAXLEN || b.n > MAXLEN) die("length");
      memcpy(s, a.p, m);
      for (int j = 1 + rnd(rnd(3) ? 2 : 6); j > 0; j--) m = vary(s, m, b);
      put(f, s, m);
    }
    fclose(f); return 0;
  }
  if (argc == 11 && !strcmp(argv[1], "fuzz")) {
    int n, workers = atoi(argv[9]); Text *t = texts(argv[5], &n); double end = now() + atof(argv[7]);
    dict = texts(argv[10], &ndict);
    sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    arena = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED || arena == MAP_FAILED) die("mmap");
    for (int k = 0; k < n && k < QMAX / 2; k++) if (t[k].n <= MAXLEN) add(t[k], 0);
    uint32_t seeds = sh->nq;
    for (int w = 0; w < workers; w++) if (!fork()) {
      char d[4096], mp[4200]; snprintf(d, 4096, "%s/f%d", argv[4], w); snprintf(mp, 4200, "%s/map", d);
      mkdir(d, 0700);
      int fd = open(mp, O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, SIZE)) die(mp);
      map = mmap(0, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (map == MAP_FAILED) die("map");
      rs = 0x9E3779B97F4A7C15ull * (1 + w + 64 * (uint64_t)atoll(argv[8])) | 1; for (int k = 0; k < 9; k++) rnd(1);
      start(argv[2], argv[3], d, mp);
      for (uint32_t k = w; k < seeds && now() < end; k += workers) { Text x = {arena + sh->q[k].off, sh->q[k].n}; step(x); }
      static uint8_t s[2 * MAXLEN + 8];
      while (now() < end) {
        uint32_t nq = __atomic_load_n(&sh->nq, __ATOMIC_RELAXED); if (nq > QMAX) break;
        Text a = pick(nq), b = pick(nq); uint32_t m = a.n;
        memcpy(s, a.p, m);
        for (int k = 1 + rnd(rnd(3) ? 2 : 6); k > 0; k--) m = vary(s, m, b);
        Text x = {s, m}; int why = step(x);
        if (why) add(x, why);
      }
      _exit(0);
    }
    while (wait(0) > 0) ;
    FILE *f = fopen(argv[6], "wb"); if (!f) die(argv[6]);
    uint32_t nq = sh->nq > QMAX ? QMAX : sh->nq;
    for (uint32_t k = seeds; k < nq; k++) if (sh->q[k].ready) { fputc(sh->q[k].why, f); put(f, arena + sh->q[k].off, sh->q[k].n); }
    fclose(f);
    printf("%u %u\n", sh->runs, nq - seeds);
    return 0;
  }
  return 2;
}
