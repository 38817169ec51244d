/* Linked into an instrumented build of the assembler: what a run did, as a set
   of features in the shared map named by C8S_MAP.  The first 64 Ki bytes count
   edges; the rest marks, per comparison, how far apart its operands were. */
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
#define EDGES 65536
#define SIZE (EDGES + 262144)
static uint8_t none[SIZE], *map = none;
static uint32_t count;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (map == none && getenv("C8S_MAP")) {
    int fd = open(getenv("C8S_MAP"), O_RDWR);
    if (fd >= 0) {
      void *p = mmap(0, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) map = p;
      close(fd);
    }
    unsetenv("C8S_MAP");
  }
  if (a == b || *a) return;
  for (; a < b; a++) *a = count++ % EDGES;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { uint8_t *m = map + *g; if (*m != 255) ++*m; }
static void cmp(uintptr_t pc, uint64_t a, uint64_t b) {
  /* the sign and magnitude of the difference */
  uint64_t d = a > b ? a - b : b - a;
  unsigned k = d == 0 ? 0 : d < 4 ? d : 2 + (63 - __builtin_clzll(d));      /* 0 1 2 3 then by magnitude */
  if (a < b) k += 66;
  uint32_t h = (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> 40);
  map[EDGES + ((h * 132 + k) & 262143)] = 1;
}
#define PC ((uintptr_t)__builtin_return_address(0) - (uintptr_t)&count)
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmp(PC, a, b); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) {
  for (uint64_t k = 0; k < c[0] && k < 64; k++) if (c[2 + k] == v) cmp(PC + 1 + k, v, v);
}
