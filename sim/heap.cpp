// Deterministic heap.  Two arenas at fixed addresses: HOST for the runtime and
// everything before the run, RUN for the code under test.  RUN memory is never
// reused inside a run (freed blocks are quarantined and poisoned), so use after
// free and overruns are seen at the access and addresses do not depend on
// anything but the execution itself.
#include "rt.h"
#include <sys/mman.h>
#include <string.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
#include <stdio.h>

namespace rt {
static const uintptr_t HOST = 0x200000000000ULL, HOST_SZ = 1ULL << 32;
static const uintptr_t RUN = 0x300000000000ULL, RUN_SZ = 1ULL << 34, LIVE_MAX = 1ULL << 30;
static const uintptr_t SHD = 0x400000000000ULL;
static std::atomic_flag lk = ATOMIC_FLAG_INIT;
static bool ready = false;
static bool run_on = false;
static uintptr_t host_top, run_top;
static void *host_free[64];
static uint64_t n_blocks, n_bytes, biggest, handed;
static uint64_t limit_bytes = 256u << 20;
static bool corrupt_reported = false;

struct Hdr { uint64_t size; uint64_t magic; };
static const uint64_t MAGIC = 0x51AC51ACAB1E0001ULL, FREED = 0x51ACDEADDEAD0001ULL, KEPT = 0x51AC51ACAB1E0002ULL;

static void init() {
  if (ready) return;
  void *a = mmap((void *)HOST, HOST_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  void *b = mmap((void *)RUN, RUN_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  void *c = mmap((void *)SHD, RUN_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (a == MAP_FAILED || b == MAP_FAILED || c == MAP_FAILED) { static const char m[] = "sim: cannot map arenas\n"; ssize_t r = ::write(2, m, sizeof m - 1); (void)r; _exit(3); }
  host_top = HOST + 64; run_top = RUN + 64;
  ready = true;
}
struct L { L() { while (lk.test_and_set(std::memory_order_acquire)) {} } ~L() { lk.clear(std::memory_order_release); } };

void heap_begin_run() { run_on = true; }
bool in_run(const void *p) { return (uintptr_t)p >= RUN && (uintptr_t)p < RUN + RUN_SZ; }

static int cls(size_t n) { int c = 5; while (((size_t)1 << c) < n) c++; return c; }

static void *host_alloc(size_t n, size_t al) {
  L l; init();
  if (al <= 16) {
    int c = cls(n + sizeof(Hdr));
    if (host_free[c]) { void *p = host_free[c]; host_free[c] = *(void **)p; Hdr *h = (Hdr *)p - 1; h->size = n; h->magic = c; return p; }
    uintptr_t p = (host_top + 15) & ~15ULL;
    if (p + ((size_t)1 << c) > HOST + HOST_SZ) return NULL;
    host_top = p + ((size_t)1 << c);
    Hdr *h = (Hdr *)p; h->size = n; h->magic = c; return h + 1;
  }
  uintptr_t p = (host_top + sizeof(Hdr) + al - 1) & ~(al - 1);
  if (p + n > HOST + HOST_SZ) return NULL;
  host_top = p + n;
  Hdr *h = (Hdr *)p - 1; h->size = n; h->magic = 63; return (void *)p;
}

static void set_shadow(uintptr_t p, size_t n, int freed) {
  uint8_t *s = (uint8_t *)SHD + ((p - RUN) >> 3);
  size_t full = n >> 3;
  memset(s, freed ? 0xFD : 0xFF, full);
  if (n & 7) s[full] = freed ? 0xFD : (uint8_t)(n & 7);
}

static void *run_alloc(size_t n, size_t al) {
  if (al < 16) al = 16;
  if (n > biggest) biggest = n;
  if (n > limit_bytes) return NULL;
  if (cur && cur->alloc_faults && cur->noyield == 0) {
    RtScope rs;
    if (sim::chance(sim::K_ALLOCFAIL, 0.02)) { trace("alloc(%zu) fails", n); return NULL; }
  }
  uintptr_t p = (run_top + sizeof(Hdr) + al - 1) & ~(al - 1);
  if (n_bytes + n > LIVE_MAX) finish(ST_VIOL, "runaway-allocation", "the run holds more than 1 GiB");
  if (p + n + 32 > RUN + RUN_SZ) finish(ST_VIOL, "runaway-allocation", "the run allocated more than 16 GiB in total");
  run_top = p + n + 32;
  Hdr *h = (Hdr *)p - 1; h->size = n; bool kept = cur && cur->once > 0; h->magic = kept ? KEPT : MAGIC;
  set_shadow(p, n, 0);
  if (!kept) { n_blocks++; n_bytes += n; } handed += n;
  memset((void *)p, 0xBE, n > 65536 ? 65536 : n);
  return (void *)p;
}

static void *alloc(size_t n, size_t al) {
  if (run_on && in_rt == 0 && cur) return run_alloc(n, al);
  return host_alloc(n, al);
}

static void release(void *p) {
  if (!p) return;
  Hdr *h = (Hdr *)p - 1;
  if (in_run(p)) {
    if (h->magic == FREED) finish(ST_VIOL, "double-free", "a heap block is freed twice");
    if (h->magic != MAGIC && h->magic != KEPT) finish(ST_VIOL, "bad-free", "free() of a pointer that is not a heap block, or its header was overwritten");
    if (h->magic == MAGIC) { n_blocks--; n_bytes -= h->size; } h->magic = FREED;
    set_shadow((uintptr_t)p, h->size, 1);
    // a long run gives the pages of its large freed blocks back; the shadow still knows them as freed
    uintptr_t a = ((uintptr_t)p + 4095) & ~4095ULL, e = ((uintptr_t)p + h->size) & ~4095ULL;
    if (h->size >= 8192 && run_top - RUN > (256u << 20) && e > a) madvise((void *)a, e - a, MADV_DONTNEED);
    else memset(p, 0xDD, h->size > 65536 ? 65536 : h->size);
    return;
  }
  if ((uintptr_t)p >= HOST && (uintptr_t)p < HOST + HOST_SZ) {
    L l;
    if (h->magic == 63) return;
    *(void **)p = host_free[h->magic]; host_free[h->magic] = p;
  }
}

static size_t usable(void *p) { return p ? ((Hdr *)p - 1)->size : 0; }

void heap_note_access(const void *a, size_t n, bool w) {
  uintptr_t p = (uintptr_t)a;
  if (p - RUN >= RUN_SZ || !run_on) return;
  uint8_t s = ((uint8_t *)SHD)[(p - RUN) >> 3];
  if (s == 0xFF) {
    if ((p & 7) + n <= 8) return;
    uint8_t e = ((uint8_t *)SHD)[(p + n - 1 - RUN) >> 3];
    if (e == 0xFF || (e < 8 && e > ((p + n - 1) & 7))) return;
    s = e;
  } else if (s && s < 8 && (p & 7) + n <= s) return;
  if (corrupt_reported) return;
  corrupt_reported = true;
  if (s == 0xFD) finish(ST_VIOL, "use-after-free", w ? "write to a freed heap block" : "read from a freed heap block");
  finish(ST_VIOL, "heap-overrun", w ? "write outside a heap block" : "read outside a heap block");
}
}

namespace sim {
uint64_t live_blocks() { return rt::n_blocks; }
uint64_t live_bytes() { return rt::n_bytes; }
uint64_t max_alloc() { return rt::biggest; }
void reset_max_alloc() { rt::biggest = 0; }
void alloc_limit(uint64_t b) { rt::limit_bytes = b; }
void fail_allocs(bool on) { rt::cur->alloc_faults = on; }
uint64_t heap_peak() { return rt::handed; }
}

using namespace rt;
extern "C" {
void *malloc(size_t n) { void *p = alloc(n, 16); if (!p) errno = ENOMEM; return p; }
void free(void *p) { release(p); }
void *calloc(size_t a, size_t b) {
  if (b && a > (size_t)-1 / b) { errno = ENOMEM; return NULL; }
  void *p = malloc(a * b); if (p) memset(p, 0, a * b); return p;
}
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (!n) { free(p); return NULL; }
  size_t o = usable(p);
  void *q = malloc(n); if (!q) return NULL;
  memcpy(q, p, o < n ? o : n); free(p); return q;
}
void *memalign(size_t al, size_t n) { return alloc(n, al); }
void *aligned_alloc(size_t al, size_t n) { return alloc(n, al); }
int posix_memalign(void **out, size_t al, size_t n) { void *p = alloc(n, al); if (!p) return ENOMEM; *out = p; return 0; }
size_t malloc_usable_size(void *p) { return usable(p); }
void *valloc(size_t n) { return alloc(n, 4096); }
void *pvalloc(size_t n) { return alloc(n, 4096); }
void cfree(void *p) { free(p); }
}
