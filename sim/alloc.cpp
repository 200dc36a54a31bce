// The simulated heap (plain build): where a block lands, what it contains, when memory is reused
// and which request fails are the scenario's choice, not the C library's.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include "./world.h"

#ifndef SIM_NO_HEAP

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace sim {

static const uintptr_t HEAP = 0x100000000000ULL;
static const size_t HEAP_SIZE = 8ULL << 30;
static const size_t HALF = HEAP_SIZE / 2;
static bool gHeap = false;

struct Hdr { uint64_t size; uint64_t req; };   // 16 bytes before every block

static char* gUp = nullptr;      // grows upwards
static char* gDown = nullptr;    // grows downwards
static char* gEnd = nullptr;
static const int NCLS = 160;
struct FreeList { void** v; size_t n, cap; };
static FreeList gFree[NCLS];
static uint64_t gHeapRng = 88172645463325252ULL;
static size_t gLimit = 0;

static uint64_t hrnd() {
  gHeapRng ^= gHeapRng << 13; gHeapRng ^= gHeapRng >> 7; gHeapRng ^= gHeapRng << 17;
  return gHeapRng;
}

static const unsigned char FILLS[] = {0x00, 0xA5, 0xFF, 0x01, 0x7F, 0x3E};

static void fill(void* p, size_t n) {
  if (W->heapFill < 6) {
    memset(p, FILLS[W->heapFill], n);
  } else {
    uint64_t* q = static_cast<uint64_t*>(p);
    for (size_t i = 0; i + 8 <= n; i += 8) *q++ = hrnd() & 0x40ffffff40ffffffULL;
  }
}

// Size classes: 16-byte steps up to 1 KiB, then four per power of two.
static size_t roundSize(size_t n, int* c) {
  if (n < 16) n = 16;
  if (n <= 1024) { size_t r = (n + 15) & ~size_t(15); *c = r / 16; return r; }
  int k = 10;
  while ((size_t(1) << (k + 1)) < n) k++;
  size_t base = size_t(1) << k, step = base / 4;
  size_t q = (n - base + step - 1) / step;
  *c = 65 + (k - 10) * 4 + static_cast<int>(q) - 1;
  return base + q * step;
}

void heapStart() {
  void* want = reinterpret_cast<void*>(HEAP);
  void* p = mmap(want, HEAP_SIZE, PROT_READ | PROT_WRITE,
    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap heap"); _exit(92); }
  gHeapRng ^= W->seed * 0x9E3779B97F4A7C15ULL;
  for (int i = 0; i < 8; i++) hrnd();
  gUp = static_cast<char*>(p) + 4096 * (1 + W->heapShift % 4096);
  gEnd = static_cast<char*>(p) + HALF;
  gDown = static_cast<char*>(p) + HEAP_SIZE - 4096 * (1 + W->heapShift % 4096);
  gLimit = W->heapLimit ? W->heapLimit : size_t(1) << 30;
  gHeap = true;
}

int64_t heapNow() { return W ? W->heapBytes : 0; }

static inline bool ours(void* p) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  return a >= HEAP && a < HEAP + HEAP_SIZE;
}

static const Str* gStar = nullptr;

static void* heapAlloc(size_t n, bool zero) {
  Enter e;
  if (!gStar) gStar = new (shmAlloc(sizeof(Str))) Str("*");
  W->heapAllocs++;
  PR.opCount[OP_ALLOC]++;
  W->opTotal[OP_ALLOC]++;
  if (W->allocFaults && !W->calm) for (auto& f : W->faults) {
    if (f.op != OP_ALLOC) continue;
    f.seen++;
    if (f.seen == f.nth || f.nth == 0 || (f.sticky && f.seen > f.nth)) {
      f.fired++;
      if (f.act == ACT_DELAY) { delayed(OP_ALLOC, *gStar, f.arg); continue; }
      if (f.act == ACT_JUMP) { W->now += f.arg; continue; }
      event(OP_ALLOC, *gStar, "fail", n, 0);
      if (f.act == ACT_CRASH) simCrash("crash");
      errno = ENOMEM;
      return nullptr;
    }
  }
  if (n > gLimit || W->heapBytes + n > gLimit) { errno = ENOMEM; return nullptr; }
  int c = 0;
  size_t sz = roundSize(n, &c);
  FreeList& fl = gFree[c];
  char* p = nullptr;
  if (fl.n && W->heapPolicy != 3) {
    size_t i = fl.n - 1;
    if (W->heapPolicy == 1) i = 0;
    if (W->heapPolicy == 2) i = hrnd() % fl.n;
    p = static_cast<char*>(fl.v[i]);
    if (W->heapPolicy == 1) memmove(fl.v, fl.v + 1, (fl.n - 1) * sizeof(void*));
    else fl.v[i] = fl.v[fl.n - 1];
    fl.n--;
    W->heapReused++;
  } else {
    size_t gap = W->heapGap ? 16 * (hrnd() % (W->heapGap + 1)) : 0;
    bool down = W->heapPolicy == 4 || (W->heapPolicy == 2 && (hrnd() & 1));
    if (down) {
      gDown -= sz + sizeof(Hdr) + gap;
      if (gDown < gEnd) { errno = ENOMEM; return nullptr; }
      p = gDown + sizeof(Hdr);
    } else {
      p = gUp + gap + sizeof(Hdr);
      gUp = p + sz;
      if (gUp > gEnd) { errno = ENOMEM; return nullptr; }
    }
  }
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  h->size = (static_cast<uint64_t>(c) << 48) | sz;
  h->req = n;
  W->heapBytes += sz;
  if (W->heapBytes > W->heapPeak) W->heapPeak = W->heapBytes;
  W->heapHash = (W->heapHash ^ reinterpret_cast<uintptr_t>(p) ^ n) * 1099511628211ULL;
  if (zero) memset(p, 0, n);
  else fill(p, sz);
  return p;
}

static void heapFree(void* q) {
  Enter e;
  Hdr* h = static_cast<Hdr*>(q) - 1;
  int c = h->size >> 48;
  size_t sz = h->size & 0xffffffffffffULL;
  if (h->req == ~0ULL || c >= NCLS) {
    note("double free or bad free");
    static const char m[] = "simulated heap: double or bad free\n";
    ::write(2, m, sizeof(m) - 1);
    __builtin_trap();
  }
  h->req = ~0ULL;
  W->heapBytes -= sz;
  fill(q, sz < 4096 ? sz : 4096);
  FreeList& fl = gFree[c];
  if (fl.n == fl.cap) {
    size_t nc = fl.cap ? fl.cap * 2 : 64;
    fl.v = static_cast<void**>(__libc_realloc(fl.v, nc * sizeof(void*)));
    fl.cap = nc;
  }
  fl.v[fl.n++] = q;
}

static inline bool use() { return gHeap && gActive && gSimDepth == 0; }

}  // namespace sim

using namespace sim;  // NOLINT

extern "C" {
void* malloc(size_t n) { return use() ? heapAlloc(n, false) : __libc_malloc(n); }
void free(void* p) {
  if (!p) return;
  if (ours(p)) { heapFree(p); return; }
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return use() ? heapAlloc(n, true) : __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!ours(p)) {
    if (!use()) return __libc_realloc(p, n);
    void* q = malloc(n);   // a block of the pre-start heap; its usable size bounds the copy
    if (!q) return nullptr;
    extern size_t malloc_usable_size(void*);
    size_t old = reinterpret_cast<uint64_t*>(p)[-1] & ~7ULL;
    old = old > 16 ? old - 8 : 0;
    memcpy(q, p, old < n ? old : n);
    __libc_free(p);
    return q;
  }
  if (n == 0) { free(p); return nullptr; }
  size_t old = (static_cast<Hdr*>(p) - 1)->req;
  void* q = malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
void* reallocarray(void* p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return realloc(p, n);
}
void* memalign(size_t al, size_t n) {
  if (use() && al <= 16) return heapAlloc(n, false);
  return __libc_memalign(al, n);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
size_t malloc_usable_size(void* p) {
  if (!p) return 0;
  if (ours(p)) return (static_cast<Hdr*>(p) - 1)->req;
  return (reinterpret_cast<uint64_t*>(p)[-1] & ~7ULL) - 8;
}
}

#else
namespace sim {
void heapStart() {}
int64_t heapNow() { return 0; }
}
#endif
