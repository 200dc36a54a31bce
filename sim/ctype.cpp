// Character classes: the table that isupper() and its kin index without a check, placed so that an
// index beyond its 384 entries faults at once instead of reading what lies behind it.
#ifdef SIM_NO_HEAP
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>

#define EXPORT __attribute__((visibility("default")))

extern "C" char __executable_start, etext;

static const unsigned short* gTable;

static const unsigned short** realLoc() {
  static const unsigned short** (*real)(void);
  if (!real) real = (const unsigned short** (*)(void)) dlsym(RTLD_NEXT, "__ctype_b_loc");
  return real();
}

static void prepare() {
  if (gTable) return;
  // 4 MiB of nothing on both sides: more than any code point can reach.
  const size_t guard = 4 << 20, page = 4096;
  char* p = (char*) mmap(nullptr, 2 * guard + page, PROT_NONE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return;
  char* q = p + guard;
  mprotect(q, page, PROT_READ | PROT_WRITE);
  unsigned short* t = (unsigned short*) (q + page) - 384;
  memcpy(t, *realLoc() - 128, 384 * sizeof(*t));
  mprotect(q, page, PROT_READ);
  gTable = t + 128;
}

__attribute__((constructor)) static void init() { prepare(); }

static bool ours(void* from) {
  return (char*) from >= &__executable_start && (char*) from < &etext;
}

extern "C" EXPORT const unsigned short** __ctype_b_loc(void) {
  static thread_local const unsigned short* t;
  if (!gTable || !ours(__builtin_return_address(0))) return realLoc();
  t = gTable;
  return &t;
}

#define CLASS(name, bit) \
  extern "C" EXPORT int sim_##name(int c) __asm__(#name); \
  extern "C" EXPORT int sim_##name(int c) { \
    const unsigned short* t = gTable && ours(__builtin_return_address(0)) ? gTable : *realLoc(); \
    return t[c] & bit; \
  }
// The bits of <ctype.h> on a little-endian machine.
CLASS(isupper, (1 << 8))
CLASS(islower, (1 << 9))
CLASS(isalpha, (1 << 10))
CLASS(isdigit, (1 << 11))
CLASS(isxdigit, (1 << 12))
CLASS(isspace, (1 << 13))
CLASS(isprint, (1 << 14))
CLASS(isgraph, (1 << 15))
CLASS(isblank, (1 << 0))
CLASS(iscntrl, (1 << 1))
CLASS(ispunct, (1 << 2))
CLASS(isalnum, (1 << 3))
#endif
