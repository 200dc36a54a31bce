// Clocks, randomness and process identity, as the scenario says.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>

#include <random>

#include "./world.h"

using namespace sim;  // NOLINT

static const Str WALL = "wall";
static const Str MONO = "mono";

static int64_t readClock(bool wall) {
  Enter e;
  const Str& n = wall ? WALL : MONO;
  Fault* f = W->clockFaults ? decide(OP_CLOCK, n) : nullptr;
  if (f && f->act == ACT_JUMP && wall) W->now += f->arg;
  event(OP_CLOCK, n, "ns", wall ? W->now : W->clockMono, 0);
  int64_t v = wall ? W->now : W->clockMono + 1000000000000LL;
  if (wall && W->clockReads.size() < 100000) W->clockReads.push_back(v);
  return v;
}

extern "C" {
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!gActive) return syscall(SYS_clock_gettime, c, ts);
  int64_t v = readClock(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI);
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(struct timeval* __restrict tv, void* __restrict) {
  if (!gActive) return syscall(SYS_gettimeofday, tv, nullptr);
  int64_t v = readClock(true);
  tv->tv_sec = v / 1000000000;
  tv->tv_usec = v / 1000 % 1000000;
  return 0;
}
time_t time(time_t* t) {
  int64_t v;
  if (gActive) {
    v = readClock(true) / 1000000000;
  } else {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    v = ts.tv_sec;
  }
  if (t) *t = v;
  return v;
}
clock_t clock() { return gActive ? W->clockMono / 1000 : 0; }
int nanosleep(const struct timespec* d, struct timespec*) {
  if (gActive) stepClock(d->tv_sec * 1000000000LL + d->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec* d, struct timespec*) {
  if (gActive) stepClock(d->tv_sec * 1000000000LL + d->tv_nsec);
  return 0;
}
int usleep(useconds_t u) { if (gActive) stepClock(u * 1000LL); return 0; }
unsigned sleep(unsigned s) { if (gActive) stepClock(s * 1000000000LL); return 0; }
pid_t getpid() {
  if (!gActive) return syscall(SYS_getpid);
  PR.opCount[OP_PID]++;
  return W->pid + gProc;
}
pid_t getppid() { return gActive ? 1 : syscall(SYS_getppid); }

static uint64_t nextRand() {
  PR.opCount[OP_RAND]++;
  W->opTotal[OP_RAND]++;
  uint64_t z = (W->randState += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
void srand(unsigned s) {
  if (gActive) W->randState = s ^ (W->seed * 0xD1342543DE82EF95ULL);
}
int rand() { return gActive ? nextRand() & 0x7fffffff : 4; }
int rand_r(unsigned* s) { *s = *s * 1103515245u + 12345u; return (*s >> 1) & 0x7fffffff; }
void srandom(unsigned s) { srand(s); }
long random() { return rand(); }
double drand48() { return gActive ? (nextRand() >> 11) * 0x1.0p-53 : 0.5; }
long lrand48() { return rand(); }
void srand48(long s) { srand(s); }
ssize_t getrandom(void* b, size_t n, unsigned) {
  unsigned char* c = static_cast<unsigned char*>(b);
  if (!gActive) return syscall(SYS_getrandom, b, n, 0);
  for (size_t i = 0; i < n; i++) c[i] = nextRand();
  return n;
}
int getentropy(void* b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
uint32_t arc4random() { return gActive ? nextRand() : 4; }
}

// libstdc++'s own source of entropy.
unsigned int std::random_device::_M_getval() { return gActive ? nextRand() : 4; }
