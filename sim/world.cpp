// Core of the simulator: arena, randomness, event history, fault plan.
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include "./world.h"

namespace sim {

const char* const OP_NAMES[OP_N] = {
  "open", "read", "write", "close", "mkdir", "stat", "rename", "unlink", "opendir",
  "out", "err", "alloc", "clock", "rand", "pid", "system", "sync", "modelload", "modelrun", "seek", "step"
};
const char* const ACT_NAMES[ACT_N] = {
  "err", "short", "crash", "eof", "flip", "delay", "jump", "torn", "swap"
};

World* W = nullptr;
int gProc = 0;
int gSimDepth = 0;
bool gActive = false;

// --- arena ---------------------------------------------------------------------------------------

static char* gBase = nullptr;
struct ArenaHead { size_t used; size_t size; void* fl[64]; };

void shmInit(size_t size) {
  void* want = reinterpret_cast<void*>(0x300000000000ULL);
  gBase = static_cast<char*>(mmap(want, size, PROT_READ | PROT_WRITE,
    MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
  if (gBase == MAP_FAILED) { perror("mmap arena"); _exit(90); }
  ArenaHead* h = reinterpret_cast<ArenaHead*>(gBase);
  h->used = 4096;
  h->size = size;
}

static int cls(size_t n) {
  int c = 4;
  while ((size_t(1) << c) < n) c++;
  return c;
}

void* shmAlloc(size_t n) {
  ArenaHead* h = reinterpret_cast<ArenaHead*>(gBase);
  int c = cls(n);
  if (h->fl[c]) {
    void* p = h->fl[c];
    h->fl[c] = *static_cast<void**>(p);
    return p;
  }
  size_t sz = size_t(1) << c;
  if (h->used + sz > h->size) {
    static const char m[] = "simulator arena exhausted\n";
    (void) !::syscall(1, 2, m, sizeof(m) - 1);
    _exit(91);
  }
  void* p = gBase + h->used;
  h->used += sz;
  return p;
}

void shmFree(void* p, size_t n) {
  ArenaHead* h = reinterpret_cast<ArenaHead*>(gBase);
  int c = cls(n);
  *static_cast<void**>(p) = h->fl[c];
  h->fl[c] = p;
}

// --- randomness ----------------------------------------------------------------------------------

static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

uint64_t rnd() {  // xoshiro256**
  uint64_t* s = W->rng;
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return r;
}

uint64_t rndBelow(uint64_t n) { return n ? rnd() % n : 0; }

// --- history -------------------------------------------------------------------------------------

void noteHash(const void* p, size_t n) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  uint64_t h = W->hash;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
  W->hash = h;
}

void note(const std::string& s) {
  Enter e;
  if (W->notes.size() < 200) W->notes.push_back(Str(s.c_str(), s.size()));
  noteHash(s.data(), s.size());
}

void stepClock(int64_t ns) {
  if (ns < 0) ns = 0;
  W->now += ns;
  W->clockMono += ns;
}

// --- scheduler: processes side by side, one at a time, switched at I/O events ----------------------

static void futexWait(int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); }
static void futexWake(int* a) { syscall(SYS_futex, a, FUTEX_WAKE, 64, nullptr, nullptr, 0); }

void waitTurn() {
  while (true) {
    int t = __atomic_load_n(&W->turn, __ATOMIC_SEQ_CST);
    if (t == gProc) return;
    futexWait(&W->turn, t);
  }
}

static int nextAlive(int from) {
  int alive[MAXPROC], n = 0;
  for (int i = 0; i < MAXPROC; i++) if (W->procs[i].alive) alive[n++] = i;
  if (!n) return -1;
  int pick;
  if (W->schedAt < static_cast<int64_t>(W->sched.size())) {
    pick = W->sched[W->schedAt++] % n;
  } else {
    bool stay = false;
    for (int i = 0; i < n; i++) if (alive[i] == from) stay = true;
    if (stay && rndBelow(100) >= static_cast<uint64_t>(W->preempt)) return from;
    pick = rndBelow(n);
  }
  return alive[pick];
}

void passTurn(int from) {
  int n = nextAlive(from);
  W->schedLog.push_back(n < 0 ? 255 : n);
  W->schedHash = (W->schedHash ^ (n + 1)) * 1099511628211ULL;
  if (n != from) W->switches++;
  __atomic_store_n(&W->turn, n, __ATOMIC_SEQ_CST);
  futexWake(&W->turn);
}

static void yieldPoint() {
  passTurn(gProc);
  waitTurn();
}

void event(int op, const Str& path, const char* what, int64_t a, int64_t b) {
  if (op != OP_CLOCK) PR.steps++;
  PR.opCount[op]++;
  W->opTotal[op]++;
  stepClock(op == OP_CLOCK ? W->clockStep : (op == OP_ALLOC || op == OP_RAND) ? 0 : W->ioStep);
  if (op != OP_CLOCK) noteHash(path.data(), path.size());
  uint64_t h = W->hash;
  h = (h ^ static_cast<uint64_t>(op) ^ (static_cast<uint64_t>(b) << 8)) * 1099511628211ULL;
  h = (h ^ (h >> 32) ^ static_cast<uint64_t>(a)) * 0x9E3779B97F4A7C15ULL;
  W->hash = h ^ (h >> 29);
  if (W->logOn && (op != OP_CLOCK || W->logOn > 1 || what[0] != 'n') && W->logBytes < 400000) {
    char buf[512];
    int n = snprintf(buf, sizeof(buf), "%d t=%lld.%06lld %s %.200s %s %lld %lld", gProc,
      static_cast<long long>(W->now / 1000000000), static_cast<long long>(W->now / 1000 % 1000000),
      OP_NAMES[op], path.c_str(), what, static_cast<long long>(a), static_cast<long long>(b));
    W->log.push_back(Str(buf, n));
    W->logBytes += n;
  }
  if (PR.steps > W->maxSteps) {
    PR.exceeded = 1;
    _exit(97);
  }
  if (W->par && op <= OP_ERR) yieldPoint();
}

void delayed(int op, const Str& path, int64_t ns) {
  DelayLog d;
  d.step = PR.stepStack.empty() ? "" : PR.stepStack.front();
  d.last = PR.lastStep;
  d.proc = gProc;
  d.op = op;
  d.path = path;
  d.ns = ns;
  W->delayLog.push_back(d);
  stepClock(ns);
}

bool stepSeen(const char* name) {
  for (const auto& s : W->stepLog) if (s.proc == gProc && !strcmp(s.name, name) && s.end >= 0) return true;
  return false;
}

// Someone else replaces each file X by X.swap: by a rename, or in place.
static void swapFiles(bool inPlace) {
  for (auto& e : W->fs) {
    if (e.first.size() < 6 || e.first.compare(e.first.size() - 5, 5, ".swap") != 0) continue;
    auto it = W->fs.find(e.first.substr(0, e.first.size() - 5));
    if (it == W->fs.end()) continue;
    Node& n = it->second;
    if (!inPlace) {
      Node* o = nullptr;   // open descriptors keep the old file
      for (auto& pr : W->procs) {
        for (auto& g : pr.fds) {
          if (!g.open || g.node != &n) continue;
          if (!o) o = new (shmAlloc(sizeof(Node))) Node(n);
          g.node = o;
        }
      }
      n.ino = ++W->ino;
    }
    n.data = e.second.data;
    n.mtime = W->now;
  }
}

Fault* decide(int op, const Str& path) {
  Fault* hit = nullptr;
  if (W->calm) return nullptr;
  for (auto& f : W->faults) {
    if (f.op != op) continue;
    if (f.path != "*" && f.path != path) continue;
    f.seen++;
    if (hit) continue;
    if ((f.act == ACT_CRASH || f.act == ACT_TORN) && f.fired) continue;   // a process dies once
    if (f.nth == 0 || f.seen == f.nth || (f.sticky && f.seen > f.nth)) {
      f.fired++;
      hit = &f;
    }
  }
  if (hit) {
    event(op, path, ACT_NAMES[hit->act], hit->arg, -1);
    if (hit->act == ACT_CRASH) simCrash("crash");
    if (hit->act == ACT_DELAY) delayed(op, path, hit->arg);
    if (hit->act == ACT_JUMP && op != OP_CLOCK) W->now += hit->arg;
    if (hit->act == ACT_SWAP) swapFiles(hit->arg == 1);
  }
  return hit;
}

void simCrash(const char*) {
  PR.crashed = 1;
  _exit(98);
}

}  // namespace sim
