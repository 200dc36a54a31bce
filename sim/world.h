// The simulated world of one scenario: disk, devices, clock, randomness, heap policy, fault plan,
// recorded history.
#ifndef SIM_WORLD_H_
#define SIM_WORLD_H_
#include "./shm.h"

namespace sim {

enum Op {
  OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_MKDIR, OP_STAT, OP_RENAME, OP_UNLINK, OP_OPENDIR,
  OP_OUT, OP_ERR, OP_ALLOC, OP_CLOCK, OP_RAND, OP_PID, OP_SYSTEM, OP_SYNC, OP_MODEL_LOAD,
  OP_MODEL_RUN, OP_SEEK, OP_STEP, OP_N
};
extern const char* const OP_NAMES[OP_N];

enum Act { ACT_ERR, ACT_SHORT, ACT_CRASH, ACT_EOF, ACT_FLIP, ACT_DELAY, ACT_JUMP, ACT_TORN, ACT_SWAP, ACT_N };
extern const char* const ACT_NAMES[ACT_N];

struct Fault {
  int op;
  Str path;        // "*" or the normalised path
  int64_t nth;     // 1-based index among the matching calls of one process lifetime (0: any)
  int act;
  int64_t arg;
  int sticky;      // also on every later matching call
  int64_t seen;
  int64_t fired;
};

struct Node {
  int dir = 0;
  int denyWrite = 0;
  int denyRead = 0;
  int changed = 0;   // created or written by the simulated program
  int link = 0;      // a symbolic link to `data`
  int64_t mtime = 0;
  int64_t ino = 0;
  Str data;
};

struct Fd {
  Str path;
  int64_t pos = 0;
  int flags = 0;
  int open = 0;
  Node* node = nullptr;
};

// What belongs to one simulated process.
struct Proc {
  Vec<Fd> fds;
  Str out, err;                      // what reached the devices
  int64_t steps = 0;
  int exceeded = 0, crashed = 0;
  int64_t opCount[32] = {0};
  int alive = 0;
  Vec<const char*> stepStack;        // the steps of the program that are running
  Vec<int64_t> stepAt;
  const char* lastStep = "";
};

// One execution of a step of the program, in monotonic simulated time.
struct StepLog {
  const char* name = "";
  int proc = 0;
  int64_t begin = 0, end = 0;
  int64_t alloc0 = 0, alloc1 = 0;    // the allocations before it began and until it ended
};
// One delay that was injected, and the step that it hit.
struct DelayLog {
  const char* step = "";
  const char* last = "";
  int proc = 0;
  int op = 0;
  Str path;
  int64_t ns = 0;
};
static const int MAXPROC = 8;

struct World {
  // Inputs.
  uint64_t seed = 1;
  int heapPolicy = 0;      // 0 bump+LIFO, 1 FIFO, 2 random reuse, 3 never reuse, 4 downwards
  int heapGap = 0;         // max extra 16-byte units between blocks
  int heapFill = 0;        // index of the fill pattern
  int64_t heapShift = 0;   // pages
  int64_t heapLimit = 0;   // bytes; 0: default
  int64_t clockBase = 1700000000LL * 1000000000LL;
  int64_t clockStep = 1000;
  int64_t ioStep = 20000;
  int pid = 4242;
  Str cwd = "/work";
  int links = 0;                     // whether there are symbolic links
  int64_t cap = -1;        // remaining bytes on the simulated disk, -1: unlimited
  int64_t outCap = -1;     // bytes stdout's device accepts, -1: unlimited
  int outErr = 28;         // errno once outCap is reached
  int outSig = 0;          // deliver SIGPIPE as well
  int64_t maxSteps = 200000;
  int allocFaults = 0, clockFaults = 0;
  int calm = 0;            // no fault fires any more (an observer is looking)
  int randMode = 0;
  // Model party.
  int modelMode = 0;
  int64_t modelArg = 0;
  uint64_t modelSalt = 0;
  int modelAsk = 0;        // record the questions and answers
  // State.
  uint64_t rng[4];
  int64_t now = 0;
  int64_t startNow = 0;
  int64_t ino = 1;
  uint64_t randState = 1;
  uint64_t hash = 1469598103934665603ULL;
  int par = 0;                       // the processes run side by side
  int turn = -1;                     // whose turn it is (par)
  int64_t switches = 0;
  uint64_t schedHash = 1469598103934665603ULL;
  Vec<int> sched;                    // forced decisions (replay of a minimised schedule); then rng
  int64_t schedAt = 0;
  int preempt = 30;                  // percent
  Vec<unsigned char> schedLog;
  Proc procs[MAXPROC];
  int64_t opTotal[OP_N] = {0};
  Vec<Fault> faults;
  Map<Str, Node> fs;
  Vec<Str> log;
  int64_t logBytes = 0;
  int logOn = 0;
  Vec<Str> notes;                    // oracle messages from inside the process
  Vec<std::pair<Str, Str>> dumps;
  Vec<int64_t> clockReads;           // recorded clock values handed out (bounded)
  Vec<StepLog> stepLog;
  Vec<DelayLog> delayLog;
  Vec<Str> shell;                    // commands handed to a shell
  int64_t heapAllocs = 0, heapBytes = 0, heapPeak = 0, heapReused = 0;
  uint64_t heapHash = 0;
  int64_t clockMono = 0;
};

extern World* W;
extern int gProc;         // which process this is
#define PR (W->procs[gProc])
extern int gSimDepth;     // >0: inside the simulator
extern bool gActive;      // inside a simulated process

struct Enter { Enter() { gSimDepth++; } ~Enter() { gSimDepth--; } };

uint64_t rnd();
uint64_t rndBelow(uint64_t n);
void note(const std::string& s);
void event(int op, const Str& path, const char* what, int64_t a, int64_t b);
// Looks up the fault plan for one call; returns the fault that fires or nullptr.
Fault* decide(int op, const Str& path);
void stepClock(int64_t ns);
void delayed(int op, const Str& path, int64_t ns);   // an injected delay
bool stepSeen(const char* name);   // this process has completed that step
void waitTurn();          // blocks until the scheduler picks this process
void passTurn(int from);  // picks the next process
void noteHash(const void* p, size_t n);

Str normPath(const char* p);
bool isVirtual(const Str& norm);
Node* findNode(const Str& norm);
void vfsReset();
void heapStart();   // opens the simulated heap (plain build only)
void stdioStart();
int64_t heapNow();

[[noreturn]] void simCrash(const char* why);

}  // namespace sim
#endif
