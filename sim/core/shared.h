#pragma once
#include "sim.h"
#include <atomic>
// Lives in a MAP_SHARED mapping inherited by all workers and run children.
enum { FK_ALLOC, FK_OPEN, FK_READ, FK_EOF, FK_WRITE, FK_TORN, FK_CLOSE, FK_SEEK, FK_CLOCK, FK_RAND, FK_PREEMPT, FK_SHORTREAD, FK_TRUNC, FK_N };
extern const char *fkNames[FK_N];
struct Slot { // one per worker
    volatile int status;   // 0 idle/ok 1 violation recorded
    volatile u64 curSeed;
    volatile int phase;    // 0 between runs, 1 inside a run
    volatile u64 hash;
    char cls[128];
    char msg[6000];
    char label[512];
};
struct Shared {
    std::atomic<u64> fault[FK_N];
    std::atomic<u64> runs, ops, steps, doubleRuns, distinct, hashes, allocs, clockSimMs, faultedOps;
    std::atomic<u64> probe[512];
    char probeName[512][64];
    std::atomic<int> nProbes;
    std::atomic<int> stop;
    Slot slot[64];
    std::atomic<unsigned char> bloom[1 << 25];
};
extern Shared *SH;
extern Slot *SLOT;
inline void faultCount(int k, u64 n = 1) { SH->fault[k].fetch_add(n, std::memory_order_relaxed); }
