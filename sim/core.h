// Internal interface between the parts of the simulator.
#pragma once
#include "sim.h"
#include <map>
#include <unordered_map>
#include <deque>

namespace sim {

struct Proc;
static const u32 MaxFibers = 96;
extern u32 fiberCount; // so far, also the ended ones

struct VClock {
    u32 c[MaxFibers];
    VClock() { clear(); }
    void clear() { __builtin_memset(c, 0, sizeof(c)); }
    void join(const VClock& o) {
        for (u32 i = 0; i < fiberCount; i++)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

struct WaitQ {
    std::vector<u32> q;
};

struct Fiber {
    u32 id = 0;
    std::string name;
    void* sp = nullptr;
    char* stackBase = nullptr;
    size_t stackSize = 0;
    enum State { Ready, Blocked, Done } state = Ready;
    std::function<void()> fn;
    std::function<bool()> pred; // harness wait
    Proc* proc = nullptr;
    int err = 0;
    WaitQ* waitingOn = nullptr;
    bool timedOut = false;
    u64 waitSeq = 0; // identifies the current wait (for timeouts)
    u32 prio = 0;
    VClock vc, acqFence, relFence;
    std::map<u64, void*> tls;
    std::map<void*, void*> emutls;
    std::vector<std::pair<void (*)(void*), void*>> atexits;
    u32 quiet = 0;    // harness bookkeeping depth
    u32 inKernel = 0; // inside a simulated system call
    const char* blockedIn = "";
    void* retval = nullptr;
    bool detached = false, joined = false, isPthread = false;
    WaitQ exitQ;
    u32 errFaults = 0;
    bool exempt = false; // no faults are injected here
    u32 runSteps = 0; // scheduling points since it was switched in
};

extern Fiber* cur;
extern std::vector<Fiber*> fibers;
extern bool simOn;       // inside a run
extern bool inForkChild; // really forked child executing the code between fork and exec
extern u64 simNow;

Fiber* newFiber(const char* name, std::function<void()> fn, Proc* proc);
void killFiber(Fiber* f); // never scheduled again; if it is the current one, does not return
// Blocks the current fiber until woken; returns false on timeout.
bool waitOn(WaitQ& q, const char* what, u64 deadline = ~0ull);
void wakeAll(WaitQ& q);
bool wakeOneRandom(WaitQ& q); // S decides which
void after(u64 ns, std::function<void()> fn); // event at now+ns, runs in scheduler context
void syncPoint();                             // possible preemption (synchronisation granularity)
void accessPoint();                           // slow path of the memory access hook
[[noreturn]] void endRun();
[[noreturn]] void exitFiber();
void runMain(std::function<void()> fn, Proc* proc); // returns when the run is over in this process

extern s64 accessCountdown;
extern u64 accessCount;

// happens-before
void hbRelease(VClock& v);
void hbAcquire(const VClock& v);
inline void hbBoth(VClock& v) {
    hbAcquire(v);
    hbRelease(v);
}

struct KernelScope { // inside the simulator: no access hooks, real malloc
    Fiber* f;
    KernelScope() : f(cur) {
        if (f)
            f->inKernel++;
    }
    ~KernelScope() {
        if (f)
            f->inKernel--;
    }
};
inline bool inSUT() {
    return simOn && cur && cur->quiet == 0 && cur->inKernel == 0;
}
inline bool sutActive() { // code under test or workload, not nested in the kernel
    return simOn && cur && cur->inKernel == 0;
}

// Shared result area, written by the run, read by the runner.
struct Result {
    u32 status; // 0 running/crashed, 1 ok, 2 violation, 3 discard
    char cls[256];
    char msg[6000];
    u64 hash, schedHash, steps, simNs, switches, accesses, nFaults;
    u32 nW, nF, nS;
    u32 traceLen;
    u32 nPcs;
    u64 pcs[24];
    u32 countersLen;
    char counters[24576];
};
static const u32 MaxChoices = 1u << 18;
static const u32 MaxTrace = 4u << 20;
extern Result* result;
extern u32 *recW, *recF, *recS;
extern char* traceBuf;
void finishResult(u32 status);
void capturePcs(void* pc, void* bp);
// Used by signal handlers and the tsan hooks, where pc/bp belong to the code under test.
[[noreturn]] void violateAt(void* pc, void* bp, const char* cls, const char* fmt, ...);

void heapInit();
bool inArena(const void* p);
u64 mapLo(); // area for the simulated mmap
u64 mapSize();
void* arenaAlloc(size_t n, size_t align = 16);
void arenaFree(void* p, void* pc);
size_t arenaSize(void* p);
char* stackAlloc(size_t n);
void raceAccess(u64 a, u32 n, bool write, bool atomic, void* pc);
void raceForgetRange(void* p, size_t n);

void kernelInit();
void kernelFiberGone(Fiber* f);
void onMainEnd();
} // namespace sim
