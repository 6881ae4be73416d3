// Deterministic simulator: public interface used by the workloads.
// One seed -> three choice streams (W workload, F faults, S schedule) -> one exactly repeatable run.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>
#include <functional>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t s64;
typedef int32_t s32;

//---------------------------------------------------------------- choices
// A recorded stream of 32-bit draws. The value 0 always means "simplest": no operation,
// no fault, no preemption. In replay mode the recorded values are used and 0 is returned
// once they run out, which is what makes shrinking by deletion and zeroing possible.
struct Stream {
    u64 s[2] = {0, 0};
    u32* rec = nullptr; // recorded (or replayed) values
    u32 cap = 0, pos = 0, len = 0;
    bool replay = false;
    u32 next();
    u32 below(u32 n) { // 0..n-1, 0 is simplest
        return n <= 1 ? 0 : (u32)(((u64) next() * n) >> 32);
    }
    s64 range(s64 lo, s64 hi) { return lo + below((u32)(hi - lo + 1)); }
    bool chance(double p) { // a draw of 0 is always false
        if (p <= 0)
            return false;
        u32 v = next();
        return v >= (u32)((1.0 - p) * 4294967295.0) && v != 0;
    }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below((u32) v.size())]; }
};
extern Stream W, F, S;

//---------------------------------------------------------------- reporting
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Ends the run early without a verdict against the code (workload made no sense); counted.
[[noreturn]] void discard(const char* why);
// Probe: counts "this condition was reached" for the evidence file.
void hit(const char* probe, u64 n = 1);
// Event log. Always hashed; formatted only while replaying with a trace.
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool tracing;
void hashMix(u64 v);
#define SIM_CHECK(cond, cls, ...)                                                                  \
    do {                                                                                           \
        if (!(cond))                                                                               \
            ::sim::violate(cls, __VA_ARGS__);                                                      \
    } while (0)

//---------------------------------------------------------------- scheduling
struct Quiet { // code inside is harness bookkeeping: atomic, no race detection, real malloc
    Quiet();
    ~Quiet();
};
u32 spawn(const char* name, std::function<void()> fn); // new fiber in the current process
void joinFiber(u32 id);
bool fiberDone(u32 id);
void yield();                 // explicit scheduling point
void sleepNs(u64 ns);         // simulated
u64 nowNs();                  // simulated monotonic clock
u64 stepCount();              // scheduler steps so far
u32 curFiber();
u32 numContextSwitches();
// Waits until pred() holds; pred is evaluated at scheduling points. Harness use only.
bool waitUntil(std::function<bool()> pred, u64 timeoutNs = ~0ull);

struct SchedCfg {
    double syncSwitch = 0.25;   // probability of a preemption at a synchronisation point
    double accessSwitch = 0;    // probability of a preemption at a plain memory access
    bool priority = false;      // PCT-like: run the highest priority fiber, demote at change points
    bool raceDetect = false;    // report data races in the code under test
    u64 maxSteps = 400000;      // scheduling points before the run counts as not making progress
    bool allowDeadlock = false;
};
extern SchedCfg sched;
void randomSchedule(bool withAccess); // draws a scheduling strategy from S

//---------------------------------------------------------------- faults
enum Fault {
    FT_EINTR,        // interrupted call
    FT_SHORT_READ,   // fewer bytes than asked for (legal)
    FT_SHORT_WRITE,  // fewer bytes than asked for (legal)
    FT_READ_ERR,     // EIO / ECONNRESET on read
    FT_WRITE_ERR,    // EIO / ENOSPC / EPIPE on write
    FT_DISK_FULL,    // the disk fills up (sticky for a while)
    FT_OPEN_ERR,     // open/opendir fails
    FT_STAT_ERR,     // stat fails
    FT_META_ERR,     // mkdir/rename/unlink/rmdir/chdir fails
    FT_READDIR_ERR,  // readdir fails part-way
    FT_DTYPE_UNKNOWN,// readdir reports no type
    FT_FSYNC_ERR,
    FT_FD_LIMIT,     // EMFILE/ENFILE
    FT_NOMEM,        // ENOMEM/EAGAIN from a system call
    FT_ACCEPT_ERR,   // ECONNABORTED etc. from accept
    FT_CONN_ERR,     // connect refused/timeout/unreachable
    FT_RESET,        // connection reset by peer
    FT_NET_DELAY,    // segment delayed
    FT_SPURIOUS,     // spurious condition variable wake-up
    FT_CLOCK_JUMP,   // wall clock jumps
    FT_STALL,        // a thread is stalled for a long time
    FT_CRASH,        // process crash
    FT_POWER,        // power loss
    FT_DNS_ERR,
    FT_CLOSE_ERR,
    FT_THREAD_ERR,   // pthread_create fails
    FT_MMAP_ERR,
    FT_COUNT
};
extern double faultRate[FT_COUNT]; // all zero by default
extern const char* const faultName[FT_COUNT];
bool fault(Fault f); // draws from F if the rate is nonzero; counts it when it fires
void faultFired(Fault f); // count a fault injected by other means
void noFaults();
u32 faultCount(Fault f); // fired so far in this run
void exemptFiber(); // no faults in the current fiber: it plays a part outside the system
u32 errFaults();         // faults fired so far in this fiber that a caller may see as an error

//---------------------------------------------------------------- heap accounting
u64 heapLive();     // live blocks allocated by the code under test
u32 numFibersEver();
void heapCheckRange(const void* p, size_t n, bool write); // as an instrumented access would

//---------------------------------------------------------------- registry
struct Prop {
    const char* id;
    void (*fn)();
    const char* what;
};
void registerProp(const Prop& p);
struct Reg {
    Reg(const char* id, void (*fn)(), const char* what) { registerProp(Prop{id, fn, what}); }
};
#define SIM_PROP(id, fn, what) static ::sim::Reg reg_##fn{id, fn, what}

std::string escape(const void* p, size_t n, size_t maxLen = 48);
inline std::string escape(const std::string& s, size_t maxLen = 48) { return escape(s.data(), s.size(), maxLen); }
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

} // namespace sim
