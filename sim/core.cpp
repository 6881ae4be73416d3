// Scheduler, choice streams, virtual time, happens-before clocks, reporting.
#include "core.h"
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <queue>
#include <unistd.h>
#include <sys/mman.h>
#include <signal.h>

namespace sim {

Stream W, F, S;
Fiber* cur = nullptr;
std::vector<Fiber*> fibers;
bool simOn = false;
bool inForkChild = false;
u64 simNow = 0;
SchedCfg sched;
bool tracing = false;
Result* result = nullptr;
u32 *recW, *recF, *recS;
char* traceBuf = nullptr;
s64 accessCountdown = 0;
u64 accessCount = 0;
static std::map<std::string, u64> counters;
static u64 gHash = 1469598103934665603ull, gSchedHash = 1469598103934665603ull;
static u64 gSteps = 0, gSwitches = 0, gFaults = 0;
static s64 syncCountdown = 0;
static bool inSched = false;

//------------------------------------------------------------ choices
static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
u32 Stream::next() {
    if (inForkChild)
        return 0;
    if (replay)
        return pos < len ? rec[pos++] : (pos++, 0);
    u64 s0 = s[0], s1 = s[1];
    u64 r = s0 + s1;
    s1 ^= s0;
    s[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
    s[1] = rotl(s1, 37);
    u32 v = (u32)(r >> 32);
    if (pos < cap) {
        rec[pos++] = v;
        len = pos;
        return v;
    }
    return 0; // a run that long only sees simplest choices from here on
}

double faultRate[FT_COUNT];
const char* const faultName[FT_COUNT] = {
    "eintr",       "short_read",    "short_write", "read_error", "write_error", "disk_full",  "open_error",
    "stat_error",  "meta_error",    "readdir_error", "dtype_unknown", "fsync_error", "fd_limit", "enomem",
    "accept_error", "connect_error", "conn_reset",  "net_delay",  "spurious_wakeup", "clock_jump", "thread_stall",
    "process_crash", "power_loss",  "dns_error",   "close_error", "thread_create_error", "mmap_error"};
static u64 faultCounts[FT_COUNT];
void faultFired(Fault f) {
    faultCounts[f]++;
    gFaults++;
    if (cur && f != FT_EINTR && f != FT_SHORT_READ && f != FT_SHORT_WRITE && f != FT_DTYPE_UNKNOWN && f != FT_NET_DELAY && f != FT_SPURIOUS && f != FT_STALL && f != FT_CLOCK_JUMP)
        cur->errFaults++;
    if (tracing)
        log("fault: %s", faultName[f]);
    else
        hashMix(0xfa00 + f);
}
bool fault(Fault f) {
    if (faultRate[f] <= 0 || inForkChild || (cur && cur->exempt))
        return false;
    if (!F.chance(faultRate[f]))
        return false;
    faultFired(f);
    return true;
}
u32 faultCount(Fault f) { return (u32) faultCounts[f]; }
u32 errFaults() { return cur ? cur->errFaults : 0; }
void exemptFiber() { if (cur) cur->exempt = true; }
void noFaults() { memset(faultRate, 0, sizeof(faultRate)); }

//------------------------------------------------------------ reporting
void hashMix(u64 v) {
    gHash ^= v;
    gHash *= 1099511628211ull;
    gHash ^= gHash >> 29;
}
void hit(const char* probe, u64 n) {
    KernelScope ks;
    counters[probe] += n;
}
static void traceWrite(const char* b, u32 n) {
    if (!traceBuf || result->traceLen + n + 1 >= MaxTrace)
        return;
    memcpy(traceBuf + result->traceLen, b, n);
    result->traceLen += n;
}
void log(const char* f, ...) {
    KernelScope ks;
    char b[1024];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof(b), f, ap);
    va_end(ap);
    if (n >= (int) sizeof(b))
        n = sizeof(b) - 1;
    u64 h = 14695981039346656037ull;
    for (int i = 0; i < n; i++)
        h = (h ^ (unsigned char) b[i]) * 1099511628211ull;
    hashMix(h);
    if (tracing) {
        char p[96];
        int m = snprintf(p, sizeof(p), "[%10llu ns #%llu %s] ", (unsigned long long) simNow,
                         (unsigned long long) gSteps, cur ? cur->name.c_str() : "-");
        traceWrite(p, m);
        traceWrite(b, n);
        traceWrite("\n", 1);
    }
}
void finishResult(u32 status) {
    Result* r = result;
    r->hash = gHash;
    r->schedHash = gSchedHash;
    r->steps = gSteps;
    r->simNs = simNow;
    r->switches = gSwitches;
    r->accesses = accessCount;
    r->nFaults = gFaults;
    r->nW = W.replay ? W.len : W.pos;
    r->nF = F.replay ? F.len : F.pos;
    r->nS = S.replay ? S.len : S.pos;
    u32 o = 0;
    for (u32 i = 0; i < FT_COUNT; i++)
        if (faultCounts[i] && o + 100 < sizeof(r->counters))
            o += snprintf(r->counters + o, sizeof(r->counters) - o, "fault.%s=%llu\n", faultName[i],
                          (unsigned long long) faultCounts[i]);
    for (auto& kv : counters)
        if (o + kv.first.size() + 40 < sizeof(r->counters))
            o += snprintf(r->counters + o, sizeof(r->counters) - o, "%s=%llu\n", kv.first.c_str(),
                          (unsigned long long) kv.second);
    r->countersLen = o;
    r->status = status;
}
[[noreturn]] void endRun() {
    finishResult(1);
    _exit(0);
}
void capturePcs(void* pc, void* bp) {
    u32 n = 0;
    if (pc)
        result->pcs[n++] = (u64) pc;
    u64* b = (u64*) bp;
    while (n < 24 && b && inArena(b) && ((u64) b & 7) == 0) {
        u64 ret = b[1];
        if (!ret)
            break;
        result->pcs[n++] = ret;
        u64* nb = (u64*) b[0];
        if (nb <= b)
            break;
        b = nb;
    }
    result->nPcs = n;
}
static void violateV(void* pc, void* bp, const char* cls, const char* f, va_list ap) {
    if (cur)
        cur->inKernel++;
    if (result->status == 2)
        _exit(0);
    snprintf(result->cls, sizeof(result->cls), "%s", cls);
    vsnprintf(result->msg, sizeof(result->msg), f, ap);
    capturePcs(pc, bp);
    log("VIOLATION %s: %s", cls, result->msg);
    finishResult(2);
    _exit(0);
}
void violate(const char* cls, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    violateV(__builtin_return_address(0), __builtin_frame_address(0), cls, f, ap);
    __builtin_unreachable();
}
void violateAt(void* pc, void* bp, const char* cls, const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    violateV(pc, bp, cls, f, ap);
    __builtin_unreachable();
}
void discard(const char* why) {
    if (cur)
        cur->inKernel++;
    snprintf(result->cls, sizeof(result->cls), "%s", why);
    finishResult(3);
    _exit(0);
}
std::string escape(const void* p, size_t n, size_t maxLen) {
    std::string r = "\"";
    const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n && i < maxLen; i++) {
        char b[8];
        if (c[i] == '\n')
            r += "\\n";
        else if (c[i] == '\r')
            r += "\\r";
        else if (c[i] == '"' || c[i] == '\\')
            (r += '\\') += (char) c[i];
        else if (c[i] < 32 || c[i] >= 127) {
            snprintf(b, sizeof(b), "\\x%02x", c[i]);
            r += b;
        } else
            r += (char) c[i];
    }
    r += "\"";
    if (n > maxLen)
        r += fmt("...(%zu bytes)", n);
    return r;
}
std::string fmt(const char* f, ...) {
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof(b), f, ap);
    va_end(ap);
    return b;
}
static std::vector<Prop>& props() {
    static std::vector<Prop> p;
    return p;
}
void registerProp(const Prop& p) { props().push_back(p); }
const std::vector<Prop>& allProps() { return props(); }

Quiet::Quiet() {
    if (cur)
        cur->quiet++;
}
Quiet::~Quiet() {
    if (cur)
        cur->quiet--;
}

//------------------------------------------------------------ happens-before
void hbRelease(VClock& v) {
    v.join(cur->vc);
    cur->vc.c[cur->id]++;
}
void hbAcquire(const VClock& v) { cur->vc.join(v); }

//------------------------------------------------------------ events
struct Event {
    u64 at, seq;
    std::function<void()> fn;
};
struct EvCmp {
    bool operator()(const Event* a, const Event* b) const {
        return a->at != b->at ? a->at > b->at : a->seq > b->seq;
    }
};
static std::priority_queue<Event*, std::vector<Event*>, EvCmp> events;
static u64 evSeq = 0;
void after(u64 ns, std::function<void()> fn) {
    KernelScope ks;
    events.push(new Event{simNow + ns, ++evSeq, std::move(fn)});
}
static void runDue() {
    while (!events.empty() && events.top()->at <= simNow) {
        Event* e = events.top();
        events.pop();
        e->fn();
        delete e;
    }
}
u64 nowNs() { return simNow; }
u64 stepCount() { return gSteps; }
u32 curFiber() { return cur ? cur->id : 0; }
u32 numContextSwitches() { return (u32) gSwitches; }

//------------------------------------------------------------ fibers
extern "C" void sim_switch(void** saveSp, void* newSp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch, .-sim_switch
.globl sim_entry
.type sim_entry,@function
sim_entry:
    xorl %ebp, %ebp
    andq $-16, %rsp
    call sim_fiber_main
    ud2
.size sim_entry, .-sim_entry
)");
extern "C" void sim_entry();
extern "C" void sim_fiber_main() {
    // arrives with inKernel==1 from the creator's point of view
    cur->inKernel = 0;
    cur->fn();
    exitFiber();
}

static s64 drawGap(double p) {
    if (p <= 0)
        return (s64) 1 << 50;
    u32 v = S.next();
    if (v == 0)
        return (s64) 1 << 50;
    double u = (v + 0.5) / 4294967296.0;
    double g = 1 + std::floor(std::log(u) / std::log1p(-p));
    return g > 1e15 ? (s64) 1 << 50 : (s64) g;
}
static const size_t StackSize = 256 * 1024;
u32 fiberCount = 0;
u32 numFibersEver() {
    return fiberCount;
}
Fiber* newFiber(const char* name, std::function<void()> fn, Proc* proc) {
    KernelScope ks;
    if (fibers.size() >= MaxFibers)
        discard("too many fibers");
    Fiber* f = new Fiber;
    f->id = (u32) fibers.size();
    fiberCount = f->id + 1;
    f->name = name;
    f->fn = std::move(fn);
    f->proc = proc;
    f->stackSize = StackSize;
    f->stackBase = stackAlloc(StackSize);
    f->inKernel = 1;
    u64* top = (u64*) (f->stackBase + f->stackSize - 64);
    *--top = (u64) &sim_entry;
    for (int i = 0; i < 6; i++)
        *--top = 0;
    f->sp = top;
    f->vc.c[f->id] = 1;
    if (cur) {
        f->vc.join(cur->vc);
        cur->vc.c[cur->id]++;
    }
    if (sched.priority)
        f->prio = 1000 + S.below(1000);
    fibers.push_back(f);
    return f;
}

[[noreturn]] static void deadlock() {
    std::string m = "all threads are blocked for good:";
    for (Fiber* f : fibers)
        if (f->state == Fiber::Blocked)
            m += fmt(" [%s in %s]", f->name.c_str(), f->blockedIn);
    if (sched.allowDeadlock) {
        hit("deadlock_allowed");
        endRun();
    }
    void* bp = nullptr;
    violateAt(nullptr, bp, "deadlock", "%s", m.c_str());
}

static std::vector<Fiber*> readyList() {
    std::vector<Fiber*> r;
    for (Fiber* f : fibers)
        if (f->state == Fiber::Ready)
            r.push_back(f);
        else if (f->state == Fiber::Blocked && f->pred && f->pred())
            r.push_back(f);
    return r;
}
static void makeReady(Fiber* f) {
    f->state = Fiber::Ready;
    f->pred = nullptr;
}
static void switchTo(Fiber* f) {
    makeReady(f);
    f->runSteps = 0;
    if (f == cur)
        return;
    gSwitches++;
    gSchedHash = (gSchedHash ^ (f->id + 1 + (gSteps << 8))) * 1099511628211ull;
    gSchedHash ^= gSchedHash >> 31;
    hashMix(0x5c0000 + f->id);
    Fiber* old = cur;
    cur = f;
    sim_switch(&old->sp, f->sp);
}
static Fiber* pickFrom(std::vector<Fiber*>& r) {
    if (sched.priority) {
        Fiber* best = nullptr;
        for (Fiber* f : r)
            if (!best || f->prio > best->prio)
                best = f;
        return best;
    }
    // rotate so that index 0 is the next fiber in id order after the current one
    u32 k = 0;
    while (k < r.size() && r[k]->id <= cur->id)
        k++;
    std::rotate(r.begin(), r.begin() + (k % r.size()), r.end());
    return r[S.below((u32) r.size())];
}
// The current fiber cannot continue.
static void schedule() {
    for (;;) {
        runDue();
        std::vector<Fiber*> r = readyList();
        if (r.size()) {
            switchTo(pickFrom(r));
            return;
        }
        if (events.empty())
            deadlock();
        if (events.top()->at > simNow)
            simNow = events.top()->at;
        if (++gSteps > sched.maxSteps)
            violateAt(nullptr, nullptr, "no-progress", "no progress after %llu scheduling steps", (unsigned long long) gSteps);
    }
}
static void preempt() {
    std::vector<Fiber*> r = readyList();
    std::vector<Fiber*> o;
    for (Fiber* f : r)
        if (f != cur)
            o.push_back(f);
    if (o.empty())
        return;
    if (sched.priority) {
        u32 lo = cur->prio;
        for (Fiber* f : fibers)
            if (f->state != Fiber::Done && f->prio < lo)
                lo = f->prio;
        cur->prio = lo ? lo - 1 : 0;
    }
    switchTo(pickFrom(o));
}
[[noreturn]] static void noProgress(void* bp) {
    violateAt(nullptr, bp, "no-progress", "no progress: %llu scheduling steps, %llu memory accesses", (unsigned long long) gSteps,
              (unsigned long long) accessCount);
}
void syncPoint() {
    if (!simOn || inForkChild || !cur || cur->quiet || inSched)
        return;
    KernelScope ks;
    gSteps++;
    simNow += 150;
    if (gSteps > sched.maxSteps)
        noProgress(__builtin_frame_address(0));
    if (!events.empty() && events.top()->at <= simNow)
        runDue();
    if (faultRate[FT_STALL] > 0 && fault(FT_STALL)) {
        u64 ns = 1000000ull << S.below(13);
        sleepNs(ns);
        return;
    }
    cur->runSteps++;
    if (--syncCountdown <= 0) {
        preempt();
        syncCountdown = drawGap(sched.syncSwitch);
    } else if (cur->runSteps > 3000) { // fairness: nothing spins for ever while others can run
        cur->runSteps = 0;
        simNow += 20000;
        preempt();
    }
}
void accessPoint() {
    if (!simOn || inForkChild || !cur || cur->quiet || cur->inKernel)
        return;
    KernelScope ks;
    if (accessCount > 60000000)
        noProgress(__builtin_frame_address(0));
    gSteps++;
    preempt();
    accessCountdown = drawGap(sched.accessSwitch);
}
void yield() {
    KernelScope ks;
    gSteps++;
    simNow += 150;
    if (gSteps > sched.maxSteps)
        noProgress(__builtin_frame_address(0));
    runDue();
    std::vector<Fiber*> r = readyList();
    if (sched.priority && r.size() > 1) {
        preempt();
        return;
    }
    switchTo(pickFrom(r));
}
bool waitOn(WaitQ& q, const char* what, u64 deadline) {
    KernelScope ks;
    if (inForkChild)
        violateAt(nullptr, __builtin_frame_address(0), "fork-child-blocks",
                  "the child blocks for ever between fork and exec in %s", what);
    Fiber* f = cur;
    f->state = Fiber::Blocked;
    f->blockedIn = what;
    f->timedOut = false;
    f->waitingOn = &q;
    q.q.push_back(f->id);
    u64 seq = ++f->waitSeq;
    if (deadline != ~0ull) {
        WaitQ* qp = &q;
        after(deadline > simNow ? deadline - simNow : 0, [f, seq, qp] {
            if (f->state == Fiber::Blocked && f->waitSeq == seq) {
                for (size_t i = 0; i < qp->q.size(); i++)
                    if (qp->q[i] == f->id) {
                        qp->q.erase(qp->q.begin() + i);
                        break;
                    }
                f->timedOut = true;
                f->waitingOn = nullptr;
                f->state = Fiber::Ready;
            }
        });
    }
    schedule();
    f->waitingOn = nullptr;
    return !f->timedOut;
}
static void wakeIdx(WaitQ& q, size_t i) {
    Fiber* f = fibers[q.q[i]];
    q.q.erase(q.q.begin() + i);
    if (f->state == Fiber::Blocked) {
        f->waitSeq++;
        f->waitingOn = nullptr;
        f->state = Fiber::Ready;
    }
}
void wakeAll(WaitQ& q) {
    while (q.q.size())
        wakeIdx(q, 0);
}
bool wakeOneRandom(WaitQ& q) {
    if (q.q.empty())
        return false;
    wakeIdx(q, S.below((u32) q.q.size()));
    return true;
}
void sleepNs(u64 ns) {
    KernelScope ks;
    static WaitQ never;
    waitOn(never, "sleep", simNow + ns);
}
bool waitUntil(std::function<bool()> pred, u64 timeoutNs) {
    KernelScope ks;
    if (pred())
        return true;
    Fiber* f = cur;
    f->state = Fiber::Blocked;
    f->blockedIn = "waitUntil";
    f->timedOut = false;
    std::function<bool()> p2 = pred;
    f->pred = [p2] { return p2(); };
    u64 seq = ++f->waitSeq;
    if (timeoutNs != ~0ull)
        after(timeoutNs, [f, seq] {
            if (f->state == Fiber::Blocked && f->waitSeq == seq) {
                f->timedOut = true;
                f->pred = nullptr;
                f->state = Fiber::Ready;
            }
        });
    schedule();
    f->waitSeq++;
    return !f->timedOut;
}
[[noreturn]] void exitFiber() {
    Fiber* f = cur;
    // destructors of thread-local objects run as code of this thread
    while (f->atexits.size()) {
        auto a = f->atexits.back();
        {
            KernelScope ks;
            f->atexits.pop_back();
        }
        a.first(a.second);
    }
    kernelFiberGone(f);
    f->inKernel++;
    f->state = Fiber::Done;
    wakeAll(f->exitQ);
    schedule();
    __builtin_unreachable();
}
void killFiber(Fiber* f) {
    if (f->state == Fiber::Done)
        return;
    KernelScope ks;
    if (f->waitingOn) {
        auto& v = f->waitingOn->q;
        for (size_t i = 0; i < v.size(); i++)
            if (v[i] == f->id) {
                v.erase(v.begin() + i);
                break;
            }
        f->waitingOn = nullptr;
    }
    f->pred = nullptr;
    f->waitSeq++;
    f->state = Fiber::Done;
    wakeAll(f->exitQ);
    if (f == cur) {
        schedule();
        __builtin_unreachable();
    }
}
u32 spawn(const char* name, std::function<void()> fn) {
    KernelScope ks;
    Fiber* f = newFiber(name, std::move(fn), cur->proc);
    return f->id;
}
bool fiberDone(u32 id) { return fibers[id]->state == Fiber::Done; }
void joinFiber(u32 id) {
    KernelScope ks;
    Fiber* f = fibers[id];
    while (f->state != Fiber::Done)
        waitOn(f->exitQ, "join");
    cur->vc.join(f->vc);
}
void randomSchedule(bool withAccess) {
    KernelScope ks;
    u32 k = S.below(4);
    static const double rates[] = {0.05, 0.15, 0.35, 0.6};
    sched.priority = false;
    if (k == 3) {
        sched.priority = true;
        sched.syncSwitch = 0.01 + 0.04 * S.below(3);
        for (Fiber* f : fibers)
            f->prio = 1000 + S.below(1000);
    } else
        sched.syncSwitch = rates[S.below(4)];
    sched.accessSwitch = 0;
    if (withAccess) {
        static const double ar[] = {0, 0.0005, 0.003, 0.015, 0.06};
        sched.accessSwitch = ar[S.below(5)];
    }
    syncCountdown = drawGap(sched.syncSwitch);
    accessCountdown = drawGap(sched.accessSwitch);
}

static void* mainSp;
void runMain(std::function<void()> fn, Proc* proc) {
    Fiber* f = newFiber("main", std::move(fn), proc);
    syncCountdown = drawGap(sched.syncSwitch);
    accessCountdown = drawGap(sched.accessSwitch);
    cur = f;
    simOn = true;
    sim_switch(&mainSp, f->sp);
}
} // namespace sim
