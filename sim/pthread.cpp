// Simulated threads and synchronisation primitives.
#include "kern.h"
#include <cstring>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <memory>
#include <fstream>
#include <sys/mman.h>
#include <unistd.h>


using namespace sim;
#define RA __builtin_return_address(0)
#define FA __builtin_frame_address(0)

namespace sim {
struct SyncObj {
    VClock vc;
    WaitQ q, q2;
};
static SyncObj& obj(const void* p) {
    static std::unordered_map<const void*, SyncObj*> m;
    SyncObj*& o = m[p];
    if (!o)
        o = new SyncObj;
    return *o;
}
struct MutexRep { // laid over pthread_mutex_t
    int locked;
    unsigned count;
    int owner; // fiber id + 1
    int pid;   // of the process that locked it
    int kind; // glibc's __kind
};
static_assert(sizeof(MutexRep) <= sizeof(pthread_mutex_t), "");
// Simulated processes share the code's static variables. What a killed process held is not locked.
static void dropIfDead(MutexRep* m) {
    if (!m->locked || m->pid == cur->proc->pid)
        return;
    for (Proc* p : allProcs)
        if (p->pid == m->pid && k::procAlive(p))
            return;
    m->locked = 0;
    m->owner = 0;
}
static bool lockMutex(MutexRep* m, const void* key, bool block, u64 deadline, void* pc, void* bp) {
    int me = (int) cur->id + 1;
    dropIfDead(m);
    int kind = m->kind & 3;
    if (m->locked && m->owner == me) {
        if (kind == PTHREAD_MUTEX_RECURSIVE) {
            m->count++;
            return true;
        }
        if (kind == PTHREAD_MUTEX_ERRORCHECK)
            return false;
        if (block)
            violateAt(pc, bp, "self-deadlock", "%s locks a non-recursive mutex it already holds", cur->name.c_str());
        return false;
    }
    while (m->locked) {
        if (!block)
            return false;
        if (!waitOn(obj(key).q, "mutex lock", deadline))
            return false;
    }
    m->locked = 1;
    m->owner = me;
    m->pid = cur->proc->pid;
    m->count = 1;
    hbAcquire(obj(key).vc);
    return true;
}
static int unlockMutex(MutexRep* m, const void* key, void* pc, void* bp) {
    int me = (int) cur->id + 1;
    if (!m->locked || m->owner != me) {
        if ((m->kind & 3) != 0 && (m->kind & 3) != PTHREAD_MUTEX_RECURSIVE)
            return EPERM;
        violateAt(pc, bp, "mutex-misuse", "%s unlocks a mutex it does not hold", cur->name.c_str());
    }
    if (--m->count)
        return 0;
    m->locked = 0;
    m->owner = 0;
    hbRelease(obj(key).vc);
    wakeOneRandom(obj(key).q);
    return 0;
}
// A synchronisation object must have been initialised before anybody uses it.
static void objAccess(const void* p, size_t n, void* pc) {
    heapCheckRange(p, n, true);
    if (simOn && sched.raceDetect && inSUT())
        raceAccess((u64) p, 4, false, true, pc);
}
static bool badTs(const struct timespec* ts) { return ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000; }
static bool passive() { return !simOn || !cur; }
static bool uncontrolled() { return cur->quiet || inForkChild; }
static u64 absNs(int clk, const struct timespec* ts) {
    u64 t = ts->tv_sec * 1000000000ull + ts->tv_nsec;
    u64 now = clk == CLOCK_REALTIME ? k::wallNs() : simNow + 1000000000ull;
    return t > now ? simNow + (t - now) : simNow;
}
} // namespace sim

extern "C" {
void sim_atomic_release_on(void*);
int sim_clock_gettime(int, struct timespec*);
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    int kind = 0;
    if (a)
        pthread_mutexattr_gettype(a, &kind);
    memset(m, 0, sizeof(*m));
    ((MutexRep*) m)->kind = kind;
    return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!passive() && inSUT() && ((MutexRep*) m)->locked)
        violateAt(RA, FA, "mutex-misuse", "a locked mutex is destroyed");
    return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t* m) {
    if (passive())
        return 0;
    objAccess(m, sizeof(*m), RA);
    syncPoint();
    KernelScope ks;
    return lockMutex((MutexRep*) m, m, true, ~0ull, RA, FA) ? 0 : EDEADLK;
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (passive())
        return 0;
    objAccess(m, sizeof(*m), RA);
    syncPoint();
    KernelScope ks;
    return lockMutex((MutexRep*) m, m, false, ~0ull, RA, FA) ? 0 : EBUSY;
}
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    syncPoint();
    KernelScope ks;
    return lockMutex((MutexRep*) m, m, true, absNs(CLOCK_REALTIME, ts), RA, FA) ? 0 : ETIMEDOUT;
}
int sim_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (passive())
        return 0;
    objAccess(m, sizeof(*m), RA);
    int r;
    {
        KernelScope ks;
        r = unlockMutex((MutexRep*) m, m, RA, FA);
    }
    syncPoint();
    return r;
}
//------------------------------------------------------------ condition variables
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
    memset(c, 0, sizeof(*c));
    return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t* c) {
    KernelScope ks;
    if (simOn && cur && obj(c).q.q.size())
        violateAt(RA, FA, "cond-misuse", "a condition variable is destroyed while a thread waits on it");
    return 0;
}
static int condWait(void* c, pthread_mutex_t* m, u64 deadline, void* pc, void* bp) {
    objAccess(c, 8, pc);
    syncPoint();
    KernelScope ks;
    SyncObj& o = obj(c);
    MutexRep* r = (MutexRep*) m;
    if (!r->locked || r->owner != (int) cur->id + 1)
        violateAt(pc, bp, "mutex-misuse", "%s waits on a condition variable without holding the mutex", cur->name.c_str());
    unsigned depth = r->count;
    r->count = 1;
    unlockMutex(r, m, pc, bp);
    bool ok = true;
    if (fault(FT_SPURIOUS)) {
        // woken for no reason, at once or a little later
        u64 ns = F.below(2) ? 0 : F.below(1000000);
        waitOn(o.q, "condition variable", std::min(simNow + ns, deadline));
    } else
        ok = waitOn(o.q, "condition variable", deadline);
    lockMutex(r, m, true, ~0ull, pc, bp);
    r->count = depth;
    return ok ? 0 : ETIMEDOUT;
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, ~0ull, RA, FA); }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (badTs(ts))
        return EINVAL;
    return condWait(c, m, absNs(CLOCK_REALTIME, ts), RA, FA);
}
int sim_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, int clk, const struct timespec* ts) {
    if (badTs(ts))
        return EINVAL;
    return condWait(c, m, absNs(clk, ts), RA, FA);
}
int sim_pthread_cond_signal(pthread_cond_t* c) {
    if (passive())
        return 0;
    heapCheckRange(c, 8, true);
    syncPoint();
    KernelScope ks;
    wakeOneRandom(obj(c).q);
    return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t* c) {
    if (passive())
        return 0;
    heapCheckRange(c, 8, true);
    syncPoint();
    KernelScope ks;
    wakeAll(obj(c).q);
    return 0;
}
// std::condition_variable (out of line in libstdc++)
void sim_cv_ctor(void* c) { memset(c, 0, sizeof(pthread_cond_t)); }
void sim_cv_dtor(void* c) { sim_pthread_cond_destroy((pthread_cond_t*) c); }
void sim_cv_wait(void* c, void* ul) { // unique_lock<mutex>: {mutex*, bool}
    condWait(c, *(pthread_mutex_t**) ul, ~0ull, RA, FA);
}
void sim_cv_notify_one(void* c) { sim_pthread_cond_signal((pthread_cond_t*) c); }
void sim_cv_notify_all(void* c) { sim_pthread_cond_broadcast((pthread_cond_t*) c); }

// std::chrono (out of line in libstdc++)
s64 sim_steady_now() {
    struct timespec ts;
    sim_clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
s64 sim_system_now() {
    struct timespec ts;
    sim_clock_gettime(CLOCK_REALTIME, &ts);
    return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}

//------------------------------------------------------------ rwlock
struct RWRep {
    int readers;
    int writer; // fiber id + 1
    int waitingWriters;
};
int sim_pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {
    memset(l, 0, sizeof(*l));
    return 0;
}
int sim_pthread_rwlock_destroy(pthread_rwlock_t* l) {
    RWRep* r = (RWRep*) l;
    if (simOn && inSUT() && (r->readers || r->writer))
        violateAt(RA, FA, "mutex-misuse", "a held rwlock is destroyed");
    return 0;
}
static int rwLock(pthread_rwlock_t* l, bool wr, bool block, void* pc, void* bp) {
    if (passive())
        return 0;
    objAccess(l, sizeof(*l), RA);
    syncPoint();
    KernelScope ks;
    RWRep* r = (RWRep*) l;
    if (r->writer == (int) cur->id + 1)
        return EDEADLK;
    while (r->writer || (wr && r->readers)) {
        if (!block)
            return EBUSY;
        waitOn(obj(l).q, wr ? "rwlock write lock" : "rwlock read lock");
    }
    if (wr)
        r->writer = (int) cur->id + 1;
    else
        r->readers++;
    hbAcquire(obj(l).vc);
    if (wr)
        hbAcquire(obj((char*) l + 1).vc); // readers' releases
    return 0;
}
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rwLock(l, false, true, RA, FA); }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rwLock(l, true, true, RA, FA); }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rwLock(l, false, false, RA, FA); }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rwLock(l, true, false, RA, FA); }
int sim_pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (passive())
        return 0;
    {
        objAccess(l, sizeof(*l), RA);
        KernelScope ks;
        RWRep* r = (RWRep*) l;
        if (r->writer) {
            if (r->writer != (int) cur->id + 1)
                violateAt(RA, FA, "mutex-misuse", "%s releases a write lock held by another thread", cur->name.c_str());
            r->writer = 0;
            hbRelease(obj(l).vc);
        } else {
            if (!r->readers)
                violateAt(RA, FA, "mutex-misuse", "%s releases a read lock nobody holds", cur->name.c_str());
            r->readers--;
            hbRelease(obj((char*) l + 1).vc);
        }
        wakeAll(obj(l).q);
    }
    syncPoint();
    return 0;
}
//------------------------------------------------------------ semaphores
int sim_sem_init(sem_t* s, int, unsigned v) {
    memset(s, 0, sizeof(*s));
    *(unsigned*) s = v;
    return 0;
}
int sim_sem_destroy(sem_t* s) {
    KernelScope ks;
    if (simOn && cur && obj(s).q.q.size())
        violateAt(RA, FA, "cond-misuse", "a semaphore is destroyed while a thread waits on it");
    return 0;
}
static int semWait(sem_t* s, bool block, u64 deadline) {
    objAccess(s, 4, RA);
    syncPoint();
    KernelScope ks;
    unsigned* v = (unsigned*) s;
    if (!*v && block && fault(FT_EINTR)) {
        cur->err = EINTR;
        return -1;
    }
    while (!*v) {
        if (!block) {
            cur->err = EAGAIN;
            return -1;
        }
        if (!waitOn(obj(s).q, "semaphore wait", deadline)) {
            cur->err = ETIMEDOUT;
            return -1;
        }
    }
    --*v;
    hbAcquire(obj(s).vc);
    return 0;
}
int sim_sem_wait(sem_t* s) { return semWait(s, true, ~0ull); }
int sim_sem_trywait(sem_t* s) { return semWait(s, false, 0); }
int sim_sem_timedwait(sem_t* s, const struct timespec* ts) {
    if (badTs(ts)) {
        cur->err = EINVAL;
        return -1;
    }
    return semWait(s, true, absNs(CLOCK_REALTIME, ts));
}
int sim_sem_post(sem_t* s) {
    objAccess(s, 4, RA);
    {
        KernelScope ks;
        ++*(unsigned*) s;
        hbRelease(obj(s).vc);
        wakeOneRandom(obj(s).q);
    }
    syncPoint();
    return 0;
}
int sim_sem_getvalue(sem_t* s, int* v) {
    *v = *(int*) s;
    return 0;
}
//------------------------------------------------------------ threads
static int createThread(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg, bool mayFail) {
    syncPoint();
    int detached = 0;
    if (a)
        pthread_attr_getdetachstate(a, &detached);
    KernelScope ks;
    if (mayFail && fault(FT_THREAD_ERR)) {
        log("pthread_create fails");
        return EAGAIN;
    }
    Fiber* f = newFiber(fmt("thread%zu", fibers.size()).c_str(), [fn, arg] { cur->retval = fn(arg); }, cur->proc);
    f->isPthread = true;
    f->detached = detached == PTHREAD_CREATE_DETACHED;
    *out = (pthread_t) (0x7000000 + f->id);
    log("pthread_create: %s", f->name.c_str());
    return 0;
}
int sim_pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    return createThread(out, a, fn, arg, true);
}
static Fiber* byHandle(pthread_t t) {
    u64 id = (u64) t - 0x7000000;
    return id < fibers.size() ? fibers[id] : nullptr;
}
int sim_pthread_join(pthread_t t, void** ret) {
    syncPoint();
    KernelScope ks;
    Fiber* f = byHandle(t);
    if (!f)
        violateAt(RA, FA, "thread-misuse", "join of something that is not a thread");
    if (f->joined || f->detached)
        violateAt(RA, FA, "thread-misuse", "%s is joined after having been %s", f->name.c_str(), f->joined ? "joined" : "detached");
    if (f == cur)
        return EDEADLK;
    while (f->state != Fiber::Done)
        waitOn(f->exitQ, "pthread_join");
    f->joined = true;
    cur->vc.join(f->vc);
    if (ret)
        *ret = f->retval;
    return 0;
}
int sim_pthread_detach(pthread_t t) {
    syncPoint();
    KernelScope ks;
    Fiber* f = byHandle(t);
    if (!f || f->joined || f->detached)
        violateAt(RA, FA, "thread-misuse", "detach of a thread that is not joinable");
    f->detached = true;
    return 0;
}
// std::thread (out of line in libstdc++)
struct StdThreadState { // same layout as std::thread::_State
    virtual ~StdThreadState() {}
    virtual void _M_run() = 0;
};
static void* stdThreadMain(void* p) {
    StdThreadState* st = (StdThreadState*) p;
    st->_M_run();
    delete st;
    return nullptr;
}
void sim_std_thread_start(pthread_t* self, StdThreadState** st, void (*)()) {
    StdThreadState* p = *st; // a unique_ptr
    *st = nullptr;
    createThread(self, nullptr, stdThreadMain, p, false); // failure would be an exception
}
void sim_std_thread_join(pthread_t* self) {
    if (!*self)
        violateAt(RA, FA, "thread-misuse", "join of a std::thread that is not joinable");
    sim_pthread_join(*self, nullptr);
    *self = 0;
}
void sim_std_thread_detach(pthread_t* self) {
    if (!*self)
        violateAt(RA, FA, "thread-misuse", "detach of a std::thread that is not joinable");
    sim_pthread_detach(*self);
    *self = 0;
}
unsigned sim_std_thread_hw() { return 4; }
// std::ifstream's constructor: the only file the code reads that way is /proc/cpuinfo
void sim_ifstream_ctor(std::ifstream* self, const char* path, std::ios_base::openmode mode) {
    if (strcmp(path, "/proc/cpuinfo"))
        unsupported("std::ifstream");
    std::string text;
    for (int i = 0; i < 4; i++)
        text += "processor\t: " + std::to_string(i) + "\nphysical id\t: 0\ncore id\t\t: " + std::to_string(i / 2) + "\n\n";
    int fd = memfd_create("cpuinfo", 0);
    if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t) text.size())
        unsupported("memfd_create failed");
    char name[64];
    snprintf(name, sizeof(name), "/proc/self/fd/%d", fd);
    new (self) std::ifstream(name, mode);
    close(fd);
}
pthread_t sim_pthread_self() { return (pthread_t) (0x7000000 + (cur ? cur->id : 0)); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
[[noreturn]] void sim_pthread_exit(void* r) {
    cur->retval = r;
    exitFiber();
}
// Keys keep their numbers in a table so that key_delete and destructors can be checked.
struct Key {
    bool live;
    void (*dtor)(void*);
};
static std::vector<Key>* keys;
int sim_pthread_key_create(pthread_key_t* k, void (*dtor)(void*)) {
    KernelScope ks;
    if (!keys)
        keys = new std::vector<Key>;
    for (size_t i = 0; i < keys->size(); i++)
        if (!(*keys)[i].live) {
            (*keys)[i] = Key{true, dtor};
            *k = (pthread_key_t) i;
            // a new key is null in every thread
            for (Fiber* f : fibers)
                f->tls.erase(i);
            return 0;
        }
    keys->push_back(Key{true, dtor});
    *k = (pthread_key_t) keys->size() - 1;
    return 0;
}
int sim_pthread_key_delete(pthread_key_t k) {
    KernelScope ks;
    if (!keys || k >= keys->size() || !(*keys)[k].live)
        return EINVAL;
    (*keys)[k].live = false;
    return 0;
}
static std::map<u64, void*> outsideTls;
void* sim_pthread_getspecific(pthread_key_t k) {
    KernelScope ks;
    if (!keys || k >= keys->size() || !(*keys)[k].live) {
        if (simOn)
            violateAt(RA, FA, "tls-misuse", "thread-local access through a key that does not exist");
        return nullptr;
    }
    auto& m = cur ? cur->tls : outsideTls;
    auto it = m.find(k);
    return it == m.end() ? nullptr : it->second;
}
int sim_pthread_setspecific(pthread_key_t k, const void* v) {
    KernelScope ks;
    if (!keys || k >= keys->size() || !(*keys)[k].live)
        return EINVAL;
    (cur ? cur->tls : outsideTls)[k] = (void*) v;
    return 0;
}
int sim_pthread_once(pthread_once_t* o, void (*fn)()) {
    syncPoint();
    volatile int* s = (volatile int*) o;
    for (;;) {
        {
            KernelScope ks;
            if (*s == 2) {
                hbAcquire(obj(o).vc);
                return 0;
            }
            if (*s == 1) {
                waitOn(obj(o).q, "pthread_once");
                continue;
            }
            *s = 1;
        }
        fn();
        KernelScope ks;
        *s = 2;
        hbRelease(obj(o).vc);
        wakeAll(obj(o).q);
        return 0;
    }
}
int sim_pthread_setaffinity_np(pthread_t, size_t, const void*) { return 0; }
int sim_pthread_setname_np(pthread_t, const char*) { return 0; }

// function-local statics
int sim___cxa_guard_acquire(char* g) {
    if (passive())
        return *g ? 0 : 1;
    syncPoint();
    KernelScope ks;
    for (;;) {
        if (g[0]) {
            hbAcquire(obj(g).vc);
            return 0;
        }
        if (!g[1]) {
            g[1] = 1;
            return 1;
        }
        waitOn(obj(g).q, "static initialisation");
    }
}
void sim___cxa_guard_release(char* g) {
    g[0] = 1;
    g[1] = 0;
    if (passive())
        return;
    KernelScope ks;
    hbRelease(obj(g).vc);
    // readers take the fast path through an acquire load of the guard byte
    sim_atomic_release_on(g);
    wakeAll(obj(g).q);
}
void sim___cxa_guard_abort(char* g) {
    g[1] = 0;
    KernelScope ks;
    wakeAll(obj(g).q);
}
} // extern "C"
