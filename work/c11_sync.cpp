// C11: mutexes, condition variables, semaphores, events and reader/writer locks keep their promises
// under every schedule, with spurious wake-ups and interrupted calls.
#include "common.h"
#include <memory>
#include <new>
#include <ply-runtime/thread/Mutex.h>
#include <ply-runtime/thread/ConditionVariable.h>
#include <ply-runtime/thread/Semaphore.h>
#include <ply-runtime/thread/ManualResetEvent.h>
#include <ply-runtime/thread/RWLock.h>
#include <ply-runtime/thread/Atomic.h>
#include <ply-runtime/thread/RaceDetector.h>
#include <ply-runtime/thread/impl/Mutex_POSIX.h>
#include <ply-runtime/thread/impl/ConditionVariable_POSIX.h>
#include <ply-runtime/thread/impl/Mutex_SpinLock.h>
#include <ply-runtime/thread/impl/Mutex_LazyInit.h>
using namespace wl;

namespace {
void pause() {
    switch (W.below(6)) {
        case 0:
            sim::yield();
            break;
        case 1:
            sim::sleepNs(W.below(5000));
            break;
        default:
            break;
    }
}

struct Fibers {
    std::vector<u32> ids;
    template <typename Fn> void add(const char* name, Fn&& fn) {
        ids.push_back(sim::spawn(name, std::forward<Fn>(fn)));
    }
    void join() {
        for (u32 i : ids)
            sim::joinFiber(i);
        ids.clear();
    }
};

//---------------------------------------------------------------- mutexes
template <typename M> struct CanTry {
    static const bool value = true;
};
template <> struct CanTry<Mutex_SpinLock> {
    static const bool value = false;
};
template <> struct CanTry<Mutex_LazyInit> {
    static const bool value = false;
};
template <typename M> struct Recursive {
    static const bool value = true;
};
template <> struct Recursive<Mutex_SpinLock> {
    static const bool value = false;
};
template <typename M, bool> struct Try {
    static bool tryLock(M& m) {
        return m.tryLock();
    }
};
template <typename M> struct Try<M, false> {
    static bool tryLock(M& m) {
        m.lock();
        return true;
    }
};

// Threads that are neither certainly inside nor certainly outside (in a call) count as inside.
struct Around {
    int inside = 0;
    u64 changes = 0;
};

// tryLock() gives up at once while another thread holds the lock.
template <typename M> void tryCase(M& m, const char* name) {
    bool held = false, tried = false;
    u32 f = sim::spawn("holder", [&] {
        LockGuard<M> g{m};
        {
            sim::Quiet q;
            held = true;
        }
        sim::waitUntil([&] { return tried; });
    });
    sim::waitUntil([&] { return held; });
    SIM_CHECK(!m.tryLock(), "trylock", "%s: tryLock() succeeded although another thread holds the lock", name);
    {
        sim::Quiet q;
        tried = true;
    }
    sim::joinFiber(f);
    SIM_CHECK(m.tryLock(), "trylock", "%s: tryLock() failed although nobody holds the lock", name);
    SIM_CHECK(m.tryLock(), "trylock", "%s: tryLock() failed although the caller holds the recursive lock", name);
    m.unlock();
    m.unlock();
    sim::hit("tryLock on a held lock");
}

template <typename M> void mutexCase(M& m, const char* name) {
    u32 n = 2 + W.below(3), rounds = 1 + W.below(6);
    int counter = 0; // unprotected: the lock has to do it
    int owner = -1;
    Around ar;
    auto enter = [&](int d) {
        sim::Quiet q;
        ar.inside += d;
        ar.changes++;
    };
    u32 expect = 0;
    Fibers fs;
    for (u32 t = 0; t < n; t++)
        fs.add("locker", [&, t] {
            for (u32 r = 0; r < rounds; r++) {
                pause();
                bool got = true;
                if (CanTry<M>::value && W.chance(0.3)) {
                    int inside;
                    u64 ch;
                    {
                        sim::Quiet q;
                        inside = ar.inside++;
                        ch = ++ar.changes;
                    }
                    u64 t0 = sim::nowNs();
                    got = Try<M, CanTry<M>::value>::tryLock(m);
                    {
                        sim::Quiet q;
                        if (!got && inside == 0 && ch == ar.changes)
                            sim::violate("trylock", "%s: tryLock() failed although nobody held the lock", name);
                        if (sim::nowNs() - t0 > 1000000000 && !sim::faultCount(sim::FT_STALL))
                            sim::violate("trylock", "%s: tryLock() waited", name);
                        if (!got)
                            ar.inside--, ar.changes++;
                    }
                } else {
                    enter(1);
                    m.lock();
                }
                if (!got)
                    continue;
                u32 depth = 0;
                {
                    sim::Quiet q;
                    if (owner != -1)
                        sim::violate("mutual-exclusion", "%s: thread %u got the lock while thread %d holds it", name, t, owner);
                    owner = (int) t;
                    expect++;
                }
                if (Recursive<M>::value && W.chance(0.3)) {
                    depth = 1 + W.below(2);
                    for (u32 i = 0; i < depth; i++)
                        m.lock();
                }
                counter++;
                pause();
                counter += 2;
                for (u32 i = 0; i < depth; i++) {
                    m.unlock();
                    pause();
                    counter += 3;
                    counter -= 3;
                }
                {
                    sim::Quiet q;
                    if (owner != (int) t)
                        sim::violate("mutual-exclusion", "%s: thread %d got in while thread %u holds the lock", name, owner, t);
                    owner = -1;
                }
                m.unlock();
                enter(-1);
            }
        });
    fs.join();
    SIM_CHECK(counter == (int) expect * 3, "mutual-exclusion", "%s: %d instead of %u increments", name, counter, expect * 3);
    sim::hit(name);
}

void mutexes() {
    switch (W.below(5)) {
        case 0:
        case 1: {
            Mutex m;
            if (W.below(5) == 4)
                tryCase(m, "Mutex");
            mutexCase(m, "Mutex");
            break;
        }
        case 2: {
            Mutex_POSIX m;
            if (W.below(5) == 4)
                tryCase(m, "Mutex_POSIX");
            mutexCase(m, "Mutex_POSIX");
            break;
        }
        case 3: {
            Mutex_SpinLock* m = new Mutex_SpinLock;
            m->initialize();
            mutexCase(*m, "Mutex_SpinLock");
            delete m;
            break;
        }
        default: {
            // as at global scope: zero-initialized, used again after its destruction
            void* mem = PLY_HEAP.alloc(sizeof(Mutex_LazyInit));
            memset(mem, 0, sizeof(Mutex_LazyInit));
            Mutex_LazyInit* m = (Mutex_LazyInit*) mem;
            u32 lives = 1 + W.below(2);
            for (u32 i = 0; i < lives; i++) {
                mutexCase(*m, "Mutex_LazyInit");
                m->~Mutex_LazyInit();
            }
            PLY_HEAP.free(mem);
        }
    }
}

//---------------------------------------------------------------- condition variables
template <typename M, typename CV> void queueCase(const char* name) {
    M m;
    CV notEmpty, notFull;
    std::vector<u32> q; // protected by m
    u32 cap = 1 + W.below(3), producers = 1 + W.below(2), consumers = 1 + W.below(2), items = 1 + W.below(6);
    u32 total = producers * items, taken = 0;
    bool broadcast = W.below(2), timed = W.below(3) == 0;
    std::vector<u32> out;
    Fibers fs;
    for (u32 p = 0; p < producers; p++)
        fs.add("producer", [&, p] {
            for (u32 i = 0; i < items; i++) {
                pause();
                LockGuard<M> g{m};
                while (q.size() >= cap) {
                    if (timed && W.chance(0.3))
                        notFull.timedWait(g, W.below(3));
                    else
                        notFull.wait(g);
                }
                q.push_back(p * 100 + i);
                if (broadcast)
                    notEmpty.wakeAll();
                else
                    notEmpty.wakeOne();
            }
        });
    for (u32 c = 0; c < consumers; c++)
        fs.add("consumer", [&] {
            for (;;) {
                pause();
                LockGuard<M> g{m};
                while (q.empty() && taken < total) {
                    if (timed && W.chance(0.3))
                        notEmpty.timedWait(g, W.below(3));
                    else
                        notEmpty.wait(g);
                }
                if (q.empty())
                    break;
                out.push_back(q.front());
                q.erase(q.begin());
                taken++;
                if (taken == total)
                    notEmpty.wakeAll();
                if (broadcast)
                    notFull.wakeAll();
                else
                    notFull.wakeOne();
            }
        });
    fs.join();
    SIM_CHECK(out.size() == total, "queue", "%s: %zu of %u items went through", name, out.size(), total);
    std::vector<u32> next(producers, 0);
    for (u32 v : out)
        SIM_CHECK(v % 100 == next[v / 100]++, "queue", "%s: items of one producer came out in the wrong order", name);
    sim::hit(name);
}

// Each of the waiters has its own turn: wakeAll must reach all of them.
template <typename M, typename CV> void turnsCase(const char* name) {
    M m;
    CV cv;
    u32 n = 2 + W.below(4), rounds = 1 + W.below(3), turn = 0;
    Fibers fs;
    for (u32 t = 0; t < n; t++)
        fs.add("turn", [&, t] {
            for (u32 r = 0; r < rounds; r++) {
                LockGuard<M> g{m};
                while (turn % n != t)
                    cv.wait(g);
                turn++;
                cv.wakeAll();
            }
        });
    fs.join();
    SIM_CHECK(turn == n * rounds, "turns", "%s: %u turns instead of %u", name, turn, n * rounds);
    sim::hit(name);
}

// A timed wait ends by itself, with the lock held, not much later than asked for.
template <typename M, typename CV> void timedCase(const char* name) {
    M m;
    CV cv;
    u32 n = 1 + W.below(3);
    int held = 0;
    bool wake = W.below(2);
    bool done = false;
    Fibers fs;
    for (u32 t = 0; t < n; t++)
        fs.add("timed", [&] {
            u32 k = 1 + W.below(3);
            for (u32 i = 0; i < k; i++) {
                static const u32 waits[] = {0, 1, 5, 999, 1000, 1001, 1500, 3999, 10000};
                u32 ms = waits[W.below(9)];
                LockGuard<M> g{m};
                held++;
                SIM_CHECK(held == 1, "mutual-exclusion", "%s: two threads hold the lock", name);
                held--;
                u64 t0 = sim::nowNs();
                cv.timedWait(g, ms);
                held++;
                SIM_CHECK(held == 1, "mutual-exclusion", "%s: timedWait() returned without the lock", name);
                held--;
                u64 took = sim::nowNs() - t0;
                SIM_CHECK(took <= ms * 1000000ull + 50000000ull || sim::faultCount(sim::FT_STALL), "late", "%s: timedWait(%u) took %llu ms", name, ms, (unsigned long long) took / 1000000);
                if (!wake && !sim::faultCount(sim::FT_SPURIOUS))
                    SIM_CHECK(took >= ms * 1000000ull, "early", "%s: timedWait(%u) returned after %llu us although nobody woke it", name, ms, (unsigned long long) took / 1000);
            }
        });
    if (wake)
        fs.add("waker", [&] {
            for (u32 i = 0; i < 4; i++) {
                sim::sleepNs(W.below(2000000));
                LockGuard<M> g{m};
                if (W.below(2))
                    cv.wakeOne();
                else
                    cv.wakeAll();
            }
            done = true;
        });
    fs.join();
    sim::hit(name);
}
void condVars() {
    bool posix = W.below(3) == 2;
    switch (W.below(3)) {
        case 0:
            return posix ? queueCase<Mutex_POSIX, ConditionVariable_POSIX>("queue, POSIX") : queueCase<Mutex, ConditionVariable>("queue");
        case 1:
            return posix ? turnsCase<Mutex_POSIX, ConditionVariable_POSIX>("turns, POSIX") : turnsCase<Mutex, ConditionVariable>("turns");
        default:
            return posix ? timedCase<Mutex_POSIX, ConditionVariable_POSIX>("timed waits, POSIX") : timedCase<Mutex, ConditionVariable>("timed waits");
    }
}

//---------------------------------------------------------------- semaphores
void semaphores() {
    Semaphore sem;
    u32 waiters = 1 + W.below(3), per = 1 + W.below(4), total = waiters * per;
    int posted = 0, got = 0; // harness view
    std::vector<int> box(total, 0);
    bool pass = W.below(2);
    int data = 0;
    Fibers fs;
    if (pass) {
        // One token passes data from thread to thread.
        Semaphore a, b;
        u32 n = 1 + W.below(5);
        fs.add("ping", [&] {
            for (u32 i = 0; i < n; i++) {
                data = (int) i * 2;
                a.signal();
                b.wait();
                SIM_CHECK(data == (int) i * 2 + 1, "order", "semaphore: a token arrived before the data");
            }
        });
        fs.add("pong", [&] {
            for (u32 i = 0; i < n; i++) {
                a.wait();
                SIM_CHECK(data == (int) i * 2, "order", "semaphore: a token arrived before the data");
                data++;
                b.signal(1);
            }
        });
        fs.join();
        sim::hit("semaphore ping-pong");
        return;
    }
    for (u32 t = 0; t < waiters; t++)
        fs.add("waiter", [&] {
            for (u32 i = 0; i < per; i++) {
                pause();
                sem.wait();
                sim::Quiet q;
                got++;
                if (got > posted)
                    sim::violate("tokens", "semaphore: %d waits returned after %d tokens were signalled", got, posted);
            }
        });
    u32 signallers = 1 + W.below(2);
    for (u32 s = 0; s < signallers; s++) {
        u32 mine = s + 1 == signallers ? total - (total / signallers) * s : total / signallers;
        fs.add("signaller", [&, mine] {
            u32 left = mine;
            while (left) {
                pause();
                u32 n = W.below(3) ? 1 : W.below(left + 1);
                {
                    sim::Quiet q;
                    posted += n;
                }
                if (n == 1 && W.below(2))
                    sem.signal();
                else
                    sem.signal(n);
                left -= n;
            }
        });
    }
    fs.join();
    SIM_CHECK(got == (int) total && posted == got, "tokens", "semaphore: %d of %d tokens were consumed", got, posted);
    // none left: a further wait must block
    bool passed = false;
    u32 f = sim::spawn("extra", [&] {
        sem.wait();
        sim::Quiet q;
        passed = true;
    });
    sim::waitUntil([&] { return passed; }, 2000000);
    SIM_CHECK(!passed, "tokens", "semaphore: a wait returned without a token");
    sem.signal();
    sim::joinFiber(f);
    sim::hit("semaphore tokens");
}

//---------------------------------------------------------------- events
void events() {
    u32 rounds = 1 + W.below(3), waiters = 1 + W.below(4);
    bool initial = W.below(3) == 2;
    ManualResetEvent ev{initial};
    int payload = 0;
    bool mayPass = initial;
    for (u32 r = 0; r < rounds; r++) {
        Fibers fs;
        u32 passed = 0;
        if (r) {
            ev.reset();
            mayPass = false;
        }
        bool pre = mayPass;
        for (u32 w = 0; w < waiters; w++)
            fs.add("event waiter", [&] {
                u32 n = 1 + W.below(2);
                for (u32 i = 0; i < n; i++) {
                    pause();
                    ev.wait();
                    if (!pre)
                        SIM_CHECK(payload == (int) r + 1, "order", "event: wait() returned before the signal");
                    sim::Quiet q;
                    if (!mayPass)
                        sim::violate("event", "wait() returned although the event was not signalled");
                }
                sim::Quiet q;
                passed++;
            });
        if (!pre || W.below(2)) {
            u32 signallers = 1 + W.below(2);
            for (u32 s = 0; s < signallers; s++)
                fs.add("event signaller", [&, s] {
                    pause();
                    sim::sleepNs(W.below(20000));
                    if (s == 0) {
                        if (!pre)
                            payload = (int) r + 1;
                        {
                            sim::Quiet q;
                            mayPass = true;
                        }
                        ev.signal();
                    } else if (pre) {
                        ev.signal();
                    }
                });
        }
        fs.join();
        SIM_CHECK(passed == waiters, "event", "%u of %u waiters passed", passed, waiters);
        ev.wait(); // it stays signalled
        sim::hit("event rounds");
    }
}

//---------------------------------------------------------------- reader/writer locks
void rwLocks() {
    RWLock* l = new RWLock;
    u32 readers = 1 + W.below(3), writers = W.below(3), rounds = 1 + W.below(4);
    int a = 0, b = 0;
    int rIn = 0, wIn = 0;
    if (writers == 0) {
        // Readers do not exclude each other: each waits inside for all the others.
        u32 in = 0;
        Fibers fs;
        for (u32 t = 0; t < readers; t++)
            fs.add("reader", [&] {
                SharedLockGuard<RWLock> g{*l};
                {
                    sim::Quiet q;
                    in++;
                }
                if (!sim::waitUntil([&] { return in == readers; }, 10000000000ull))
                    sim::violate("rwlock", "readers exclude each other");
            });
        fs.join();
        sim::hit("rwlock readers together");
    }
    Fibers fs;
    for (u32 t = 0; t < readers; t++)
        fs.add("reader", [&] {
            for (u32 i = 0; i < rounds; i++) {
                pause();
                SharedLockGuard<RWLock> g{*l};
                {
                    sim::Quiet q;
                    rIn++;
                    if (wIn)
                        sim::violate("mutual-exclusion", "rwlock: a reader got in while a writer holds the lock");
                }
                int x = a;
                pause();
                SIM_CHECK(x == b, "mutual-exclusion", "rwlock: a reader saw a half-finished update");
                sim::Quiet q;
                rIn--;
            }
        });
    for (u32 t = 0; t < writers; t++)
        fs.add("writer", [&] {
            for (u32 i = 0; i < rounds; i++) {
                pause();
                ExclusiveLockGuard<RWLock> g{*l};
                {
                    sim::Quiet q;
                    wIn++;
                    if (rIn || wIn > 1)
                        sim::violate("mutual-exclusion", "rwlock: a writer got in while %d readers and %d writers hold the lock", rIn, wIn - 1);
                }
                a++;
                pause();
                b++;
                sim::Quiet q;
                wIn--;
            }
        });
    fs.join();
    SIM_CHECK(a == (int) (writers * rounds) && a == b, "mutual-exclusion", "rwlock: %d updates instead of %u", a, writers * rounds);
    delete l;
    sim::hit("rwlock");
}

//---------------------------------------------------------------- atomics
void atomics() {
    u32 n = 2 + W.below(3), rounds = 1 + W.below(5);
    switch (W.below(4)) {
        case 0: { // no update is lost
            Atomic<s32> sum{0}, diff{0};
            Atomic<u32> bits{0}, mask{~0u};
            Fibers fs;
            std::vector<s32> seen;
            for (u32 t = 0; t < n; t++)
                fs.add("adder", [&, t] {
                    for (u32 i = 0; i < rounds; i++) {
                        s32 old = sum.fetchAdd(1, Relaxed);
                        diff.fetchSub(2, AcquireRelease);
                        bits.fetchOr(1u << (t * 5 + i), Relaxed);
                        mask.fetchAnd(~(1u << (t * 5 + i)), Release);
                        sim::Quiet q;
                        for (s32 s : seen)
                            if (s == old)
                                sim::violate("atomic", "fetchAdd() returned %d twice", old);
                        seen.push_back(old);
                    }
                });
            fs.join();
            u32 wantBits = 0;
            for (u32 t = 0; t < n; t++)
                for (u32 i = 0; i < rounds; i++)
                    wantBits |= 1u << (t * 5 + i);
            SIM_CHECK(sum.load(Acquire) == (s32) (n * rounds), "atomic", "fetchAdd: %d instead of %u", sum.loadNonatomic(), n * rounds);
            SIM_CHECK(diff.load(Acquire) == -2 * (s32) (n * rounds), "atomic", "fetchSub: %d instead of %d", diff.loadNonatomic(), -2 * (s32) (n * rounds));
            SIM_CHECK(bits.load(Acquire) == wantBits && mask.load(Acquire) == ~wantBits, "atomic", "fetchOr/fetchAnd lost an update");
            break;
        }
        case 1: { // release/acquire passes data on
            Atomic<u32> flag{0};
            int data = 0;
            Fibers fs;
            fs.add("sender", [&] {
                for (u32 i = 1; i <= rounds; i++) {
                    while (flag.load(Acquire) % 2 != 0)
                        sim::yield();
                    data = (int) i;
                    flag.store(flag.loadNonatomic() + 1, Release);
                }
            });
            fs.add("receiver", [&] {
                for (u32 i = 1; i <= rounds; i++) {
                    while (flag.load(Acquire) % 2 != 1)
                        sim::yield();
                    SIM_CHECK(data == (int) i, "atomic", "data arrived after its flag");
                    flag.fetchAdd(1, Release);
                }
            });
            fs.join();
            break;
        }
        case 2: { // a lock made of compareExchange
            Atomic<u32> lock{0};
            int counter = 0;
            u32 kind = W.below(3);
            Fibers fs;
            for (u32 t = 0; t < n; t++)
                fs.add("cas", [&, t] {
                    for (u32 i = 0; i < rounds; i++) {
                        for (;;) {
                            bool ok;
                            u32 e = 0;
                            if (kind == 0)
                                ok = lock.compareExchange(0, t + 1, Acquire) == 0;
                            else if (kind == 1)
                                ok = lock.compareExchangeStrong(e, t + 1, Acquire);
                            else
                                ok = lock.compareExchangeWeak(e, t + 1, Acquire, Relaxed);
                            if (ok)
                                break;
                            if (kind == 1)
                                SIM_CHECK(e != 0 && e != t + 1, "atomic", "compareExchangeStrong() failed, but the value is %u", e);
                            sim::yield();
                        }
                        SIM_CHECK(lock.loadNonatomic() == t + 1, "atomic", "compareExchange() reported success without effect");
                        counter++;
                        u32 old = lock.exchange(0, Release);
                        SIM_CHECK(old == t + 1, "atomic", "exchange() returned %u instead of %u", old, t + 1);
                    }
                });
            fs.join();
            SIM_CHECK(counter == (int) (n * rounds), "atomic", "%d instead of %u increments", counter, n * rounds);
            break;
        }
        default: { // the race detector is silent if there is no overlap
            RaceDetector rd;
            Mutex m;
            Fibers fs;
            for (u32 t = 0; t < n; t++)
                fs.add("detected", [&] {
                    for (u32 i = 0; i < rounds; i++) {
                        LockGuard<Mutex> g{m};
                        RaceDetectGuard d{rd};
                        pause();
                    }
                });
            fs.join();
        }
    }
    sim::hit("atomics");
}

void c11() {
    sim::sched.raceDetect = true;
    sim::faultRate[sim::FT_SPURIOUS] = W.below(2) ? 0.1 : 0;
    sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0.2 : 0;
    sim::faultRate[sim::FT_STALL] = W.below(4) == 3 ? 0.01 : 0;
    sim::randomSchedule(W.below(2));
    switch (W.below(9)) {
        case 0:
        case 1:
            return mutexes();
        case 2:
        case 3:
        case 4:
            return condVars();
        case 5:
            return semaphores();
        case 6:
            return events();
        case 7:
            return rwLocks();
        default:
            return atomics();
    }
}
SIM_PROP("C11", c11, "synchronisation primitives");
} // namespace
