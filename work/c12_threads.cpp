// C12: threads run their function exactly once with values of their own, joining waits for all of it,
// thread-local variables belong to one thread, and sleeping lasts as long as asked for.
#include "common.h"
#include <memory>
#include <ply-runtime/thread/Thread.h>
#include <ply-runtime/thread/impl/Thread_POSIX.h>
#include <ply-runtime/thread/impl/Thread_CPP11.h>
#include <ply-runtime/thread/ThreadLocal.h>
#include <ply-runtime/thread/TID.h>
#include <ply-runtime/container/Array.h>
#include <ply-runtime/string/String.h>
using namespace wl;

namespace {
int liveTokens;
// Counts its copies; a moved-from token holds 0.
struct Token {
    u32 v;
    explicit Token(u32 v) : v{v} {
        sim::Quiet q;
        liveTokens++;
    }
    Token(const Token& o) : v{o.v} {
        sim::Quiet q;
        liveTokens++;
    }
    Token(Token&& o) : v{o.v} {
        o.v = 0;
        sim::Quiet q;
        liveTokens++;
    }
    ~Token() {
        v = 0xdead;
        sim::Quiet q;
        liveTokens--;
    }
};

struct Rec { // one started thread
    u32 id = 0;
    bool started = false, ended = false; // written by the thread under Quiet
    u32 calls = 0;
    u64 sum = 0;     // written by the thread without synchronisation: join has to order it
    u64 expect = 0;
    TID::TID tid = 0;
};

struct Env {
    std::vector<std::unique_ptr<Rec>> recs;
    u32 budget = 10;
    std::vector<TID::TID> liveTids;
    TID::PID pid;
    Rec* make() {
        sim::Quiet q;
        recs.emplace_back(new Rec);
        recs.back()->id = (u32) recs.size();
        return recs.back().get();
    }
};
Env* env;

void enterThread() {
    TID::TID t = TID::getCurrentThreadID();
    TID::PID p = TID::getCurrentProcessID();
    sim::Quiet q;
    for (auto& o : env->liveTids)
        if (o == t)
            sim::violate("thread-id", "two living threads have the same id");
    if (p != env->pid)
        sim::violate("thread-id", "the process id differs between threads");
    env->liveTids.push_back(t);
}
void leaveThread() {
    TID::TID t = TID::getCurrentThreadID();
    sim::Quiet q;
    for (size_t i = 0; i < env->liveTids.size(); i++)
        if (env->liveTids[i] == t) {
            env->liveTids.erase(env->liveTids.begin() + i);
            return;
        }
    sim::violate("thread-id", "the id of a thread changed while it ran");
}
void body(u32 depth);

// The functions passed to threads.
u64 mix(u64 h, u64 v) {
    return (h ^ v) * 0x100000001b3ull + 7;
}
struct Work {
    Rec* rec;
    Token tok;
    String text;
    Array<u32> nums;
    u32 depth;
    u32 pauseNs;
    bool throwaway = false;
    Work(Rec* rec, u32 depth) : rec{rec}, tok{1 + W.below(1000)}, depth{depth} {
        std::string s = randBytes(W.below(4) ? W.below(40) : W.below(4000), 26);
        text = sv(s);
        u32 n = W.below(6);
        for (u32 i = 0; i < n; i++)
            nums.append(W.below(1000));
        pauseNs = W.below(3) ? 0 : W.below(200000);
    }
    u64 value() const {
        u64 h = tok.v;
        for (u32 i = 0; i < text.numBytes; i++)
            h = mix(h, (u8) text.bytes[i]);
        for (u32 v : nums)
            h = mix(h, v);
        return h;
    }
    void operator()() {
        enterThread();
        {
            sim::Quiet q;
            rec->calls++;
            rec->started = true;
        }
        if (pauseNs)
            sim::sleepNs(pauseNs);
        rec->sum = value();
        if (depth)
            body(depth - 1);
        leaveThread();
        sim::Quiet q;
        rec->ended = true;
    }
    void scribble() { // the creator goes on using its own copy
        tok.v = 7777;
        for (u32 i = 0; i < text.numBytes; i++)
            text.bytes[i] = '#';
        text.clear();
        nums.clear();
    }
};
struct MoveOnly : Work {
    std::unique_ptr<int> p{new int{5}};
    using Work::Work;
    MoveOnly(MoveOnly&&) = default;
};
Rec* fnRec;
void plainFunction() {
    enterThread();
    {
        sim::Quiet q;
        fnRec->calls++;
        fnRec->started = fnRec->ended = true;
    }
    leaveThread();
}

// Starts a thread in one of many ways and checks what can be checked at once.
template <typename T> Rec* start(T& th, u32 depth) {
    Rec* rec = env->make();
    SIM_CHECK(!th.isValid(), "is-valid", "a thread that was not started is valid");
    u32 how = W.below(5), failed0 = sim::errFaults();
    switch (how) {
        case 0: { // a temporary
            Work w{rec, depth};
            rec->expect = w.value();
            th.run(std::move(w));
            break;
        }
        case 1: { // a variable, which the creator changes and destroys
            Work w{rec, depth};
            rec->expect = w.value();
            th.run(w);
            SIM_CHECK(w.value() == rec->expect, "own-copy", "starting a thread changed the function object that was passed by reference");
            w.scribble();
            break;
        }
        case 2: { // a constant
            const Work w{rec, depth};
            rec->expect = w.value();
            th.run(w);
            break;
        }
        case 3: {
            MoveOnly w{rec, depth};
            rec->expect = w.value();
            th.run(std::move(w));
            break;
        }
        default: { // a lambda
            Work w{rec, depth};
            rec->expect = w.value();
            auto fn = [w]() mutable { w(); };
            if (W.below(2))
                th.run(fn);
            else
                th.run(std::move(fn));
        }
    }
    bool failed = sim::errFaults() != failed0;
    if (failed) {
        SIM_CHECK(!th.isValid(), "is-valid", "a thread that could not be created is valid");
        sim::Quiet q;
        if (rec->calls)
            sim::violate("exactly-once", "the function of a thread that could not be created was called");
        rec->calls = 99; // must stay so
        sim::hit("thread creation refused");
        return nullptr;
    }
    SIM_CHECK(th.isValid(), "is-valid", "a running thread is not valid");
    return rec;
}
void checkDone(Rec* r) {
    bool ended;
    u32 calls;
    {
        sim::Quiet q;
        ended = r->ended;
        calls = r->calls;
    }
    SIM_CHECK(calls <= 1, "exactly-once", "the function of a thread was called %u times", calls);
    SIM_CHECK(ended, "join", "join() returned, but the thread has not ended (called: %u)", calls);
    u64 sum = r->sum; // a data race here means that join() does not synchronise
    SIM_CHECK(sum == r->expect, "own-copy", "a thread saw other values than those passed to it");
}

template <typename T> void bodyT(u32 depth) {
    u32 n = 1 + W.below(3);
    std::vector<std::unique_ptr<T>> ths;
    std::vector<Rec*> recs;
    for (u32 i = 0; i < n; i++) {
        {
            sim::Quiet q;
            if (!env->budget)
                break;
            env->budget--;
        }
        ths.emplace_back(new T);
        recs.push_back(start(*ths.back(), depth));
        if (W.below(4) == 0)
            sim::yield();
    }
    for (size_t k = 0; k < ths.size(); k++) {
        size_t i = W.below((u32) ths.size());
        while (!ths[i])
            i = (i + 1) % ths.size();
        u32 act = W.below(5);
        if (act == 4 && recs[i]) { // let it go
            ths[i].reset();
            sim::hit("detached");
            continue;
        }
        if (recs[i]) {
            ths[i]->join();
            SIM_CHECK(!ths[i]->isValid(), "is-valid", "a joined thread is still valid");
            checkDone(recs[i]);
            sim::hit("joined");
            bool again = act == 3;
            if (again) {
                sim::Quiet q;
                again = env->budget > 0;
                if (again)
                    env->budget--;
            }
            if (again) { // the object can be used again
                Rec* r = start(*ths[i], depth);
                if (r) {
                    ths[i]->join();
                    checkDone(r);
                    sim::hit("started again");
                }
            }
        }
        ths[i].reset();
    }
}
void body(u32 depth) {
    if (W.below(3))
        bodyT<Thread_POSIX>(depth);
    else
        bodyT<Thread_CPP11>(depth);
}

// Destroying a Thread does not wait for the thread, which goes on alone.
template <typename T> void letGo(bool reuse) {
    bool go = false, first = false, second = false;
    {
        T t;
        t.run([&] {
            sim::waitUntil([&] { return go; });
            sim::Quiet q;
            first = true;
        });
        SIM_CHECK(t.isValid(), "is-valid", "a running thread is not valid");
        if (reuse) {
            t.run([&] {
                sim::Quiet q;
                second = true;
            });
            SIM_CHECK(t.isValid(), "is-valid", "a running thread is not valid");
            t.join();
            sim::Quiet q;
            if (!second)
                sim::violate("join", "join() returned before the thread ended");
        }
    }
    {
        sim::Quiet q;
        if (first)
            sim::violate("exactly-once", "a thread went on without what it waits for");
        go = true;
    }
    if (!sim::waitUntil([&] { return first; }, 20000000000000ull))
        sim::violate("exactly-once", "the function of a detached thread did not run to its end");
    sim::hit("let go");
}
void threads() {
    liveTokens = 0;
    Env e;
    env = &e;
    e.pid = TID::getCurrentProcessID();
    e.budget = 4 + W.below(10);
    sim::faultRate[sim::FT_THREAD_ERR] = W.below(3) == 2 ? 0.3 : 0;
    if (W.below(8) == 0) {
        sim::faultRate[sim::FT_THREAD_ERR] = 0;
        if (W.below(2))
            return letGo<Thread_POSIX>(false);
        return letGo<Thread_CPP11>(W.below(2));
    }
    enterThread();
    body(W.below(3));
    if (W.below(4) == 0) {
        Rec* r = e.make();
        {
            sim::Quiet q;
            fnRec = r;
        }
        sim::faultRate[sim::FT_THREAD_ERR] = 0;
        if (W.below(2)) {
            Thread t{plainFunction};
            SIM_CHECK(t.isValid(), "is-valid", "a running thread is not valid");
            t.join();
        } else {
            Thread t;
            t.run(&plainFunction);
            t.join();
        }
        checkDone(r);
    }
    leaveThread();
    // threads that were let go run to their end all the same
    bool ok = sim::waitUntil(
        [&] {
            for (auto& r : e.recs)
                if (!r->ended && r->calls != 99)
                    return false;
            return e.liveTids.empty() && liveTokens == 0;
        },
        20000000000000ull);
    for (auto& r : e.recs) {
        SIM_CHECK(r->calls == 99 || r->calls == 1, "exactly-once", "the function of a thread was called %u times", r->calls);
        SIM_CHECK(r->ended || r->calls == 99, "exactly-once", "the function of a detached thread did not run to its end");
    }
    SIM_CHECK(ok, "leak", "%d objects of the functions of finished threads were never destroyed", liveTokens);
    sim::hit("threads");
}

//---------------------------------------------------------------- thread-local variables
enum Color : u8 { Red, Green, Blue = 200 };
struct Tls {
    ThreadLocal<u32> a;
    ThreadLocal<s64> b;
    ThreadLocal<Color> c;
    ThreadLocal<const char*> d;
    ThreadLocal<bool> e;
    ThreadLocal<s8> f;
};
struct Vals {
    u32 a = 0;
    s64 b = 0;
    Color c = Red;
    const char* d = nullptr;
    bool e = false;
    s8 f = 0;
};
const char* const strs[] = {nullptr, "x", "yy", "zzz"};
void compare(Tls& t, const Vals& v, const char* when) {
    SIM_CHECK(t.a.load() == v.a, "thread-local", "a thread-local u32 is %u instead of %u %s", t.a.load(), v.a, when);
    SIM_CHECK(t.b.load() == v.b, "thread-local", "a thread-local s64 is wrong %s", when);
    SIM_CHECK(t.c.load() == v.c, "thread-local", "a thread-local enum is wrong %s", when);
    SIM_CHECK(t.d.load() == v.d, "thread-local", "a thread-local pointer is wrong %s", when);
    SIM_CHECK(t.e.load() == v.e, "thread-local", "a thread-local bool is wrong %s", when);
    SIM_CHECK(t.f.load() == v.f, "thread-local", "a thread-local s8 is wrong %s", when);
}
void use(Tls& t, Vals& v, u32 depth, u32 ops) {
    for (u32 i = 0; i < ops; i++) {
        switch (W.below(9)) {
            case 0:
                t.a.store(v.a = W.next());
                break;
            case 1:
                t.b.store(v.b = (s64) (((u64) W.next() << 32) | W.next()));
                break;
            case 2:
                t.c.store(v.c = W.below(2) ? Blue : Green);
                break;
            case 3:
                t.d.store(v.d = strs[W.below(4)]);
                break;
            case 4:
                t.e.store(v.e = W.below(2));
                break;
            case 5:
                t.f.store(v.f = (s8) W.next());
                break;
            case 6:
                sim::yield();
                break;
            default:
                if (depth) {
                    Vals saved = v;
                    {
                        auto s1 = t.a.setInScope(v.a = W.next());
                        auto s2 = t.d.setInScope(v.d = strs[W.below(4)]);
                        if (W.below(2)) {
                            auto s3 = std::move(s1);
                            compare(t, v, "in a scope");
                            use(t, v, depth - 1, 2);
                            auto s4 = t.a.setInScope(v.a + 1);
                            v.a++;
                            compare(t, v, "in an inner scope");
                            v.a = saved.a; // s4 goes first, then s3
                        } else {
                            auto s3 = t.b.setInScope(v.b = -5);
                            auto s5 = t.f.setInScope(v.f = -100);
                            auto s6 = t.e.setInScope(v.e = !v.e);
                            auto s7 = t.c.setInScope(v.c = Blue);
                            use(t, v, depth - 1, 2);
                            compare(t, v, "in a scope");
                            v.b = saved.b;
                            v.f = saved.f;
                            v.e = saved.e;
                            v.c = saved.c;
                        }
                    }
                    v.a = saved.a;
                    v.d = saved.d;
                    compare(t, v, "after a scope");
                    sim::hit("scopes");
                }
        }
        if (W.below(3) == 0)
            compare(t, v, "although nobody else changed it");
    }
    compare(t, v, "although nobody else changed it");
}
void locals() {
    u32 n = 1 + W.below(4);
    Tls shared;
    std::vector<u32> ids;
    for (u32 i = 0; i < n; i++)
        ids.push_back(sim::spawn("user", [&] {
            Vals v;
            compare(shared, v, "at first");
            use(shared, v, 2, W.below(12));
            for (u32 k = W.below(4); k; k--) {
                Tls own; // variables come and go while others are used
                Vals o;
                compare(own, o, "in a new variable");
                use(own, o, 1, W.below(6));
                if (W.below(2)) {
                    u32 id = sim::spawn("guest", [&] {
                        Vals g;
                        compare(own, g, "in a new thread");
                        use(own, g, 1, W.below(4));
                    });
                    use(own, o, 1, W.below(4));
                    sim::joinFiber(id);
                    compare(own, o, "although only another thread changed its own value");
                }
                compare(shared, v, "although only another variable changed");
            }
        }));
    Vals m;
    use(shared, m, 1, W.below(6));
    for (u32 id : ids)
        sim::joinFiber(id);
    compare(shared, m, "although other threads changed their own values only");
    sim::hit("thread-local variables");
}

//---------------------------------------------------------------- sleeping
void sleeping() {
    sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0 : 0.6;
    sim::faultRate[sim::FT_CLOCK_JUMP] = W.below(2) ? 0 : 0.05;
    static const u64 sizes[] = {0, 1, 999, 1000, 1001, 2500, 60000, 86400000, 4294968ull, 4294967296ull};
    u32 n = 1 + W.below(3);
    std::vector<u32> ids;
    for (u32 i = 0; i < n; i++)
        ids.push_back(sim::spawn("sleeper", [&] {
            for (u32 k = 1 + W.below(3); k; k--) {
                u64 ms = W.below(2) ? sizes[W.below(10)] : W.below(5000);
                u64 stalls = sim::faultCount(sim::FT_STALL);
                u64 t0 = sim::nowNs();
                if (W.below(4))
                    Thread::sleepMillis((ureg) ms);
                else
                    Thread_CPP11::sleepMillis((ureg) ms);
                u64 t = sim::nowNs() - t0;
                SIM_CHECK(t >= ms * 1000000, "sleep", "sleepMillis(%llu) took only %llu ns", (unsigned long long) ms, (unsigned long long) t);
                if (sim::faultCount(sim::FT_STALL) == stalls)
                    SIM_CHECK(t <= ms * 1000000 + ms * 100000 + 5000000, "sleep", "sleepMillis(%llu) took %llu ns", (unsigned long long) ms,
                              (unsigned long long) t);
            }
        }));
    for (u32 id : ids)
        sim::joinFiber(id);
    sim::hit("sleep");
}

void c12() {
    sim::sched.raceDetect = true;
    sim::faultRate[sim::FT_STALL] = W.below(4) == 3 ? 0.01 : 0;
    sim::randomSchedule(W.below(2));
    switch (W.below(6)) {
        case 0:
            return sleeping();
        case 1:
        case 2:
            return locals();
        default:
            return threads();
    }
}
SIM_PROP("C12", c12, "threads, thread-local variables, sleeping");
} // namespace
