// C17: the heap (Heap_DL) and the page allocator under it, on simulated mmap with seeded placement
// and threads that share it.
#include "common.h"
#include <map>
#include <ply-runtime/Base.h>
#include <ply-runtime/thread/Mutex.h>
#include <ply-runtime/memory/MemPage.h>
#include <ply-runtime/memory/Heap.h>
// The rest of the simulator uses the C heap (with its shadow memory); this workload has the other one.
#undef PLY_USE_DLMALLOC
#define PLY_USE_DLMALLOC 1
#include <ply-runtime/memory/impl/Heap_DL.cpp>
using namespace wl;

namespace {
struct Blk {
    char* p;
    u32 size, salt;
    u32 heap;
};
Heap_DL heaps[2]; // as the default heap: at global scope, zero-initialized, first used by any thread

struct State {
    std::map<u64, u32> live; // all registered blocks: address -> size
    u64 liveBytes = 0, peakLive = 0;
    std::vector<Blk> shared;
    u32 salt = 0;
    u32 numHeaps = 1;
    u32 maxSize = 0;
    bool aligned = true;
};
State* st;

__attribute__((no_sanitize("thread"))) bool zeroed(const char* p, u32 n) {
    for (u32 i = 0; i < n; i++)
        if (p[i])
            return false;
    return true;
}
__attribute__((no_sanitize("thread"))) bool samePattern(const char* p, u32 n, u32 salt) {
    static char tmp[4096];
    u64 x = salt * 0x9e3779b97f4a7c15ull + 1;
    (void) tmp;
    for (u32 i = 0; i < n; i++) {
        if ((i & 7) == 0) {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
        }
        if (p[i] != (char) (x >> ((i & 7) * 8)))
            return false;
    }
    return true;
}
u32 sizeOf() {
    u32 s;
    switch (W.below(10)) {
        case 0:
            s = W.below(4);
            break;
        case 1:
        case 2:
        case 3:
            s = 1 + W.below(300);
            break;
        case 4: // around the boundaries of the size classes
            s = (1u << (3 + W.below(15))) - 24 + W.below(48);
            break;
        case 5:
            s = 1 + W.below(5000);
            break;
        case 6:
            s = 4096 * (1 + W.below(20)) - 80 + W.below(100);
            break;
        case 7:
            s = W.below(200000);
            break;
        case 8:
            s = 262144 - 100 + W.below(200);
            break;
        default:
            s = W.below(1500000);
            if (s & 1) // those that are mapped directly, around whole pages
                s = (s & ~4095u) - 90 + W.below(100);
    }
    return s > st->maxSize && s > 64 ? s % (st->maxSize + 1) : s;
}
void enter(Blk& b, u32 align, const char* what) {
    {
        sim::Quiet q;
        SIM_CHECK(b.p, "null", "%s(%u) gave no memory", what, b.size);
        SIM_CHECK((u64) b.p % 16 == 0 && (u64) b.p % align == 0, "alignment", "%s(%u) is not aligned to %u", what, b.size, align < 16 ? 16 : align);
        SIM_CHECK(sim::k::isMapped(b.p, b.size ? b.size : 1), "not-mapped", "%s(%u) is not completely backed by memory", what, b.size);
        u32 n = b.size ? b.size : 1; // blocks without a size have an address of their own, too
        auto it = st->live.lower_bound((u64) b.p);
        SIM_CHECK(it == st->live.end() || it->first >= (u64) b.p + n, "overlap", "%s(%u) overlaps a live block of %u bytes", what, b.size, it->second);
        if (it != st->live.begin()) {
            --it;
            SIM_CHECK(it->first + it->second <= (u64) b.p, "overlap", "%s(%u) overlaps a live block of %u bytes", what, b.size, it->second);
        }
        st->live[(u64) b.p] = n;
        st->liveBytes += n;
        if (st->liveBytes > st->peakLive)
            st->peakLive = st->liveBytes;
    }
    // getSize() takes no lock, on purpose: another thread may be changing the flags next to the size
    sim::Quiet q;
    SIM_CHECK(heaps[b.heap].getSize(b.p) >= b.size, "size", "getSize() says %llu for a block of %u", (unsigned long long) heaps[b.heap].getSize(b.p), b.size);
}
void fill(Blk& b) {
    {
        sim::Quiet q;
        b.salt = ++st->salt;
    }
    if (b.size) { // as code that uses the memory would, for the race detection
        ((volatile char*) b.p)[0] = 1;
        ((volatile char*) b.p)[b.size - 1] = 1;
        ((volatile char*) b.p)[b.size / 2] = 1;
    }
    fillPattern(b.p, b.size, b.salt);
}
void leave(Blk& b) {
    sim::Quiet q;
    st->live.erase((u64) b.p);
    st->liveBytes -= b.size ? b.size : 1;
}
void verify(const Blk& b, const char* when) {
    sim::Quiet q;
    SIM_CHECK(samePattern(b.p, b.size, b.salt), "contents", "the contents of a block of %u bytes changed %s", b.size, when);
}

Blk doAlloc() {
    Blk b{};
    b.heap = W.below(st->numHeaps);
    b.size = sizeOf();
    u32 align = 1;
    if (st->aligned && W.chance(0.2)) {
        align = 8u << W.below(14);
        b.p = (char*) PLY_HEAP_DIRECT(heaps[b.heap]).allocAligned(b.size, align);
        enter(b, align, "allocAligned");
        sim::hit("aligned allocations");
    } else {
        b.p = (char*) PLY_HEAP_DIRECT(heaps[b.heap]).alloc(b.size);
        enter(b, 1, "alloc");
        sim::hit("allocations");
    }
    fill(b);
    return b;
}
void doFree(Blk& b) {
    verify(b, "before it was freed");
    leave(b);
    PLY_HEAP_DIRECT(heaps[b.heap]).free(b.p);
    sim::hit("frees");
}
void doRealloc(Blk& b) {
    u32 n;
    switch (W.below(4)) {
        case 0:
            n = sizeOf();
            break;
        case 1:
            n = b.size + W.below(64);
            break;
        case 2:
            n = W.below(b.size + 1);
            break;
        default:
            n = b.size * 2 <= st->maxSize ? b.size * 2 : b.size / 2;
    }
    verify(b, "before it was resized");
    leave(b);
    Blk o = b;
    b.p = (char*) PLY_HEAP_DIRECT(heaps[b.heap]).realloc(b.p, n);
    b.size = n;
    enter(b, 1, "realloc");
    u32 keep = n < o.size ? n : o.size;
    {
        sim::Quiet q;
        SIM_CHECK(samePattern(b.p, keep, o.salt), "contents", "realloc() from %u to %u bytes lost the contents", o.size, n);
    }
    fill(b);
    sim::hit(b.p == o.p ? "resized in place" : "resized by moving");
}
void stats(bool alone) {
    Heap_DL::Stats s = PLY_HEAP_DIRECT(heaps[0]).getStats();
    SIM_CHECK(s.inUseBytes <= s.systemBytes && s.systemBytes <= s.peakSystemBytes, "stats", "in use %llu, system %llu, peak %llu",
              (unsigned long long) s.inUseBytes, (unsigned long long) s.systemBytes, (unsigned long long) s.peakSystemBytes);
    if (!alone || st->numHeaps != 1)
        return;
    sim::Quiet q;
    SIM_CHECK(s.systemBytes == sim::k::mappedBytes(), "stats", "getStats() says %llu bytes from the system, it is %llu",
              (unsigned long long) s.systemBytes, (unsigned long long) sim::k::mappedBytes());
    if (st->maxSize < 150000) {
        u64 n = 0;
        for (auto& l : st->live)
            n += l.second;
        SIM_CHECK(s.inUseBytes + (s.inUseBytes == 0 && n <= st->live.size() ? n : 0) >= n, "stats", "getStats() says %llu bytes are in use, %llu are",
                  (unsigned long long) s.inUseBytes, (unsigned long long) n);
        SIM_CHECK(s.inUseBytes <= n + 64 * st->live.size(), "stats", "getStats() says %llu bytes are in use, %llu are in %zu blocks",
                  (unsigned long long) s.inUseBytes, (unsigned long long) n, st->live.size());
    }
    if (st->live.empty())
        SIM_CHECK(s.inUseBytes == 0, "stats", "everything was freed, but %llu bytes are in use", (unsigned long long) s.inUseBytes);
    sim::hit("statistics compared");
}

void share(Mutex& mtx, std::vector<Blk>& own) {
    LockGuard<Mutex> g{mtx}; // orders what one thread did to the block before what the other one does
    sim::Quiet q;
    if (own.size() && (st->shared.empty() || W.below(2))) {
        u32 i = W.below((u32) own.size());
        st->shared.push_back(own[i]);
        own.erase(own.begin() + i);
    } else if (st->shared.size()) {
        own.push_back(st->shared.back());
        st->shared.pop_back();
        sim::hit("blocks passed between threads");
    }
}
void threadOps(u32 ops, Mutex& mtx, bool alone) {
    std::vector<Blk>* own;
    {
        sim::Quiet q;
        own = new std::vector<Blk>;
        own->reserve(300);
    }
    for (u32 i = 0; i < ops; i++) {
        u32 k = W.below(16);
        // phases in which more is allocated, or freed
        if (own->size() > 200 || (((i >> 5) & 1) && k < 6))
            k = 9;
        if (k < 7 || own->empty()) {
            Blk b = doAlloc();
            sim::Quiet q;
            own->push_back(b);
        } else if (k == 7 || k == 8) {
            doRealloc((*own)[W.below((u32) own->size())]);
        } else if (k < 13) {
            u32 j = W.below((u32) own->size());
            doFree((*own)[j]);
            sim::Quiet q;
            own->erase(own->begin() + j);
        } else if (k == 13) {
            if (!alone)
                share(mtx, *own);
        } else if (k == 14) {
            verify((*own)[W.below((u32) own->size())], "while it was allocated");
        } else
            stats(alone);
    }
    LockGuard<Mutex> g{mtx};
    sim::Quiet q;
    for (auto& b : *own)
        st->shared.push_back(b);
    delete own;
}
void freeAll() {
    for (auto& b : st->shared)
        verify(b, "while it was allocated");
    bool rev = W.below(2);
    while (st->shared.size()) {
        Blk b;
        {
            sim::Quiet q;
            u32 n = (u32) st->shared.size(), j = W.below(3) == 0 ? W.below(n) : rev ? n - 1 : 0;
            b = st->shared[j];
            st->shared.erase(st->shared.begin() + j);
        }
        doFree(b);
    }
}

void cycles() { // the same requests again and again
    u32 n = 20 + W.below(150), rounds = 3 + W.below(8);
    std::vector<u32> sizes;
    {
        sim::Quiet q;
        u64 total = 0;
        for (u32 i = 0; i < n && total < (16u << 20); i++) {
            sizes.push_back(sizeOf());
            total += sizes.back();
        }
    }
    n = (u32) sizes.size();
    u64 first = 0, peak = 0;
    bool shuffle = W.below(2);
    double aligned = W.below(2) ? 0.4 : 0;
    for (u32 r = 0; r < rounds; r++) {
        for (u32 i = 0; i < n; i++) {
            Blk b{};
            b.size = sizes[i];
            u32 align = 1;
            if (W.chance(aligned)) {
                align = 16u << W.below(10);
                b.p = (char*) PLY_HEAP_DIRECT(heaps[0]).allocAligned(b.size, align);
            } else
                b.p = (char*) PLY_HEAP_DIRECT(heaps[0]).alloc(b.size);
            enter(b, align, "alloc");
            fill(b);
            sim::Quiet q;
            st->shared.push_back(b);
            if (sim::k::mappedBytes() > peak)
                peak = sim::k::mappedBytes();
        }
        if (r == 0)
            first = peak;
        SIM_CHECK(peak <= first * 2 + (2u << 20), "footprint", "round %u of the same requests needs %llu bytes from the system, the first one %llu",
                  r + 1, (unsigned long long) peak, (unsigned long long) first);
        {
            sim::Quiet q;
            for (u32 i = 0; shuffle && i < n; i++)
                std::swap(st->shared[i], st->shared[i + W.below(n - i)]);
        }
        if (!shuffle)
            freeAll();
        else
            while (st->shared.size()) {
                Blk b = st->shared.back();
                doFree(b);
                sim::Quiet q;
                st->shared.pop_back();
            }
        stats(true);
    }
    sim::hit("rounds of the same requests", rounds);
    u64 left = sim::k::mappedBytes();
    if (sim::k::map.placement == 0) { // one contiguous range
        SIM_CHECK(left <= (4u << 20), "not-returned", "%llu bytes are kept from the system although nothing is in use", (unsigned long long) left);
        if (first > left)
            sim::hit("memory given back to the system");
    }
}

void pages() { // the page allocator
    struct Rg {
        char* p;
        u64 n;
        std::vector<char> state; // per page: 0 reserved, 1 committed, 2 committed and filled
        std::vector<u32> salt;
    };
    std::vector<Rg> rs;
    u64 page = MemPage::getInfo().pageSize, gran = MemPage::getInfo().allocationGranularity;
    SIM_CHECK(page == 4096 && gran % page == 0, "page-size", "page size %llu", (unsigned long long) page);
    u32 ops = 5 + W.below(40), salt = 0;
    for (u32 i = 0; i < ops; i++) {
        u32 k = W.below(6);
        if (k < 2 || rs.empty()) {
            Rg r;
            r.n = gran * (1 + W.below(12));
            bool res = k == 1;
            bool ok = res ? MemPage::reserve(r.p, r.n) : MemPage::alloc(r.p, r.n);
            SIM_CHECK(ok && sim::k::isMapped(r.p, r.n, !res), "pages", "%s of %llu bytes failed", res ? "reserve" : "alloc", (unsigned long long) r.n);
            SIM_CHECK(!res || !sim::k::isMapped(r.p, page), "pages", "reserved memory is accessible");
            sim::Quiet q;
            for (auto& o : rs)
                SIM_CHECK(o.p + o.n <= r.p || r.p + r.n <= o.p, "pages", "two allocations overlap");
            r.state.assign(r.n / page, res ? 0 : 1);
            r.salt.assign(r.n / page, 0);
            rs.push_back(r);
            continue;
        }
        Rg& r = rs[W.below((u32) rs.size())];
        u32 np = (u32) r.state.size(), a = W.below(np), b = a + 1 + W.below(np - a);
        if (k == 2) {
            MemPage::commit(r.p + a * page, (b - a) * page);
            for (u32 j = a; j < b; j++)
                if (!r.state[j])
                    r.state[j] = 1;
            sim::hit("pages committed", b - a);
        } else if (k == 3) {
            MemPage::decommit(r.p + a * page, (b - a) * page);
            for (u32 j = a; j < b; j++)
                r.state[j] = 0;
            sim::hit("pages decommitted", b - a);
        } else if (k == 4) {
            for (u32 j = a; j < b; j++)
                if (r.state[j]) {
                    fillPattern(r.p + j * page, (u32) page, r.salt[j] = ++salt);
                    r.state[j] = 2;
                }
        } else {
            MemPage::free(r.p, r.n);
            SIM_CHECK(!sim::k::isMapped(r.p, page, false) && !sim::k::isMapped(r.p + r.n - page, page, false), "pages", "freed pages are still mapped");
            sim::Quiet q;
            rs.erase(rs.begin() + (&r - &rs[0]));
            sim::hit("page ranges freed");
        }
        sim::Quiet q;
        for (auto& o : rs)
            for (u32 j = 0; j < o.state.size(); j++) {
                char* p = o.p + j * page;
                bool m = sim::k::isMapped(p, page);
                SIM_CHECK(sim::k::isMapped(p, page, false), "pages", "a page was lost");
                SIM_CHECK(m == (o.state[j] > 0), "pages", "a page that %s committed is %saccessible", o.state[j] ? "was" : "was not", m ? "" : "not ");
                if (o.state[j] == 1)
                    SIM_CHECK(zeroed(p, (u32) page), "pages", "fresh page is not zero");
                if (o.state[j] == 2)
                    SIM_CHECK(samePattern(p, (u32) page, o.salt[j]), "pages", "the contents of a page changed");
            }
    }
    for (auto& r : rs)
        MemPage::free(r.p, r.n);
    SIM_CHECK(sim::k::mappedBytes() == 0, "pages", "%llu bytes are still mapped", (unsigned long long) sim::k::mappedBytes());
}

void c17() {
    {
        sim::Quiet q;
        st = new State;
    }
    sim::sched.raceDetect = true;
    sim::randomSchedule(W.below(3) == 0);
    sim::k::map.placement = W.below(4);
    static const u32 maxes[] = {2000, 100000, 1500000, 300, 30000};
    st->maxSize = maxes[W.below(5)];
    st->aligned = W.below(3) != 0;
    u32 kind = W.below(8);
    if (kind == 0) {
        pages();
        return;
    }
    if (kind == 1) {
        cycles();
        return;
    }
    u32 n = W.below(4);
    Mutex* mtx;
    {
        sim::Quiet q;
        mtx = new Mutex;
    }
    if (W.below(4) == 0) { // FIXME in init_mparams(): its flag is read without synchronization by several heaps
        st->numHeaps = 2;
        for (auto& h : heaps)
            PLY_HEAP_DIRECT(h).free(PLY_HEAP_DIRECT(h).alloc(1));
        sim::hit("two heaps");
    }
    if (!n)
        threadOps(20 + W.below(400), *mtx, true);
    else {
        std::vector<u32> ids;
        {
            sim::Quiet q;
            for (u32 i = 0; i <= n; i++)
                ids.push_back(sim::spawn("user", [=] {
                    threadOps(5 + W.below(60), *mtx, false);
                }));
        }
        for (u32 id : ids)
            sim::joinFiber(id);
        sim::hit("runs with threads");
    }
    PLY_HEAP_DIRECT(heaps[0]).free(nullptr);
    stats(true);
    freeAll();
    stats(true);
}
SIM_PROP("C17", c17, "heap");
} // namespace
