// Memory: arena heap with shadow, happens-before race detection, __tsan_* entry points.
#include "core.h"
#include <cstring>
#include <cstdlib>
#include <new>
#include <unistd.h>
#include <sys/mman.h>

extern "C" char __data_start, _end;

namespace sim {
static const u64 Base = 0x100000000000ull;
static const u64 StackArea = 64ull << 20;
static const u64 HeapArea = 512ull << 20;
static const u64 MapArea = 256ull << 20; // pages from the simulated mmap
static const u64 ArenaSize = StackArea + HeapArea + MapArea;
static unsigned char* shadow;  // one byte per 8 heap bytes: 0 never, 1..8 addressable, 0xFA redzone, 0xFD freed
struct Cell {
    u32 clk;
    unsigned char tid, mask, flags, pad; // flags: 1 write 2 atomic
    u64 pc;
};
static Cell* cells;     // 4 per granule of the arena
static Cell* dataCells; // 4 per granule of the data segment
static u64 dataLo, dataSize;
static u64 stackNext, heapNext;
static u64 liveBlocks;
struct Hdr {
    u64 size;
    u32 magic, id;
};
static u32 allocId;
static const u32 MagicLive = 0xA110CA7E, MagicFree = 0xF4EEF4EE;

static void* mapNR(u64 at, u64 n) {
    void* p = mmap((void*) at, n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED : 0), -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(3);
    }
    return p;
}
void heapInit() {
    mapNR(Base, ArenaSize);
    shadow = (unsigned char*) mapNR(0x200000000000ull, HeapArea / 8);
    cells = (Cell*) mapNR(0x300000000000ull, ArenaSize / 8 * 4 * sizeof(Cell));
    dataLo = (u64) &__data_start & ~7ull;
    dataSize = ((u64) &_end - dataLo + 7) & ~7ull;
    dataCells = (Cell*) mapNR(0x400000000000ull, dataSize / 8 * 4 * sizeof(Cell));
    stackNext = Base;
    heapNext = Base + StackArea;
    mprotect((void*) mapLo(), MapArea, PROT_NONE);
}
u64 mapLo() { return Base + StackArea + HeapArea; }
u64 mapSize() { return MapArea; }
bool inArena(const void* p) { return (u64) p - Base < ArenaSize; }
static inline bool inHeap(u64 a) { return a - Base - StackArea < HeapArea; }
char* stackAlloc(size_t n) {
    stackNext += 4096; // unmapped-ish gap (guard page)
    mprotect((void*) (stackNext - 4096), 4096, PROT_NONE);
    char* p = (char*) stackNext;
    stackNext += n;
    if (stackNext > Base + StackArea)
        discard("stack arena exhausted");
    return p;
}
static inline unsigned char& sh(u64 a) { return shadow[(a - Base - StackArea) >> 3]; }
void* arenaAlloc(size_t n, size_t align) {
    if (align < 16)
        align = 16;
    if (n > HeapArea / 2)
        return nullptr;
    u64 p = heapNext + sizeof(Hdr) + 16;
    p = (p + align - 1) & ~(u64) (align - 1);
    u64 end = (p + n + 15) & ~15ull;
    if (end + 32 > Base + StackArea + HeapArea)
        return nullptr;
    for (u64 a = heapNext; a < p; a += 8)
        sh(a) = 0xFA;
    u64 full = n / 8;
    memset(&sh(p), 8, full);
    if (n & 7)
        shadow[((p - Base - StackArea) >> 3) + full] = n & 7;
    for (u64 a = (p + n + 7) & ~7ull; a < end + 16; a += 8)
        sh(a) = 0xFA;
    heapNext = end;
    Hdr* h = (Hdr*) (p - sizeof(Hdr));
    h->size = n;
    h->magic = MagicLive;
    h->id = ++allocId;
    memset((void*) p, 0xCD, n);
    liveBlocks++;
    return (void*) p;
}
size_t arenaSize(void* p) { return ((Hdr*) ((char*) p - sizeof(Hdr)))->size; }
void arenaFree(void* p, void* pc) {
    Hdr* h = (Hdr*) ((char*) p - sizeof(Hdr));
    void* bp = __builtin_frame_address(0);
    if (!inHeap((u64) p) || ((u64) p & 15) || (h->magic != MagicLive && h->magic != MagicFree))
        violateAt(pc, bp, "heap-bad-free", "free of a pointer that was not allocated");
    if (h->magic == MagicFree)
        violateAt(pc, bp, "heap-double-free", "block #%u of %llu bytes freed twice", h->id, (unsigned long long) h->size);
    u64 n = h->size;
    if (sched.raceDetect && inSUT() && n <= 65536)
        for (u64 o = 0; o < n; o += 8)
            raceAccess((u64) p + o, (u32) (n - o < 8 ? n - o : 8), true, false, pc);
    h->magic = MagicFree;
    for (u64 a = (u64) p; a < (u64) p + n; a += 8)
        sh(a) = 0xFD;
    memset(p, 0xDD, n);
    liveBlocks--;
}
u64 heapLive() { return liveBlocks; }

static void badAccess(u64 a, u32 n, bool w, void* pc, void* bp) {
    // find out what was hit
    unsigned char s = sh(a);
    for (u32 i = 0; i < n; i++) {
        unsigned char t = sh(a + i);
        if (!(t >= 1 && t <= 8 && ((a + i) & 7) < t)) {
            s = t;
            break;
        }
    }
    if (s == 0xFD)
        violateAt(pc, bp, w ? "heap-use-after-free-write" : "heap-use-after-free-read", "%u-byte %s of freed memory", n, w ? "write" : "read");
    violateAt(pc, bp, w ? "heap-overflow-write" : "heap-overflow-read", "%u-byte %s outside any live block", n, w ? "write" : "read");
}
static inline void heapCheck(u64 a, u32 n, bool w, void* pc, void* bp) {
    unsigned char s = sh(a);
    u32 o = a & 7;
    if (o + n <= 8) {
        if (s <= 8 && o + n <= s)
            return;
    } else {
        bool ok = true;
        for (u64 g = a & ~7ull; g < a + n; g += 8) {
            unsigned char t = sh(g);
            u64 need = a + n - g < 8 ? a + n - g : 8;
            if (t > 8 || t < need) {
                ok = false;
                break;
            }
        }
        if (ok)
            return;
    }
    badAccess(a, n, w, pc, bp);
}
void heapCheckRange(const void* p, size_t n, bool write) {
    if (n && inHeap((u64) p))
        heapCheck((u64) p, (u32) n, write, __builtin_return_address(0), __builtin_frame_address(0));
}

static void raceReport(u64 a, const Cell& c, bool w, bool atomic, void* pc) {
    void* bp = __builtin_frame_address(0);
    const char* pk = (c.flags & 1) ? "write" : "read";
    violateAt(pc, bp, fmt("data-race prev=%#llx", (unsigned long long) c.pc).c_str(),
              "%s%s at %p by %s races with earlier %s%s by %s prevpc=%#llx", atomic ? "atomic " : "", w ? "write" : "read",
              (void*) a, cur->name.c_str(), (c.flags & 2) ? "atomic " : "", pk, fibers[c.tid]->name.c_str(),
              (unsigned long long) c.pc);
}
static inline Cell* cellsFor(u64 a) {
    if (a - Base < ArenaSize)
        return cells + ((a - Base) >> 3) * 4;
    if (a - dataLo < dataSize)
        return dataCells + ((a - dataLo) >> 3) * 4;
    return nullptr;
}
static u32 evict;
void raceAccess(u64 a, u32 n, bool write, bool atomic, void* pc) {
    Cell* c = cellsFor(a);
    if (!c)
        return;
    u32 o = a & 7;
    if (o + n > 8) { // crosses granules
        raceAccess(a, 8 - o, write, atomic, pc);
        raceAccess(a + 8 - o, n - (8 - o), write, atomic, pc);
        return;
    }
    unsigned char mask = (unsigned char) (((1u << n) - 1) << o);
    unsigned char flags = (write ? 1 : 0) | (atomic ? 2 : 0);
    u32 me = cur->id, myClk = cur->vc.c[me];
    int slot = -1;
    for (int i = 0; i < 4; i++) {
        Cell& k = c[i];
        if (!k.mask) {
            if (slot < 0)
                slot = i;
            continue;
        }
        if (k.tid == me) {
            if (k.mask == mask && (slot < 0 || c[slot].mask == 0) && ((k.flags & 1) <= (flags & 1)) && (k.flags & 2) >= (flags & 2))
                slot = i;
            continue;
        }
        if (k.clk <= cur->vc.c[k.tid]) { // ordered before us
            if ((slot < 0) && (k.mask & ~mask) == 0 && write)
                slot = i;
            continue;
        }
        if ((k.mask & mask) && (write || (k.flags & 1)) && !(atomic && (k.flags & 2)))
            raceReport(a, k, write, atomic, pc);
    }
    if (slot < 0)
        slot = (evict++) & 3;
    Cell& k = c[slot];
    k.clk = myClk;
    k.tid = (unsigned char) me;
    k.mask = mask;
    k.flags = flags;
    k.pc = (u64) pc;
}
void raceForgetRange(void* p, size_t n) {
    for (u64 a = (u64) p & ~7ull; a < (u64) p + n; a += 8) {
        Cell* c = cellsFor(a);
        if (c)
            memset(c, 0, 4 * sizeof(Cell));
    }
}
static const u64 AccessCap = 40000000;
static inline __attribute__((always_inline)) void access(u64 a, u32 n, bool w, void* pc, void* bp) {
    if (!simOn)
        return;
    Fiber* f = cur;
    if (f->quiet | f->inKernel)
        return;
    if (inHeap(a))
        heapCheck(a, n, w, pc, bp);
    if (sched.raceDetect)
        raceAccess(a, n, w, false, pc);
    if ((++accessCount & 0xFFFFF) == 0 && accessCount > AccessCap)
        violateAt(pc, bp, "no-progress", "no progress after %llu memory accesses", (unsigned long long) accessCount);
    if (--accessCountdown <= 0)
        accessPoint();
}
static void rangeAccess(const void* p, size_t n, bool w, void* pc, void* bp) {
    if (!simOn || !n)
        return;
    Fiber* f = cur;
    if (f->quiet | f->inKernel)
        return;
    u64 a = (u64) p;
    if (inHeap(a))
        heapCheck(a, (u32) n, w, pc, bp);
    if (sched.raceDetect) {
        u64 e = a + n;
        while (a < e) {
            u64 m = 8 - (a & 7);
            if (m > e - a)
                m = e - a;
            raceAccess(a, (u32) m, w, false, pc);
            a += m;
        }
    }
    accessCount += 1 + n / 64;
    if (--accessCountdown <= 0)
        accessPoint();
}
void sutRange(const void* p, size_t n, bool w, void* pc, void* bp) { rangeAccess(p, n, w, pc, bp); }
} // namespace sim

using namespace sim;
#define RA __builtin_return_address(0)
#define FA __builtin_frame_address(0)

extern "C" {
void __tsan_init() {}
#define RW(n)                                                                                      \
    void __tsan_read##n(void* a) { access((u64) a, n, false, RA, FA); }                            \
    void __tsan_write##n(void* a) { access((u64) a, n, true, RA, FA); }                            \
    void __tsan_unaligned_read##n(void* a) { access((u64) a, n, false, RA, FA); }                  \
    void __tsan_unaligned_write##n(void* a) { access((u64) a, n, true, RA, FA); }                  \
    void __tsan_read_write##n(void* a) { access((u64) a, n, true, RA, FA); }                       \
    void __tsan_unaligned_read_write##n(void* a) { access((u64) a, n, true, RA, FA); }             \
    void __tsan_volatile_read##n(void* a) { access((u64) a, n, false, RA, FA); }                   \
    void __tsan_volatile_write##n(void* a) { access((u64) a, n, true, RA, FA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v)
        access((u64) p, 8, true, RA, FA);
}
void __tsan_vptr_read(void** p) { access((u64) p, 8, false, RA, FA); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read_range(void* p, unsigned long n) { rangeAccess(p, n, false, RA, FA); }
void __tsan_write_range(void* p, unsigned long n) { rangeAccess(p, n, true, RA, FA); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    rangeAccess(s, n, false, RA, FA);
    rangeAccess(d, n, true, RA, FA);
    if (sutActive() && n && d != s && (char*) d < (const char*) s + n && (const char*) s < (char*) d + n && inSUT())
        violateAt(RA, FA, "memcpy-overlap", "memcpy of overlapping ranges");
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    rangeAccess(s, n, false, RA, FA);
    rangeAccess(d, n, true, RA, FA);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
    rangeAccess(d, n, true, RA, FA);
    return memset(d, c, n);
}

static std::unordered_map<u64, VClock>* atomClocks;
static VClock& atomClock(u64 a) {
    if (!atomClocks)
        atomClocks = new std::unordered_map<u64, VClock>;
    return (*atomClocks)[a];
}
static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static bool atomicEnter(void* p, u32 n, bool w, int mo, void* pc, void* bp) {
    if (!simOn || !cur || cur->quiet || cur->inKernel || inForkChild)
        return false;
    syncPoint();
    if (inHeap((u64) p))
        heapCheck((u64) p, n, w, pc, bp);
    accessCount++;
    if (sched.raceDetect)
        raceAccess((u64) p, n, w, true, pc);
    return true;
}
static void onLoad(void* p, int mo) {
    KernelScope ks;
    VClock& v = atomClock((u64) p);
    if (acq(mo))
        hbAcquire(v);
    else
        cur->acqFence.join(v);
}
static void onStore(void* p, int mo) {
    KernelScope ks;
    VClock& v = atomClock((u64) p);
    if (rel(mo)) {
        v = cur->vc;
        cur->vc.c[cur->id]++;
    } else
        v = cur->relFence;
}
static void onRmw(void* p, int mo) {
    KernelScope ks;
    VClock& v = atomClock((u64) p);
    VClock old = v;
    if (rel(mo)) {
        v.join(cur->vc);
        if (acq(mo))
            hbAcquire(old);
        else
            cur->acqFence.join(old);
        v.join(cur->vc);
        cur->vc.c[cur->id]++;
    } else {
        v.join(cur->relFence);
        if (acq(mo))
            hbAcquire(old);
        else
            cur->acqFence.join(old);
    }
}
#define ATOMIC(N, T)                                                                               \
    T __tsan_atomic##N##_load(const volatile T* a, int mo) {                                       \
        bool on = atomicEnter((void*) a, N / 8, false, mo, RA, FA);                                \
        T r = *a;                                                                                  \
        if (on)                                                                                    \
            onLoad((void*) a, mo);                                                                 \
        return r;                                                                                  \
    }                                                                                              \
    void __tsan_atomic##N##_store(volatile T* a, T v, int mo) {                                    \
        bool on = atomicEnter((void*) a, N / 8, true, mo, RA, FA);                                 \
        *a = v;                                                                                    \
        if (on)                                                                                    \
            onStore((void*) a, mo);                                                                \
    }                                                                                              \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) {                                    \
        bool on = atomicEnter((void*) a, N / 8, true, mo, RA, FA);                                 \
        T r = *a;                                                                                  \
        *a = v;                                                                                    \
        if (on)                                                                                    \
            onRmw((void*) a, mo);                                                                  \
        return r;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) {          \
        bool on = atomicEnter((void*) a, N / 8, true, mo, RA, FA);                                 \
        T r = *a;                                                                                  \
        if (r == e) {                                                                              \
            *a = v;                                                                                \
            if (on)                                                                                \
                onRmw((void*) a, mo);                                                              \
        } else if (on)                                                                             \
            onLoad((void*) a, fmo);                                                                \
        return r;                                                                                  \
    }                                                                                              \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) {    \
        T r = __tsan_atomic##N##_compare_exchange_val(a, *e, v, mo, fmo);                          \
        if (r == *e)                                                                               \
            return 1;                                                                              \
        *e = r;                                                                                    \
        return 0;                                                                                  \
    }                                                                                              \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) {      \
        if (inSUT() && !inForkChild && faultRate[FT_SPURIOUS] > 0 && fault(FT_SPURIOUS)) {         \
            T r = __tsan_atomic##N##_load(a, fmo);                                                 \
            *e = r;                                                                                \
            return 0;                                                                              \
        }                                                                                          \
        return __tsan_atomic##N##_compare_exchange_strong(a, e, v, mo, fmo);                       \
    }
#define ATOMIC_OP(N, T, name, expr)                                                                \
    T __tsan_atomic##N##_fetch_##name(volatile T* a, T v, int mo) {                                \
        bool on = atomicEnter((void*) a, N / 8, true, mo, RA, FA);                                 \
        T r = *a;                                                                                  \
        *a = (T) (expr);                                                                           \
        if (on)                                                                                    \
            onRmw((void*) a, mo);                                                                  \
        return r;                                                                                  \
    }
#define ATOMIC_ALL(N, T)                                                                           \
    ATOMIC(N, T)                                                                                   \
    ATOMIC_OP(N, T, add, r + v)                                                                    \
    ATOMIC_OP(N, T, sub, r - v)                                                                    \
    ATOMIC_OP(N, T, and, r& v)                                                                     \
    ATOMIC_OP(N, T, or, r | v)                                                                     \
    ATOMIC_OP(N, T, xor, r ^ v)                                                                    \
    ATOMIC_OP(N, T, nand, ~(r & v))
ATOMIC_ALL(8, uint8_t)
ATOMIC_ALL(16, uint16_t)
ATOMIC_ALL(32, uint32_t)
ATOMIC_ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!inSUT() || inForkChild)
        return;
    syncPoint();
    KernelScope ks;
    if (acq(mo))
        cur->vc.join(cur->acqFence);
    if (rel(mo)) {
        cur->relFence = cur->vc;
        cur->vc.c[cur->id]++;
    }
}
void __tsan_atomic_signal_fence(int) {}

//------------------------------------------------------------ allocation
static void* sutMalloc(size_t n, size_t al) {
    if (!inSUT())
        return nullptr;
    KernelScope ks;
    if (faultRate[FT_NOMEM] > 0 && false)
        return nullptr;
    return arenaAlloc(n, al);
}
void* sim_malloc(size_t n) {
    if (!inSUT())
        return malloc(n);
    return sutMalloc(n, 16);
}
void sim_free(void* p) {
    if (!p)
        return;
    if (inArena(p)) {
        void* pc = RA;
        arenaFree(p, pc);
    } else
        free(p);
}
void* sim_calloc(size_t a, size_t b) {
    void* p = sim_malloc(a * b);
    if (p)
        memset(p, 0, a * b);
    return p;
}
void* sim_realloc(void* p, size_t n) {
    if (!p)
        return sim_malloc(n);
    if (!inArena(p))
        return realloc(p, n);
    if (!n) {
        sim_free(p);
        return nullptr;
    }
    size_t old = arenaSize(p);
    void* q = inSUT() ? sutMalloc(n, 16) : nullptr;
    if (!q) {
        q = arenaAlloc(n);
        if (!q)
            return nullptr;
    }
    memcpy(q, p, old < n ? old : n);
    arenaFree(p, RA);
    return q;
}
int sim_posix_memalign(void** out, size_t al, size_t n) {
    if (!inSUT())
        return posix_memalign(out, al, n);
    *out = sutMalloc(n, al);
    return *out ? 0 : 12;
}
void* sim_aligned_alloc(size_t al, size_t n) {
    if (!inSUT())
        return aligned_alloc(al, n);
    return sutMalloc(n, al);
}
void* sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }

// library functions that read or write memory uninstrumented
#define RNG(p, n, w) rangeAccess(p, n, w, RA, FA)
int sim_memcmp(const void* a, const void* b, size_t n) {
    RNG(a, n, false);
    RNG(b, n, false);
    return memcmp(a, b, n);
}
int sim_bcmp(const void* a, const void* b, size_t n) {
    RNG(a, n, false);
    RNG(b, n, false);
    return memcmp(a, b, n);
}
size_t sim_strlen(const char* s) {
    size_t n = 0;
    if (inSUT() && inHeap((u64) s)) {
        // bytewise so that running off the block is detected
        for (;; n++) {
            heapCheck((u64) s + n, 1, false, RA, FA);
            if (!s[n])
                break;
        }
    } else
        n = strlen(s);
    return n;
}
void* sim_memchr(const void* s, int c, size_t n) {
    const void* r = memchr(s, c, n);
    RNG(s, r ? (const char*) r - (const char*) s + 1 : n, false);
    return (void*) r;
}
char* sim_strcpy(char* d, const char* s) {
    size_t n = sim_strlen(s) + 1;
    RNG(d, n, true);
    return (char*) memcpy(d, s, n);
}
char* sim_strncpy(char* d, const char* s, size_t n) {
    RNG(d, n, true);
    return strncpy(d, s, n);
}
int sim_strcmp(const char* a, const char* b) {
    sim_strlen(a);
    sim_strlen(b);
    return strcmp(a, b);
}

// emulated TLS, per fiber
struct EmutlsCtl {
    size_t size, align;
    void* obj;
    void* tmpl;
};
void* __emutls_get_address(void* ctlp) {
    EmutlsCtl* c = (EmutlsCtl*) ctlp;
    static std::map<void*, void*>* outside;
    KernelScope ks;
    if (!outside)
        outside = new std::map<void*, void*>;
    std::map<void*, void*>& m = (simOn && cur) ? cur->emutls : *outside;
    auto it = m.find(ctlp);
    if (it != m.end())
        return it->second;
    void* p;
    if (posix_memalign(&p, c->align < 16 ? 16 : c->align, c->size ? c->size : 1))
        abort();
    if (c->tmpl)
        memcpy(p, c->tmpl, c->size);
    else
        memset(p, 0, c->size);
    m[ctlp] = p;
    return p;
}
int sim___cxa_thread_atexit(void (*fn)(void*), void* obj, void*) {
    KernelScope ks;
    if (simOn && cur)
        cur->atexits.push_back({fn, obj});
    return 0;
}
} // extern "C"

// operator new/delete for the whole program
void* operator new(size_t n) {
    if (inSUT()) {
        KernelScope ks;
        void* p = arenaAlloc(n ? n : 1);
        if (!p)
            discard("arena exhausted");
        return p;
    }
    void* p = malloc(n ? n : 1);
    if (!p)
        abort();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept {
    if (!p)
        return;
    if (inArena(p))
        arenaFree(p, RA);
    else
        free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
extern "C" void sim_atomic_release_on(void* p) { onStore(p, 3); }
