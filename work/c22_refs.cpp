// C22: objects shared between threads by counted references live exactly as long as someone refers to
// them: destroyed once, when the last reference goes, and never touched or freed before.
#include "common.h"
#include <memory>
#include <ply-runtime/thread/Thread.h>
#include <ply-runtime/thread/Mutex.h>
#include <ply-runtime/container/Reference.h>
#include <ply-runtime/container/WeakRef.h>
#include <ply-runtime/container/Array.h>
#include <ply-runtime/string/String.h>
using namespace wl;

namespace {
void pause() {
    switch (W.below(8)) {
        case 0:
            sim::yield();
            break;
        case 1:
            sim::sleepNs(W.below(5000));
            break;
        default:
            break;
    }
}

// What the harness knows about one object. Counts are raised before a call that adds a reference and
// lowered before a call that drops one.
struct Rec {
    u32 id = 0;
    s32 strong = 0, weak = 0;
    bool shared = false; // more than one thread may know it
    u32 partial = 0, full = 0;
    bool partialDone = false;
    std::vector<Rec*> children; // changed under the mutex of the node
};
struct Env {
    std::vector<std::unique_ptr<Rec>> recs;
    u32 numPartial = 0, numFull = 0;
    Rec* make() {
        sim::Quiet q;
        recs.emplace_back(new Rec);
        recs.back()->id = (u32) recs.size();
        return recs.back().get();
    }
};
Env* env;
void more(Rec* r, int n = 1) {
    sim::Quiet q;
    if (r)
        r->strong += n;
}
void less(Rec* r) {
    sim::Quiet q;
    if (r)
        r->strong--;
}
void moreWeak(Rec* r, int n = 1) {
    sim::Quiet q;
    if (r)
        r->weak += n;
}
void markShared(Rec* r) {
    sim::Quiet q;
    if (r)
        r->shared = true;
}
bool isShared(Rec* r) {
    sim::Quiet q;
    return r->shared;
}

//---------------------------------------------------------------- strong references
struct Obj : RefCounted<Obj> {
    Rec* rec;
    u64 fixed[3];   // never changes: read without any lock
    Mutex mutex;
    u64 value = 0;  // changed under the mutex
    u64 writes = 0;
    String text;
    Reference<Obj> next; // fixed once the object is shared
    Rec* nextRec = nullptr;
    Reference<Obj>* back = nullptr; // cleared by the object when it is destroyed

    explicit Obj(Rec* rec) : rec{rec} {
        for (u32 i = 0; i < 3; i++)
            fixed[i] = rec->id * 0x9e3779b97f4a7c15ull + i;
        text = String::format("object {}", rec->id);
    }
    void onRefCountZero() {
        threadFenceAcquire();
        {
            sim::Quiet q;
            rec->full++;
            if (rec->full > 1)
                sim::violate("destroyed-once", "object %u was destroyed twice", rec->id);
            if (rec->strong > 0)
                sim::violate("destroyed-early", "object %u was destroyed while %d references to it exist", rec->id, rec->strong);
            env->numFull++;
        }
        SIM_CHECK(getRefCount() == 0, "count", "the count of an object is %d when it is destroyed", (int) getRefCount());
        check(true);
        SIM_CHECK(value == writes * 3, "contents", "a write made before a reference was dropped is lost");
        if (back) {
            back->clear();
            sim::hit("a destroyed object clears the reference that was dropped");
        }
        less(nextRec);
        pause();
        delete this;
    }
    void check(bool dying) {
        for (u32 i = 0; i < 3; i++)
            SIM_CHECK(fixed[i] == rec->id * 0x9e3779b97f4a7c15ull + i, "contents", "object %u is damaged", rec->id);
        SIM_CHECK(text.startsWith("object "), "contents", "object %u is damaged", rec->id);
        if (!dying)
            SIM_CHECK(getRefCount() > 0, "count", "an object that is referred to has count %d", (int) getRefCount());
        SIM_CHECK(rec->full == (dying ? 1u : 0u), "destroyed-early", "object %u is gone though referred to", rec->id);
    }
};
struct Slot {
    Reference<Obj> r;
    Rec* rec = nullptr;
};
struct Box {
    Mutex mutex;
    Slot slots[4];
};

struct Worker {
    Slot s[4];
    Box* box;
    const Reference<Obj>* root;
    Rec* rootRec;
    const u32 K = 4;

    void verify(Slot& x) {
        if (!x.rec) {
            SIM_CHECK(!x.r && x.r.isEmpty() && x.r.get() == nullptr, "handle", "an empty reference refers to something");
            return;
        }
        SIM_CHECK((bool) x.r && !x.r.isEmpty() && x.r.get() == x.r.operator->(), "handle", "a reference is empty");
        SIM_CHECK(x.r->rec == x.rec, "handle", "a reference refers to object %u instead of %u", x.r->rec->id, x.rec->id);
        x.r->check(false);
    }
    void drop(Slot& x) { // the harness' side of dropping
        less(x.rec);
        x.rec = nullptr;
    }
    void op() {
        Slot& a = s[W.below(K)];
        Slot& b = s[W.below(K)];
        switch (W.below(20)) {
            case 0:
            case 1: { // a new object
                Rec* n = env->make();
                more(n);
                Obj* o = new Obj(n);
                threadFenceRelease();
                if (W.below(2) && b.rec && b.rec != a.rec) { // in front of a list
                    more(b.rec);
                    o->next = b.r;
                    o->nextRec = b.rec;
                }
                drop(a);
                if (W.below(2))
                    a.r = o;
                else
                    a.r = Reference<Obj>{o};
                a.rec = n;
                break;
            }
            case 2: // copies
            case 3: {
                more(b.rec);
                Rec* n = b.rec;
                drop(a);
                a.r = b.r;
                a.rec = n;
                break;
            }
            case 4: {
                more(b.rec);
                Rec* n = b.rec;
                drop(a);
                a.r = b.r.get();
                a.rec = n;
                break;
            }
            case 5: {
                more(rootRec);
                drop(a);
                a.r = *root;
                a.rec = rootRec;
                break;
            }
            case 6: // moves
            case 7:
                if (&a != &b) {
                    Rec* n = b.rec;
                    b.rec = nullptr;
                    drop(a);
                    a.r = std::move(b.r);
                    a.rec = n;
                    SIM_CHECK(!b.r, "handle", "a reference that was moved from is not empty");
                }
                break;
            case 8: { // constructors
                more(b.rec);
                {
                    Reference<Obj> t{b.r};
                    pause();
                    Reference<Obj> u{std::move(t)};
                    SIM_CHECK(!t && u.get() == b.r.get(), "handle", "moving a reference went wrong");
                    pause();
                    less(b.rec);
                }
                break;
            }
            case 9:
                if (a.rec && !isShared(a.rec) && a.r->getRefCount() == 1 && W.below(2))
                    a.r->back = &a.r;
                drop(a);
                a.r.clear();
                break;
            case 10:
                if (a.rec && !isShared(a.rec) && a.r->getRefCount() == 1 && W.below(2))
                    a.r->back = &a.r;
                drop(a);
                a.r = nullptr;
                break;
            case 11: { // by hand
                if (a.rec) {
                    Rec* n = a.rec;
                    Obj* o = a.r.release();
                    SIM_CHECK(!a.r && o->rec == n, "handle", "release() went wrong");
                    pause();
                    more(n);
                    o->incRef();
                    less(n);
                    o->decRef();
                    pause();
                    a.rec = nullptr;
                    more(n);
                    Reference<Obj> t{o};
                    less(n);
                    o->decRef();
                    pause();
                    less(n);
                }
                break;
            }
            case 12:   // hand it to others
            case 13: {
                Slot& m = box->slots[W.below(4)];
                for (Rec* r = a.rec; r && !isShared(r);) { // and everything behind it
                    Obj* o = a.r;
                    while (o->rec != r)
                        o = o->next;
                    Rec* n = o->nextRec;
                    markShared(r);
                    r = n;
                }
                LockGuard<Mutex> g{box->mutex};
                switch (W.below(3)) {
                    case 0: {
                        more(a.rec);
                        Rec* n = a.rec;
                        drop(m);
                        m.r = a.r;
                        m.rec = n;
                        break;
                    }
                    case 1: {
                        Rec* n = a.rec;
                        a.rec = nullptr;
                        drop(m);
                        m.r = std::move(a.r);
                        m.rec = n;
                        break;
                    }
                    default: {
                        Rec* n = a.rec;
                        a.rec = m.rec;
                        m.rec = n;
                        Reference<Obj> t{std::move(a.r)};
                        a.r = std::move(m.r);
                        m.r = std::move(t);
                        break;
                    }
                }
                break;
            }
            case 14:
            case 15: {
                Slot& m = box->slots[W.below(4)];
                LockGuard<Mutex> g{box->mutex};
                more(m.rec);
                Rec* n = m.rec;
                drop(a);
                a.r = m.r;
                a.rec = n;
                break;
            }
            case 16: // go down the list, keeping the head only if others do
                if (a.rec) {
                    Rec* n = a.r->nextRec;
                    if (isShared(a.rec) || W.below(2) || a.r->getRefCount() > 1) {
                        more(n);
                        drop(a);
                        a.r = a.r->next;
                        sim::hit("assigned a reference held by the object it replaces");
                    } else {
                        a.r->nextRec = nullptr;
                        drop(a);
                        a.r = std::move(a.r->next);
                        sim::hit("moved a reference held by the object it replaces");
                    }
                    a.rec = n;
                }
                break;
            default: // use it
                if (a.rec) {
                    a.r->check(false);
                    LockGuard<Mutex> g{a.r->mutex};
                    a.r->value += 3;
                    pause();
                    a.r->writes++;
                }
                break;
        }
        verify(a);
        if (&a != &b)
            verify(b);
    }
    void finish() {
        for (Slot& x : s)
            drop(x);
        // the references go with this object
    }
};

void strongCase() {
    u64 base = sim::heapLive();
    {
        Box box;
        Rec* rootRec = env->make();
        more(rootRec);
        Reference<Obj> root{new Obj(rootRec)};
        markShared(rootRec);
        threadFenceRelease();
        u32 n = 1 + W.below(4);
        {
            Array<Thread> threads;
            for (u32 t = 0; t < n; t++) {
                u32 ops = 1 + W.below(40);
                threads.append([&, ops] {
                    Worker w;
                    w.box = &box;
                    w.root = &root;
                    w.rootRec = rootRec;
                    for (u32 i = 0; i < ops; i++) {
                        w.op();
                        pause();
                    }
                    w.finish();
                });
            }
            if (W.below(2)) { // the creator is not the last to let go of it
                for (u32 i = 0; i < 3; i++)
                    root->check(false);
            }
            for (Thread& t : threads)
                t.join();
        }
        // all quiet: the counts are exact
        for (Slot& m : box.slots)
            if (m.rec)
                SIM_CHECK(m.r->getRefCount() == m.rec->strong, "count", "the count of an object is %d instead of %d",
                          (int) m.r->getRefCount(), m.rec->strong);
        SIM_CHECK(root->getRefCount() == rootRec->strong, "count", "the count of an object is %d instead of %d",
                  (int) root->getRefCount(), rootRec->strong);
        for (auto& r : env->recs)
            SIM_CHECK((r->full != 0) == (r->strong == 0), "destroyed", "object %u has %d references and was destroyed %u times",
                      r->id, r->strong, r->full);
        for (Slot& m : box.slots)
            less(m.rec);
        less(rootRec);
    }
    for (auto& r : env->recs)
        SIM_CHECK(r->full == 1 && r->strong == 0, "destroyed", "object %u was never destroyed", r->id);
    SIM_CHECK(sim::heapLive() == base, "leak", "memory was left behind");
    sim::hit("strong references");
}

//---------------------------------------------------------------- strong and weak references
struct Node : DualRefCounted<Node> {
    Rec* rec;
    u64 fixed[2];
    bool alive = true; // contents exist
    String text;
    Mutex mutex;
    u64 value = 0, writes = 0;
    WeakRef<Node> parent; // fixed from the start
    Rec* parentRec = nullptr;
    Array<Reference<Node>> children; // changed under the mutex

    explicit Node(Rec* rec) : rec{rec} {
        fixed[0] = fixed[1] = rec->id * 0x9e3779b97f4a7c15ull;
        text = String::format("node {}", rec->id);
    }
    void onPartialRefCountZero() {
        threadFenceAcquire();
        {
            sim::Quiet q;
            rec->partial++;
            if (rec->partial > 1 || rec->full)
                sim::violate("destroyed-once", "the contents of node %u were destroyed twice", rec->id);
            if (rec->strong > 0)
                sim::violate("destroyed-early", "the contents of node %u were destroyed while %d references exist", rec->id, rec->strong);
            env->numPartial++;
        }
        SIM_CHECK(getRefCount() == 0, "count", "a node that is being destroyed has count %u", getRefCount());
        check();
        SIM_CHECK(value == writes * 5, "contents", "a write made before a reference was dropped is lost");
        for (Rec* c : rec->children)
            less(c);
        pause();
        children.clear(); // the children may drop their weak references to this
        pause();
        moreWeak(parentRec, -1);
        parent = nullptr;
        text.clear();
        alive = false;
        check();
        {
            sim::Quiet q;
            rec->partialDone = true;
        }
    }
    void onFullRefCountZero() {
        threadFenceAcquire();
        {
            sim::Quiet q;
            rec->full++;
            if (rec->full > 1)
                sim::violate("destroyed-once", "node %u was freed twice", rec->id);
            if (rec->weak > 0 || rec->strong > 0)
                sim::violate("destroyed-early", "node %u was freed while %d references and %d weak references exist", rec->id,
                             rec->strong, rec->weak);
            if (!rec->partialDone)
                sim::violate("destroyed-early", "node %u was freed while its contents were being destroyed", rec->id);
            env->numFull++;
        }
        SIM_CHECK(!alive, "contents", "a node is freed with its contents");
        SIM_CHECK(getRefCount() == 0 && getWeakRefCount() == 0, "count", "a node that is freed has counts");
        delete this;
    }
    void check() {
        SIM_CHECK(fixed[0] == rec->id * 0x9e3779b97f4a7c15ull && fixed[1] == fixed[0], "contents", "node %u is damaged", rec->id);
    }
    void checkAlive() {
        check();
        SIM_CHECK(getRefCount() > 0, "count", "a node that is referred to has count 0");
        SIM_CHECK(alive && text.startsWith("node "), "destroyed-early", "node %u lost its contents though referred to", rec->id);
    }
};
struct NSlot {
    Reference<Node> r;
    Rec* rec = nullptr;
    WeakRef<Node> w;
    Rec* wrec = nullptr;
};
struct NBox {
    Mutex mutex;
    NSlot slots[3];
};
struct NWorker {
    NSlot s[3];
    NBox* box;
    void dropS(NSlot& x) {
        less(x.rec);
        x.rec = nullptr;
    }
    void dropW(NSlot& x) {
        moreWeak(x.wrec, -1);
        x.wrec = nullptr;
    }
    void verify(NSlot& x) {
        SIM_CHECK((x.r.get() != nullptr) == (x.rec != nullptr), "handle", "a reference refers to something else");
        SIM_CHECK(((Node*) x.w != nullptr) == (x.wrec != nullptr), "handle", "a weak reference refers to something else");
        if (x.rec) {
            SIM_CHECK(x.r->rec == x.rec, "handle", "a reference refers to another node");
            x.r->checkAlive();
        }
        if (x.wrec) { // the node is still there, with or without its contents
            SIM_CHECK(x.w->rec == x.wrec, "handle", "a weak reference refers to another node");
            x.w->check();
            SIM_CHECK(x.w->getWeakRefCount() > 0, "count", "a node that is weakly referred to has weak count 0");
        }
    }
    void op() {
        NSlot& a = s[W.below(3)];
        NSlot& b = s[W.below(3)];
        NSlot& m = box->slots[W.below(3)];
        switch (W.below(20)) {
            case 0:
            case 1: {
                Rec* n = env->make();
                more(n);
                Node* o = new Node(n);
                Reference<Node> t{o};
                if (b.rec) {
                    // a child of b's node
                    moreWeak(b.rec);
                    o->parent.setFromNull(b.r);
                    o->parentRec = b.rec;
                    if (W.below(3)) {
                        LockGuard<Mutex> g{b.r->mutex};
                        more(n);
                        b.r->children.append(t);
                        sim::Quiet q;
                        b.rec->children.push_back(n);
                    }
                } else if (W.below(3) == 0) { // a weak reference to itself
                    moreWeak(n);
                    o->parent = o;
                    o->parentRec = n;
                }
                threadFenceRelease();
                dropS(a);
                a.r = std::move(t);
                a.rec = n;
                break;
            }
            case 2: {
                more(b.rec);
                Rec* n = b.rec;
                dropS(a);
                a.r = b.r;
                a.rec = n;
                break;
            }
            case 3:
                if (&a != &b) {
                    Rec* n = b.rec;
                    b.rec = nullptr;
                    dropS(a);
                    a.r = std::move(b.r);
                    a.rec = n;
                }
                break;
            case 4:
            case 5:
                dropS(a);
                a.r.clear();
                break;
            case 6:
            case 7: { // a weak reference to what b refers to
                moreWeak(b.rec);
                Rec* n = b.rec;
                dropW(a);
                a.w = b.r.get();
                a.wrec = n;
                break;
            }
            case 8: // copies of a weak reference, while the node is known to be alive
                if (b.wrec && b.wrec == b.rec) {
                    moreWeak(b.wrec);
                    Rec* n = b.wrec;
                    dropW(a);
                    a.w = b.w;
                    a.wrec = n;
                    moreWeak(n, 1);
                    WeakRef<Node> t{b.w};
                    pause();
                    moreWeak(n, -1);
                }
                break;
            case 9:
                if (&a != &b) {
                    Rec* n = b.wrec;
                    b.wrec = nullptr;
                    dropW(a);
                    a.w = std::move(b.w);
                    a.wrec = n;
                }
                break;
            case 10:
            case 11:
                dropW(a);
                a.w = nullptr;
                break;
            case 12:
                if (a.wrec) { // through a temporary
                    Rec* n = a.wrec;
                    a.wrec = nullptr;
                    WeakRef<Node> t{std::move(a.w)};
                    SIM_CHECK(!(Node*) a.w, "handle", "a weak reference that was moved from is not empty");
                    pause();
                    moreWeak(n, -1);
                }
                break;
            case 13:
            case 14: { // swap with the box
                LockGuard<Mutex> g{box->mutex};
                std::swap(a.rec, m.rec);
                std::swap(a.wrec, m.wrec);
                Reference<Node> t{std::move(a.r)};
                a.r = std::move(m.r);
                m.r = std::move(t);
                WeakRef<Node> w{std::move(a.w)};
                a.w = std::move(m.w);
                m.w = std::move(w);
                break;
            }
            case 15:
            case 16: {
                LockGuard<Mutex> g{box->mutex};
                more(m.rec);
                Rec* n = m.rec;
                dropS(a);
                a.r = m.r;
                a.rec = n;
                if (n) {
                    moreWeak(n);
                    dropW(a);
                    a.w = a.r.get();
                    a.wrec = n;
                }
                break;
            }
            case 17: // down to a child
                if (a.rec) {
                    LockGuard<Mutex> g{a.r->mutex};
                    u32 n = a.r->children.numItems();
                    if (n) {
                        u32 i = W.below(n);
                        Rec* c = a.rec->children[i];
                        more(c);
                        NSlot& d = &b == &a ? s[(&a - s + 1) % 3] : b;
                        dropS(d);
                        d.r = a.r->children[i];
                        d.rec = c;
                        if (W.below(2)) {
                            less(c);
                            a.r->children.erase(i);
                            sim::Quiet q;
                            a.rec->children.erase(a.rec->children.begin() + i);
                        }
                    }
                }
                break;
            default:
                if (a.rec) {
                    LockGuard<Mutex> g{a.r->mutex};
                    a.r->value += 5;
                    pause();
                    a.r->writes++;
                    if (a.r->parentRec) // the parent is still there
                        a.r->parent->check();
                }
                break;
        }
        verify(a);
        if (&a != &b)
            verify(b);
    }
};

void weakCase() {
    u64 base = sim::heapLive();
    {
        NBox box;
        u32 n = 1 + W.below(4);
        Array<Thread> threads;
        for (u32 t = 0; t < n; t++) {
            u32 ops = 1 + W.below(40);
            threads.append([&box, ops] {
                NWorker w;
                w.box = &box;
                for (u32 i = 0; i < ops; i++) {
                    w.op();
                    pause();
                }
                for (NSlot& x : w.s) {
                    w.dropS(x);
                    w.dropW(x);
                }
            });
        }
        for (Thread& t : threads)
            t.join();
        for (NSlot& m : box.slots) {
            if (m.rec)
                SIM_CHECK((s32) m.r->getRefCount() == m.rec->strong, "count", "the count of a node is %u instead of %d",
                          m.r->getRefCount(), m.rec->strong);
            if (m.wrec)
                SIM_CHECK((s32) m.w->getWeakRefCount() == m.wrec->weak, "count", "the weak count of a node is %u instead of %d",
                          m.w->getWeakRefCount(), m.wrec->weak);
        }
        for (auto& r : env->recs) {
            SIM_CHECK((r->partial != 0) == (r->strong == 0), "destroyed",
                      "node %u has %d references and its contents were destroyed %u times", r->id, r->strong, r->partial);
            SIM_CHECK((r->full != 0) == (r->strong == 0 && r->weak == 0), "destroyed",
                      "node %u has %d references and %d weak ones and was freed %u times", r->id, r->strong, r->weak, r->full);
        }
        for (NSlot& m : box.slots) {
            less(m.rec);
            moreWeak(m.wrec, -1);
        }
    }
    for (auto& r : env->recs)
        SIM_CHECK(r->partial == 1 && r->full == 1 && r->strong == 0 && r->weak == 0, "destroyed", "node %u was never freed", r->id);
    SIM_CHECK(sim::heapLive() == base, "leak", "memory was left behind");
    sim::hit("weak references");
}

void run() {
    Env e;
    env = &e;
    sim::randomSchedule(true);
    sim::sched.raceDetect = true;
    sim::faultRate[sim::FT_STALL] = W.below(3) ? 0 : 0.01;
    if (W.below(2))
        strongCase();
    else
        weakCase();
    sim::hit("objects", e.recs.size());
}
SIM_PROP("C22", run, "counted references between threads");
} // namespace
