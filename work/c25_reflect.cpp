// C25: reflected objects that are saved and loaded come back equal, also if their types have changed.
#include "common.h"
#include <ply-runtime/io/impl/Pipe_FD.h>
#include <ply-runtime/thread/Thread.h>
#include <ply-runtime/filesystem/FileSystem.h>
#include <ply-reflect/Base.h>
#include <ply-reflect/AnyOwnedObject.h>
#include <ply-reflect/AnyObject_Def.h>
#include <algorithm>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <memory>
using namespace wl;

namespace {
// ---- types of the model; each has a descriptor made at run time (or is a C++ type)
enum K { Prim, Str, Fixed, Arr, Own, Raw, Strct, Enm, EnmArr, Sw, TArr, Saved, AnyOwn };
const char* kindNames[] = {"number", "string", "fixed array", "array", "owned", "pointer", "struct", "enum", "enum-indexed array", "switch", "typed array", "saved object", "owned object"};
struct Ty;
struct Member {
    std::string name;
    Ty* ty = nullptr;
    u32 offset = 0;
};
struct Ty {
    K k = Prim;
    FormatKey prim = FormatKey::U32;
    std::string name;
    u32 n = 0;
    Ty* item = nullptr;        // of arrays, target of pointers
    Ty* en = nullptr;          // of an enum-indexed array
    std::vector<Member> mem;   // members, states
    std::vector<std::pair<std::string, u32>> ids; // of an enum
    u32 bytes = 4;             // of an enum
    TypeDescriptor* td = nullptr;
    bool native = false;
};
typedef __int128 i128;
struct Val {
    bool known = true;
    bool isF = false;
    i128 i = 0;
    double d = 0;
    std::string s;
    std::vector<Val*> items; // items, members, the owned object
    u32 state = 0;
    Val* link = nullptr;
    Ty* dyn = nullptr; // type of the object in it, of the items of a typed array
    bool null = false;
    void* addr = nullptr;
};
struct GenSwitch { // only for the constructor of TypeDescriptor_Switch
    u16 id;
    u64 storage;
};
enum class GenEnum : u8 { Only, Count };
} // namespace
PLY_DECLARE_TYPE_DESCRIPTOR(GenEnum)
PLY_ENUM_BEGIN(, GenEnum)
PLY_ENUM_IDENTIFIER(Only)
PLY_ENUM_END()
PLY_DECLARE_TYPE_DESCRIPTOR(GenSwitch)
PLY_DEFINE_TYPE_DESCRIPTOR(GenSwitch) {
    return nullptr;
}
namespace {

std::atomic<u32> postCalls{0};

struct World {
    std::vector<std::unique_ptr<Ty>> types;
    std::vector<std::unique_ptr<Val>> vals;
    u32 names = 0;
    u32 budget = 0;
    bool synth = false; // typed arrays and saved objects
    std::vector<std::pair<Ty*, Ty*>> versions; // struct as written and as read

    Ty* ty(K k) {
        types.emplace_back(new Ty);
        types.back()->k = k;
        return types.back().get();
    }
    Val* val() {
        if (vals.size() > 100000)
            sim::discard("too large");
        vals.emplace_back(new Val);
        return vals.back().get();
    }
    std::string freshName() {
        static const char* stems[] = {"x", "value", "m_items", "a_rather_long_member_name", "\xc3\xa9t\xc3\xa9", "Is", "p"};
        std::string n = stems[W.below(7)] + std::to_string(names++);
        if (W.chance(0.01))
            n += std::string(W.below(3000), 'y');
        return n;
    }
};

// ---- descriptors
TypeDescriptor* primDesc(FormatKey k) {
    switch (k) {
        case FormatKey::Bool:
            return getTypeDescriptor<bool>();
        case FormatKey::S8:
            return getTypeDescriptor<s8>();
        case FormatKey::S16:
            return getTypeDescriptor<s16>();
        case FormatKey::S32:
            return getTypeDescriptor<s32>();
        case FormatKey::S64:
            return getTypeDescriptor<s64>();
        case FormatKey::U8:
            return getTypeDescriptor<u8>();
        case FormatKey::U16:
            return getTypeDescriptor<u16>();
        case FormatKey::U32:
            return getTypeDescriptor<u32>();
        case FormatKey::U64:
            return getTypeDescriptor<u64>();
        case FormatKey::Float:
            return getTypeDescriptor<float>();
        default:
            return getTypeDescriptor<double>();
    }
}
NativeBindings switchBindings() {
    return {
        [](TypeDescriptor*) -> AnyObject { return {}; },
        [](AnyObject) {},
        [](AnyObject obj) {
            auto* t = obj.type->cast<TypeDescriptor_Switch>();
            *(u16*) obj.data = 0;
            AnyObject{PLY_PTR_OFFSET(obj.data, t->storageOffset), t->states[0].structType}.construct();
        },
        [](AnyObject obj) {
            auto* t = obj.type->cast<TypeDescriptor_Switch>();
            AnyObject{PLY_PTR_OFFSET(obj.data, t->storageOffset), t->states[*(u16*) obj.data].structType}.destruct();
        },
        [](AnyObject, AnyObject) {},
        [](AnyObject, const AnyObject) {},
    };
}
u32 alignUp(u32 v, u32 a) {
    return (v + a - 1) / a * a;
}
void setSize(TypeDescriptor* td, u32 size, u32 align) {
    td->fixedSize = size;
    td->alignment = align;
}
// The descriptor of a type whose item types have theirs (a struct that is still being made has
// one whose size isn't known yet; then it is only used by arrays and pointers).
void describe(Ty* t) {
    switch (t->k) {
        case Prim:
            t->td = primDesc(t->prim);
            break;
        case Str:
            t->td = getTypeDescriptor<String>();
            break;
        case Fixed:
            t->td = new TypeDescriptor_FixedArray{t->item->td, t->n};
            break;
        case Arr:
            t->td = new TypeDescriptor_Array{t->item->td};
            break;
        case Own: {
            auto* o = new TypeDescriptor_Owned{(u32*) nullptr};
            o->targetType = t->item->td;
            t->td = o;
            break;
        }
        case Raw:
            t->td = new TypeDescriptor_RawPtr{t->item->td};
            break;
        case Strct: {
            auto* s = t->td->cast<TypeDescriptor_Struct>();
            u32 off = 0, al = 1;
            for (Member& m : t->mem) {
                off = alignUp(off, m.ty->td->alignment);
                m.offset = off;
                s->members.append({String{sv(m.name)}, off, m.ty->td});
                off += m.ty->td->fixedSize;
                al = std::max(al, m.ty->td->alignment);
            }
            setSize(s, alignUp(off, al), al);
            s->onPostSerialize = [](void*) { postCalls++; };
            break;
        }
        case Enm: {
            auto* e = new TypeDescriptor_Enum{(u32*) nullptr, "", {}};
            e->name = sv(t->name);
            for (auto& id : t->ids)
                e->identifiers.append({String{sv(id.first)}, id.second});
            setSize(e, t->bytes, t->bytes);
            t->td = e;
            break;
        }
        case EnmArr: {
            auto* a = new TypeDescriptor_EnumIndexedArray{(u8*) nullptr, (GenEnum*) nullptr};
            a->itemType = t->item->td;
            a->enumType = t->en->td->cast<TypeDescriptor_Enum>();
            setSize(a, t->item->td->fixedSize * (u32) t->en->ids.size(), t->item->td->alignment);
            t->td = a;
            break;
        }
        case Sw: {
            auto* s = new TypeDescriptor_Switch{(GenSwitch*) nullptr, sv(t->name)};
            u32 size = 0, al = 2;
            for (u32 i = 0; i < t->mem.size(); i++) {
                Member& m = t->mem[i];
                s->states.append({String{sv(m.name)}, (u16) i, m.ty->td->cast<TypeDescriptor_Struct>()});
                size = std::max(size, m.ty->td->fixedSize);
                al = std::max(al, m.ty->td->alignment);
            }
            s->storageOffset = (u16) alignUp(2, al);
            s->bindings = switchBindings();
            setSize(s, alignUp(s->storageOffset + size, al), al);
            t->td = s;
            break;
        }
        case TArr:
            t->td = getTypeDescriptor<TypedArray>();
            break;
        case Saved:
            t->td = getTypeDescriptor<AnySavedObject>();
            break;
        case AnyOwn:
            t->td = getTypeDescriptor<AnyOwnedObject>();
            break;
    }
}

#ifdef DUMP_TYPES
std::string dump(Ty* t, u32 depth = 0) {
    std::string r = std::string(kindNames[t->k]) + "/" + std::to_string(t->td->fixedSize) + "/" + std::to_string(t->td->alignment);
    if (depth > 12)
        return r + "...";
    if (t->item)
        r += " of " + dump(t->item, depth + 3);
    for (Member& m : t->mem)
        r += "\n" + std::string(depth * 2 + 2, ' ') + m.name + " @" + std::to_string(m.offset) + ": " + dump(m.ty, depth + 1);
    return r;
}
#endif

struct Gen {
    World& w;
    bool links, any, recursion;
    std::vector<Ty*> open;    // structs that are being made
    std::vector<Ty*> structs; // complete ones
    std::vector<Ty*> enums;
    std::set<Ty*> linked; // targets of pointers
    std::set<Ty*> inner;  // structs that refer to one that contains them

    Ty* prim() {
        Ty* t = w.ty(Prim);
        t->prim = (FormatKey)((u32) FormatKey::Bool + W.below(11));
        describe(t);
        return t;
    }
    Ty* enm(bool sequential) {
        if (!sequential && enums.size() && W.chance(0.4))
            return enums[W.below((u32) enums.size())];
        Ty* t = w.ty(Enm);
        t->name = W.chance(0.2) ? "" : w.freshName();
        t->bytes = 1u << W.below(3);
        u32 n = 1 + W.below(5);
        if (W.chance(0.05))
            n = t->bytes > 1 && !sequential ? 250 + W.below(20) : 50;
        std::set<u32> used;
        for (u32 i = 0; i < n; i++) {
            u32 v = i;
            if (!sequential)
                do {
                    v = t->bytes == 1 ? W.below(256) : t->bytes == 2 ? W.below(65536) : W.next();
                } while (!used.insert(v).second);
            t->ids.push_back({w.freshName(), v});
        }
        describe(t);
        if (!sequential)
            enums.push_back(t);
        return t;
    }
    Ty* strct(u32 depth, u32 maxMem = 6) {
        Ty* t = w.ty(Strct);
        t->name = w.freshName();
        t->td = new TypeDescriptor_Struct{0, 0, sv(t->name)};
        open.push_back(t);
        u32 n = W.below(maxMem + 1);
        for (u32 i = 0; i < n; i++) {
            Ty* m = type(depth + 1);
            if (m)
                t->mem.push_back({w.freshName(), m, 0});
        }
        // Pointers know the objects they refer to by their position in the file.
        if (links)
            t->mem.insert(t->mem.begin() + W.below((u32) t->mem.size() + 1), {w.freshName(), prim(), 0});
        open.pop_back();
        finish(t);
        return t;
    }
    void finish(Ty* t) {
        describe(t);
        if (!inner.count(t))
            structs.push_back(t);
    }
    Ty* target(u32 depth) { // of an owned pointer
        if (recursion && open.size() && W.chance(0.2))
            return nullptr; // only through arrays
        switch (W.below(6)) {
            case 0:
                return prim();
            case 1: {
                Ty* t = w.ty(Str);
                describe(t);
                return t;
            }
            case 2:
                if (structs.size())
                    return structs[W.below((u32) structs.size())];
                // fallthrough
            default:
                return strct(depth + 1);
        }
    }
    Ty* of(K k, Ty* item, u32 n = 0) {
        Ty* t = w.ty(k);
        t->item = item;
        t->n = n;
        describe(t);
        return t;
    }
    // Types that can be made up from what the file says about them.
    Ty* plain(u32 depth) {
        switch (depth > 3 ? W.below(2) : W.below(6)) {
            case 0:
            case 1:
                return prim();
            case 2: {
                Ty* t = w.ty(Str);
                describe(t);
                return t;
            }
            case 3:
                return of(Arr, plain(depth + 1));
            case 4: {
                Ty* i = plain(depth + 1);
                return of(Fixed, i, 1 + W.below(4));
            }
            default:
                return plainStruct(depth);
        }
    }
    Ty* plainStruct(u32 depth) {
        Ty* t = w.ty(Strct);
        t->name = w.freshName();
        t->td = new TypeDescriptor_Struct{0, 0, sv(t->name)};
        u32 n = W.below(5);
        for (u32 i = 0; i < n; i++)
            t->mem.push_back({w.freshName(), plain(depth + 1), 0});
        describe(t);
        return t;
    }
    Ty* type(u32 depth) {
        if (w.budget)
            w.budget--;
        u32 pick = depth > 5 || !w.budget ? W.below(4) : W.below(20);
        switch (pick) {
            case 0:
            case 1:
            case 2:
                return prim();
            case 3: {
                Ty* t = w.ty(Str);
                describe(t);
                return t;
            }
            case 4: {
                Ty* i = type(depth + 1);
                return i && !isOpen(i) ? of(Fixed, i, W.chance(0.1) ? 0 : 1 + W.below(4)) : i;
            }
            case 5:
            case 6: {
                if (recursion && W.chance(0.3)) {
                    u32 i = W.below((u32) open.size());
                    Ty* s = open[i];
                    inner.insert(open.begin() + i + 1, open.end());
                    return of(Arr, W.chance(0.5) ? s : of(Own, s));
                }
                Ty* i = type(depth + 1);
                return i ? of(Arr, i) : i;
            }
            case 7:
            case 8: {
                Ty* i = target(depth);
                return i ? of(Own, i) : prim();
            }
            case 9:
            case 10:
                if (links && linked.size()) {
                    auto it = linked.begin();
                    std::advance(it, W.below((u32) linked.size()));
                    return of(Raw, *it);
                }
                // fallthrough
            case 11:
            case 12:
                if (structs.size() && W.chance(0.5))
                    return structs[W.below((u32) structs.size())];
                return strct(depth + 1);
            case 13:
            case 14:
                return enm(false);
            case 15: {
                Ty* t = w.ty(EnmArr);
                t->item = type(depth + 1);
                t->en = enm(true);
                describe(t);
                return t;
            }
            case 16:
            case 17: {
                Ty* t = w.ty(Sw);
                t->name = w.freshName();
                u32 n = 1 + W.below(4);
                for (u32 i = 0; i < n; i++)
                    t->mem.push_back({w.freshName(), strct(depth + 1, 3), 0});
                describe(t);
                return t;
            }
            case 18: {
                if (!any)
                    return prim();
                Ty* t = w.ty(AnyOwn);
                describe(t);
                return t;
            }
            default: {
                if (!w.synth)
                    return prim();
                Ty* t = w.ty(W.chance(0.5) ? TArr : Saved);
                describe(t);
                return t;
            }
        }
    }
    bool isOpen(Ty* t) {
        return std::find(open.begin(), open.end(), t) != open.end();
    }
    Ty* root() {
        Ty* t = w.ty(Strct);
        t->name = w.freshName();
        t->td = new TypeDescriptor_Struct{0, 0, sv(t->name)};
        std::vector<Member> own;
        if (links) { // at least one target for each kind of pointer
            u32 n = 1 + W.below(2);
            for (u32 i = 0; i < n; i++) {
                Ty* s = W.chance(0.2) ? prim() : strct(3, 3);
                linked.insert(s);
                own.push_back({w.freshName(), of(Own, s), 0});
                if (W.chance(0.6))
                    own.push_back({w.freshName(), of(Arr, of(Own, s)), 0});
                if (W.chance(0.7))
                    own.push_back({w.freshName(), of(Arr, of(Raw, s)), 0});
            }
        }
        open.push_back(t);
        u32 n = W.below(7) + (W.chance(0.05) ? 30 : 0);
        for (u32 i = 0; i < n; i++) {
            Ty* m = type(1);
            if (m)
                t->mem.push_back({w.freshName(), m, 0});
        }
        for (Member& m : own)
            t->mem.insert(t->mem.begin() + W.below((u32) t->mem.size() + 1), m);
        open.pop_back();
        finish(t);
        return t;
    }

    // ---- values
    std::vector<std::pair<Ty*, Val*>> owned; // targets
    std::vector<std::pair<Ty*, Val*>> raws;
    u32 size = 0;

    Val* value(Ty* t, u32 depth) {
        Val* v = w.val();
        if (++size > 8000)
            sim::discard("too large");
        switch (t->k) {
            case Prim:
                number(t->prim, v);
                break;
            case Str:
                v->s = W.chance(0.03) ? randBytes(W.below(6000)) : randBytes(W.below(12));
                break;
            case Fixed:
                for (u32 i = 0; i < t->n; i++)
                    v->items.push_back(value(t->item, depth + 1));
                break;
            case Arr: {
                u32 n = depth > 7 || size > 1500 ? 0 : W.below(5);
                if (depth < 4 && (t->item->k == Prim || t->item->k == Enm || t->item->k == Raw) && W.chance(0.1))
                    n = W.below(700);
                for (u32 i = 0; i < n; i++)
                    v->items.push_back(value(t->item, depth + 1));
                break;
            }
            case Own:
                v->items.push_back(value(t->item, depth + 1));
                owned.push_back({t->item, v->items[0]});
                break;
            case Raw:
                raws.push_back({t->item, v});
                break;
            case Strct:
                for (Member& m : t->mem)
                    v->items.push_back(value(m.ty, depth + 1));
                break;
            case Enm:
                v->i = t->ids[W.below((u32) t->ids.size())].second;
                break;
            case EnmArr:
                for (u32 i = 0; i < t->en->ids.size(); i++)
                    v->items.push_back(value(t->item, depth + 1));
                break;
            case Sw:
                v->state = W.below((u32) t->mem.size());
                v->items.push_back(value(t->mem[v->state].ty, depth + 1));
                break;
            case TArr: {
                v->dyn = plain(depth > 4 ? 3 : 1);
                u32 n = W.below(5);
                for (u32 i = 0; i < n; i++)
                    v->items.push_back(value(v->dyn, depth + 1));
                break;
            }
            case Saved:
                v->dyn = W.chance(0.3) ? prim() : plainStruct(2);
                v->items.push_back(value(v->dyn, depth + 1));
                break;
            case AnyOwn:
                if (W.chance(0.3)) {
                    v->null = true;
                } else {
                    v->dyn = W.chance(0.3) ? prim() : structs.size() && W.chance(0.5) && depth < 6 ? structs[W.below((u32) structs.size())] : plainStruct(2);
                    v->items.push_back(value(v->dyn, depth + 1));
                }
                break;
        }
        return v;
    }
    static void number(FormatKey k, Val* v) {
        auto r64 = [] { return (u64) W.next() << 32 | W.next(); };
        u64 x = W.below(4) ? W.below(256) : W.below(2) ? r64() >> W.below(64) : ~0ull - W.below(3);
        switch (k) {
            case FormatKey::Bool:
                v->i = x & 1;
                break;
            case FormatKey::S8:
                v->i = (s8) x;
                break;
            case FormatKey::S16:
                v->i = (s16) x;
                break;
            case FormatKey::S32:
                v->i = (s32) x;
                break;
            case FormatKey::S64:
                v->i = (s64) x;
                break;
            case FormatKey::U8:
                v->i = (u8) x;
                break;
            case FormatKey::U16:
                v->i = (u16) x;
                break;
            case FormatKey::U32:
                v->i = (u32) x;
                break;
            case FormatKey::U64:
                v->i = x;
                break;
            default:
                v->isF = true;
                v->d = W.chance(0.1) ? (W.chance(0.5) ? -1e30 : 3e300) : ((double) (s64) (x & 0xffffffff) - 1e5) / (W.chance(0.5) ? 1 : 64);
                if (k == FormatKey::Float)
                    v->d = (float) (fabs(v->d) > 1e35 ? 1e35 : v->d);
        }
    }
    void link() {
        for (auto& r : raws) {
            std::vector<Val*> c;
            for (auto& o : owned)
                if (o.first == r.first)
                    c.push_back(o.second);
            r.second->link = c[W.below((u32) c.size())]; // the root has one of each kind
        }
    }
};

// ---- the type as it is when the file is read
struct Evolve {
    World& w;
    Gen& g;
    double rate;
    bool keepOwned; // targets of pointers have to survive
    std::map<Ty*, Ty*> memo;

    bool holdsLinks(Ty* t, std::set<Ty*>& seen) {
        if (!seen.insert(t).second)
            return false;
        if (t->k == Own || t->k == Raw || t->k == AnyOwn)
            return true;
        if (t->item && holdsLinks(t->item, seen))
            return true;
        for (Member& m : t->mem)
            if (holdsLinks(m.ty, seen))
                return true;
        return false;
    }
    bool mayGo(Ty* t) {
        std::set<Ty*> seen;
        return !keepOwned || !holdsLinks(t, seen);
    }
    Ty* type(Ty* a, bool sameKind = false) {
        auto it = memo.find(a);
        if (it != memo.end())
            return it->second;
        if (a->native)
            return memo[a] = a;
        if (a->k != Strct && !sameKind && W.chance(rate * 0.1) && mayGo(a)) { // something else
            w.budget = 3;
            bool l = g.links, r = g.recursion;
            g.links = g.recursion = false;
            Ty* t = g.type(5);
            g.links = l;
            g.recursion = r;
            return t ? t : g.prim();
        }
        Ty* b = w.ty(a->k);
        memo[a] = b;
        b->prim = a->prim;
        b->name = a->name;
        b->n = a->n;
        b->bytes = a->bytes;
        b->ids = a->ids;
        switch (a->k) {
            case Prim:
                if (W.chance(rate * 0.3))
                    b->prim = (FormatKey)((u32) FormatKey::Bool + W.below(11));
                break;
            case Fixed:
                if (W.chance(rate * 0.2) && mayGo(a))
                    b->n = W.below(5);
                b->item = type(a->item);
                break;
            case Strct:
                return strct(a, b);
            case Enm: {
                if (W.chance(rate * 0.5))
                    identifiers(b, false);
                break;
            }
            case EnmArr: {
                b->item = type(a->item);
                b->en = w.ty(Enm);
                b->en->name = a->en->name;
                b->en->bytes = a->en->bytes;
                b->en->ids = a->en->ids;
                if (W.chance(rate * 0.5)) {
                    identifiers(b->en, true, !mayGo(a));
                }
                describe(b->en);
                break;
            }
            case Sw: {
                b->mem = a->mem;
                for (Member& m : b->mem)
                    m.ty = type(m.ty);
                if (W.chance(rate * 0.5)) {
                    for (u32 i = 0; i < b->mem.size(); i++)
                        std::swap(b->mem[i], b->mem[W.below((u32) b->mem.size())]);
                    if (W.chance(0.3) && b->mem.size() > 1 && mayGo(b->mem[0].ty))
                        b->mem.erase(b->mem.begin());
                    if (W.chance(0.3)) {
                        bool l = g.links, r = g.recursion;
                        g.links = g.recursion = false;
                        w.budget = 3;
                        b->mem.insert(b->mem.begin() + W.below((u32) b->mem.size() + 1), {w.freshName(), g.strct(4, 2), 0});
                        g.links = l;
                        g.recursion = r;
                    }
                }
                break;
            }
            default:
                if (a->item)
                    b->item = type(a->item, a->k == Own || a->k == Raw); // (an array can't be created on its own)
        }
        describe(b);
        return b;
    }
    void identifiers(Ty* b, bool sequential, bool keep = false) {
        for (u32 i = 0; i < b->ids.size(); i++)
            std::swap(b->ids[i], b->ids[W.below((u32) b->ids.size())]);
        if (!keep && W.chance(0.4) && b->ids.size() > 1)
            b->ids.pop_back();
        while (W.chance(0.4) && b->ids.size() < 250) {
            u32 v;
            do
                v = W.below(256);
            while (std::any_of(b->ids.begin(), b->ids.end(), [&](auto& id) { return id.second == v; }));
            b->ids.insert(b->ids.begin() + W.below((u32) b->ids.size() + 1), {w.freshName(), v});
        }
        if (!sequential && W.chance(0.4) && b->bytes < 4)
            b->bytes *= 2;
        if (sequential)
            for (u32 i = 0; i < b->ids.size(); i++)
                b->ids[i].second = i;
    }
    Ty* strct(Ty* a, Ty* b) {
        b->td = new TypeDescriptor_Struct{0, 0, sv(b->name)};
        b->mem = a->mem;
        if (W.chance(rate)) {
            if (W.chance(0.5))
                for (u32 i = 0; i < b->mem.size(); i++)
                    std::swap(b->mem[i], b->mem[W.below((u32) b->mem.size())]);
            for (u32 i = 0; i < b->mem.size(); i++)
                if (W.chance(0.2) && mayGo(b->mem[i].ty)) {
                    if (W.chance(0.3))
                        b->mem[i].name = w.freshName();
                    else
                        b->mem.erase(b->mem.begin() + i--);
                }
        }
        for (Member& m : b->mem)
            m.ty = type(m.ty);
        if (W.chance(rate * 0.5)) {
            bool l = g.links, r = g.recursion;
            g.links = g.recursion = false;
            w.budget = 3;
            Ty* m = g.type(4);
            g.links = l;
            g.recursion = r;
            if (m)
                b->mem.insert(b->mem.begin() + W.below((u32) b->mem.size() + 1), {w.freshName(), m, 0});
        }
        describe(b);
        w.versions.push_back({a, b});
        return b;
    }
};

// ---- what reading has to make of it
struct Convert {
    World& w;
    std::map<Ty*, Ty*> memo;          // written type -> type as read, for objects of any type
    std::map<Val*, std::pair<Val*, Ty*>> targets; // owned objects
    std::vector<std::pair<Val*, Ty*>> raws;
    u32 structsRead = 0;

    Val* def(Ty* b, bool zeroed) {
        Val* v = w.val();
        switch (b->k) {
            case Prim:
                v->isF = b->prim == FormatKey::Float || b->prim == FormatKey::Double;
                v->known = zeroed;
                break;
            case Fixed:
                for (u32 i = 0; i < b->n; i++)
                    v->items.push_back(def(b->item, zeroed));
                break;
            case Own:
            case Raw:
            case AnyOwn:
                v->null = true;
                break;
            case Strct:
                for (Member& m : b->mem)
                    v->items.push_back(def(m.ty, true));
                break;
            case Enm:
                v->known = zeroed;
                break;
            case EnmArr:
                for (u32 i = 0; i < b->en->ids.size(); i++)
                    v->items.push_back(def(b->item, zeroed));
                break;
            case Sw:
                v->items.push_back(def(b->mem[0].ty, true));
                break;
            case Saved:
                v->null = true;
                break;
            default:
                break;
        }
        return v;
    }
    static bool fits(const Val* v, FormatKey k, Val* out) {
        if (k == FormatKey::Float || k == FormatKey::Double) {
            double d = v->isF ? v->d : (double) v->i;
            out->isF = true;
            if (k == FormatKey::Float) {
                if (fabs(d) > 1e36)
                    return false;
                d = (float) d;
            }
            out->d = d;
            return v->isF ? d == v->d : (i128) d == v->i;
        }
        i128 x = v->i;
        if (v->isF) {
            if (fabs(v->d) > 1e17 || floor(v->d) != v->d)
                return false;
            x = (i128) v->d;
        }
        u32 bits = 64;
        bool sgn = false;
        switch (k) {
            case FormatKey::Bool:
                out->i = x != 0;
                return x >= 0 && x <= 0xffffffffll;
            case FormatKey::S8:
                bits = 8, sgn = true;
                break;
            case FormatKey::S16:
                bits = 16, sgn = true;
                break;
            case FormatKey::S32:
                bits = 32, sgn = true;
                break;
            case FormatKey::S64:
                sgn = true;
                break;
            case FormatKey::U8:
                bits = 8;
                break;
            case FormatKey::U16:
                bits = 16;
                break;
            case FormatKey::U32:
                bits = 32;
                break;
            default:
                break;
        }
        out->i = x;
        i128 lo = sgn ? -((i128) 1 << (bits - 1)) : 0, hi = ((i128) 1 << (sgn ? bits - 1 : bits)) - 1;
        return x >= lo && x <= hi;
    }
    Val* conv(Val* v, Ty* a, Ty* b, bool zeroed) {
        bool typed = (a->k == Saved || a->k == AnyOwn) && (b->k == Saved || b->k == AnyOwn);
        if (a->k != b->k && !typed) {
            sim::hit("members of another kind");
            return def(b, zeroed);
        }
        Val* r = def(b, zeroed);
        switch (b->k) {
            case Prim:
                r->known = fits(v, b->prim, r);
                if (a->prim != b->prim)
                    sim::hit("numbers converted");
                break;
            case Str:
                r->s = v->s;
                break;
            case Fixed:
                if (a->n == b->n)
                    for (u32 i = 0; i < b->n; i++)
                        r->items[i] = conv(v->items[i], a->item, b->item, zeroed);
                break;
            case Arr:
                for (Val* x : v->items)
                    r->items.push_back(conv(x, a->item, b->item, false));
                break;
            case Own: {
                r->null = false;
                Val* x = conv(v->items[0], a->item, b->item, false);
                r->items.push_back(x);
                targets[v->items[0]] = {x, b->item};
                break;
            }
            case Raw:
                r->null = false;
                r->link = v->link; // replaced below
                raws.push_back({r, b->item});
                break;
            case Strct:
                structsRead++;
                for (u32 i = 0; i < b->mem.size(); i++) {
                    u32 j = 0;
                    while (j < a->mem.size() && a->mem[j].name != b->mem[i].name)
                        j++;
                    if (j < a->mem.size())
                        r->items[i] = conv(v->items[j], a->mem[j].ty, b->mem[i].ty, true);
                }
                break;
            case Enm: {
                std::string name;
                for (auto& id : a->ids)
                    if (id.second == (u32) v->i) {
                        name = id.first;
                        break;
                    }
                for (auto& id : b->ids)
                    if (id.first == name) {
                        r->i = id.second;
                        r->known = true;
                        return r;
                    }
                sim::hit("unknown enum values");
                break;
            }
            case EnmArr:
                for (u32 i = 0; i < b->en->ids.size(); i++)
                    for (u32 j = 0; j < a->en->ids.size(); j++)
                        if (a->en->ids[j].first == b->en->ids[i].first)
                            r->items[i] = conv(v->items[j], a->item, b->item, zeroed);
                break;
            case Sw:
                for (u32 i = 0; i < b->mem.size(); i++)
                    if (b->mem[i].name == a->mem[v->state].name) {
                        r->state = i;
                        r->items[0] = conv(v->items[0], a->mem[v->state].ty, b->mem[i].ty, true);
                        return r;
                    }
                sim::hit("unknown states");
                break;
            case TArr:
                r->dyn = v->dyn;
                for (Val* x : v->items)
                    r->items.push_back(same(x, v->dyn));
                break;
            case Saved:
            case AnyOwn: {
                r->null = v->null;
                if (v->null) {
                    unsupported |= b->k == Saved;
                    break;
                }
                if (b->k == Saved) {
                    unsupported |= !madeUp(v->dyn);
                    r->dyn = v->dyn;
                    r->items.push_back(same(v->items[0], v->dyn));
                } else {
                    auto it = memo.find(v->dyn);
                    r->dyn = it == memo.end() ? v->dyn : it->second;
                    r->items.push_back(conv(v->items[0], v->dyn, r->dyn, false));
                }
                break;
            }
        }
        return r;
    }
    bool unsupported = false;
    static bool madeUp(Ty* t, u32 depth = 0) { // can be made up from what the file says about it
        if ((t->k > Arr && t->k != Strct) || depth > 20)
            return false;
        if (t->item && !madeUp(t->item, depth + 1))
            return false;
        for (Member& m : t->mem)
            if (!madeUp(m.ty, depth + 1))
                return false;
        return true;
    }
    Val* same(Val* v, Ty* t) {
        std::map<Ty*, Ty*> none;
        none.swap(memo);
        u32 n = structsRead;
        Val* r = conv(v, t, t, false);
        structsRead = n; // made-up structs have no function to call
        none.swap(memo);
        return r;
    }
    bool link() { // false: something refers to an object that isn't there any more
        for (auto& r : raws) {
            auto it = targets.find(r.first->link);
            if (it == targets.end() || it->second.second != r.second)
                return false;
            r.first->link = it->second.first;
        }
        return true;
    }
};

// ---- objects
struct Build {
    std::vector<std::pair<void**, Val*>> raws;
    std::vector<Reference<TypeDescriptorOwner>> owners;

    TypeDescriptorOwner* owner(TypeDescriptor* td) {
        TypeDescriptorOwner* o = new TypeDescriptorOwner;
        o->setRootType(td);
        owners.emplace_back(o);
        return o;
    }
    void num(void* p, FormatKey k, const Val* v) {
        switch (k) {
            case FormatKey::Bool:
                *(bool*) p = v->i != 0;
                break;
            case FormatKey::S8:
            case FormatKey::U8:
                *(u8*) p = (u8) v->i;
                break;
            case FormatKey::S16:
            case FormatKey::U16:
                *(u16*) p = (u16) v->i;
                break;
            case FormatKey::S32:
            case FormatKey::U32:
                *(u32*) p = (u32) v->i;
                break;
            case FormatKey::S64:
            case FormatKey::U64:
                *(u64*) p = (u64) v->i;
                break;
            case FormatKey::Float:
                *(float*) p = (float) v->d;
                break;
            default:
                *(double*) p = v->d;
        }
    }
    void fill(void* p, Ty* t, Val* v) {
        switch (t->k) {
            case Prim:
                num(p, t->prim, v);
                break;
            case Str:
                *(String*) p = sv(v->s);
                break;
            case Fixed:
            case EnmArr:
                for (u32 i = 0; i < v->items.size(); i++)
                    fill(PLY_PTR_OFFSET(p, t->item->td->fixedSize * i), t->item, v->items[i]);
                break;
            case Arr: {
                auto* a = (details::BaseArray*) p;
                u32 n = (u32) v->items.size(), sz = t->item->td->fixedSize;
                a->realloc(n, sz);
                for (u32 i = 0; i < n; i++) {
                    AnyObject{PLY_PTR_OFFSET(a->m_items, sz * i), t->item->td}.construct();
                    fill(PLY_PTR_OFFSET(a->m_items, sz * i), t->item, v->items[i]);
                }
                break;
            }
            case Own: {
                AnyObject o = AnyObject::create(t->item->td);
                *(void**) p = v->items[0]->addr = o.data;
                fill(o.data, t->item, v->items[0]);
                break;
            }
            case Raw:
                raws.push_back({(void**) p, v->link});
                break;
            case Strct:
                for (u32 i = 0; i < t->mem.size(); i++)
                    fill(PLY_PTR_OFFSET(p, t->mem[i].offset), t->mem[i].ty, v->items[i]);
                break;
            case Enm:
                if (t->bytes == 1)
                    *(u8*) p = (u8) v->i;
                else if (t->bytes == 2)
                    *(u16*) p = (u16) v->i;
                else
                    *(u32*) p = (u32) v->i;
                break;
            case Sw: {
                auto* s = t->td->cast<TypeDescriptor_Switch>();
                s->ensureStateIs({p, s}, (u16) v->state);
                fill(PLY_PTR_OFFSET(p, s->storageOffset), t->mem[v->state].ty, v->items[0]);
                break;
            }
            case TArr: {
                auto* a = (TypedArray*) p;
                a->create(owner(v->dyn->td), (u32) v->items.size());
                for (u32 i = 0; i < v->items.size(); i++)
                    fill(a->getItem(i).data, v->dyn, v->items[i]);
                break;
            }
            case Saved: {
                auto* s = (AnySavedObject*) p;
                s->owned = AnyObject::create(v->dyn->td);
                s->typeOwner = owner(v->dyn->td);
                fill(s->owned.data, v->dyn, v->items[0]);
                break;
            }
            case AnyOwn:
                if (!v->null) {
                    auto* o = (AnyOwnedObject*) p;
                    *o = AnyObject::create(v->dyn->td);
                    fill(o->data, v->dyn, v->items[0]);
                }
                break;
        }
    }
    void link() {
        for (auto& r : raws)
            *r.first = r.second->addr;
    }
};

// Compares an object with what is expected; returns what is different.
struct Compare {
    std::vector<std::pair<void**, Val*>> raws;
    std::string diff(const std::string& path, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
        char buf[200];
        va_list a;
        va_start(a, fmt);
        vsnprintf(buf, sizeof buf, fmt, a);
        va_end(a);
        return (path.size() ? path : std::string("the object")) + ": " + buf;
    }
    std::string num(void* p, FormatKey k, const Val* v, const std::string& path) {
        i128 x = 0;
        double d = 0;
        bool f = false;
        switch (k) {
            case FormatKey::Bool:
                x = *(u8*) p;
                break;
            case FormatKey::S8:
                x = *(s8*) p;
                break;
            case FormatKey::U8:
                x = *(u8*) p;
                break;
            case FormatKey::S16:
                x = *(s16*) p;
                break;
            case FormatKey::U16:
                x = *(u16*) p;
                break;
            case FormatKey::S32:
                x = *(s32*) p;
                break;
            case FormatKey::U32:
                x = *(u32*) p;
                break;
            case FormatKey::S64:
                x = *(s64*) p;
                break;
            case FormatKey::U64:
                x = *(u64*) p;
                break;
            case FormatKey::Float:
                d = *(float*) p;
                f = true;
                break;
            default:
                d = *(double*) p;
                f = true;
        }
        if (f ? d != v->d : x != v->i)
            return f ? diff(path, "%.17g instead of %.17g", d, v->d) : diff(path, "%lld instead of %lld", (long long) x, (long long) v->i);
        return "";
    }
    // `td` is the type that the object has, which for made-up types isn't that of the model.
    std::string cmp(void* p, TypeDescriptor* td, Ty* t, Val* v, const std::string& path) {
        std::string r;
        if (!v->known)
            return r;
        switch (t->k) {
            case Prim:
                if (td->typeKey != t->td->typeKey)
                    return diff(path, "has another type");
                return num(p, t->prim, v, path);
            case Str:
                if (td->typeKey != t->td->typeKey)
                    return diff(path, "isn't a string");
                if (str(*(String*) p) != v->s)
                    return diff(path, "'%s' instead of '%s'", sim::escape(str(*(String*) p), 40).c_str(), sim::escape(v->s, 40).c_str());
                return r;
            case Fixed:
            case EnmArr: {
                TypeDescriptor* it;
                u32 stride;
                if (t->k == Fixed) {
                    auto* f = td->cast<TypeDescriptor_FixedArray>();
                    if (f->numItems != t->n)
                        return diff(path, "has %u items instead of %u", f->numItems, t->n);
                    it = f->itemType;
                    stride = f->stride;
                } else {
                    it = td->cast<TypeDescriptor_EnumIndexedArray>()->itemType;
                    stride = it->fixedSize;
                }
                for (u32 i = 0; i < v->items.size() && r.empty(); i++)
                    r = cmp(PLY_PTR_OFFSET(p, stride * i), it, t->item, v->items[i], path + "[" + std::to_string(i) + "]");
                return r;
            }
            case Arr: {
                auto* a = (details::BaseArray*) p;
                TypeDescriptor* it = td->cast<TypeDescriptor_Array>()->itemType;
                if (a->m_numItems != v->items.size())
                    return diff(path, "has %u items instead of %zu", a->m_numItems, v->items.size());
                for (u32 i = 0; i < v->items.size() && r.empty(); i++)
                    r = cmp(PLY_PTR_OFFSET(a->m_items, it->fixedSize * i), it, t->item, v->items[i], path + "[" + std::to_string(i) + "]");
                return r;
            }
            case Own: {
                void* q = *(void**) p;
                if (!q != v->null)
                    return diff(path, q ? "isn't null" : "is null");
                if (!q)
                    return r;
                v->items[0]->addr = q;
                return cmp(q, td->cast<TypeDescriptor_Owned>()->targetType, t->item, v->items[0], path + "->");
            }
            case Raw:
                if (v->null)
                    return *(void**) p ? diff(path, "isn't null") : r;
                raws.push_back({(void**) p, v->link});
                return r;
            case Strct: {
                auto* s = td->cast<TypeDescriptor_Struct>();
                if (s->members.numItems() != t->mem.size())
                    return diff(path, "has %u members instead of %zu", s->members.numItems(), t->mem.size());
                for (u32 i = 0; i < v->items.size() && r.empty(); i++) {
                    if (str(s->members[i].name) != t->mem[i].name)
                        return diff(path, "has no member '%s'", sim::escape(t->mem[i].name, 40).c_str());
                    r = cmp(PLY_PTR_OFFSET(p, s->members[i].offset), s->members[i].type, t->mem[i].ty, v->items[i], path + "." + t->mem[i].name.substr(0, 12));
                }
                return r;
            }
            case Enm: {
                u32 x = t->bytes == 1 ? *(u8*) p : t->bytes == 2 ? *(u16*) p : *(u32*) p;
                return x == (u32) v->i ? r : diff(path, "enum value %u instead of %u", x, (u32) v->i);
            }
            case Sw: {
                auto* s = td->cast<TypeDescriptor_Switch>();
                if (*(u16*) p != v->state)
                    return diff(path, "in state %u instead of %u", *(u16*) p, v->state);
                return cmp(PLY_PTR_OFFSET(p, s->storageOffset), s->states[v->state].structType, t->mem[v->state].ty, v->items[0], path + "(" + t->mem[v->state].name.substr(0, 12) + ")");
            }
            case TArr: {
                auto* a = (TypedArray*) p;
                if (a->numItems() != v->items.size())
                    return diff(path, "has %u items instead of %zu", a->numItems(), v->items.size());
                for (u32 i = 0; i < v->items.size() && r.empty(); i++) {
                    AnyObject it = a->getItem(i);
                    r = cmp(it.data, it.type, v->dyn, v->items[i], path + "[" + std::to_string(i) + "]");
                }
                return r;
            }
            case Saved: {
                auto* s = (AnySavedObject*) p;
                if (v->null)
                    return s->owned.data ? diff(path, "isn't empty") : r;
                if (!s->owned.data)
                    return diff(path, "is empty");
                if (s->typeOwner->getRootType() != s->owned.type)
                    return diff(path, "has a type that nobody owns");
                return cmp(s->owned.data, s->owned.type, v->dyn, v->items[0], path + "*");
            }
            case AnyOwn: {
                auto* o = (AnyOwnedObject*) p;
                if (v->null)
                    return o->data ? diff(path, "isn't null") : r;
                if (!o->data)
                    return diff(path, "is null");
                if (o->type != v->dyn->td)
                    return diff(path, "has type '%s' instead of '%s'", str(o->type->getName().view()).c_str(), str(v->dyn->td->getName().view()).c_str());
                return cmp(o->data, o->type, v->dyn, v->items[0], path + "*");
            }
        }
        return r;
    }
    std::string links() {
        for (auto& r : raws)
            if (*r.first != r.second->addr)
                return "a pointer refers to another object";
        return "";
    }
};

struct Resolver : PersistentTypeResolver {
    std::map<std::string, TypeDescriptor*> byName;
    virtual TypeDescriptor* getType(FormatDescriptor* f) override {
        if (f->formatKey == (u8) FormatKey::Struct) {
            auto it = byName.find(str(static_cast<FormatDescriptor_Struct*>(f)->name));
            SIM_CHECK(it != byName.end(), "schema", "the struct of an object has the name '%s' in the file", sim::escape(str(static_cast<FormatDescriptor_Struct*>(f)->name), 60).c_str());
            return it->second;
        }
        return primDesc((FormatKey) f->formatKey);
    }
};

// One object (or several, one after the other) to be written.
struct Asset {
    World w;
    std::unique_ptr<Gen> g;
    Ty* a = nullptr;
    Ty* b = nullptr;
    std::vector<Val*> vals, want;
    std::vector<AnyObject> objs;
    Build build;
    Resolver resolver;
    u32 structsRead = 0;
    bool leaky = false;

    Asset(bool synth) {
        w.synth = synth;
        w.budget = 5 + W.below(40);
        bool links = W.chance(0.4), any = W.chance(0.5), rec = W.chance(0.4);
        g.reset(new Gen{w, links, any, rec});
        a = g->root();

        u32 n = W.chance(0.8) ? 1 : 2 + W.below(3);
        for (u32 i = 0; i < n; i++) {
            vals.push_back(g->value(a, 0));
            g->link();
            g->owned.clear();
            g->raws.clear();
            AnyObject o = AnyObject::create(a->td);
            build.fill(o.data, a, vals[i]);
            build.link();
            build.raws.clear();
            objs.push_back(o);
        }
        Evolve e{w, *g, W.chance(0.3) ? 0.0 : W.chance(0.5) ? 0.3 : 1.0, links && W.chance(0.8)};
        Gen keep = *g;
        for (u32 tries = 0;; tries++) {
            if (tries == 3)
                e.rate = 0;
            e.memo.clear();
            w.versions.clear();
            b = e.rate == 0 && W.chance(0.7) ? a : e.type(a);
            want.clear();
            structsRead = 0;
            bool ok = true;
            for (Val* v : vals) {
                Convert c{w, e.memo};
                want.push_back(c.conv(v, a, b, false));
                structsRead += c.structsRead;
                ok &= c.link() && !c.unsupported;
            }
            if (ok)
                break;
        }
        if (a != b)
            sim::hit("changed types");
        for (size_t i = w.types.size(); i-- > 0;) // (original types win over versions that were given up)
            if (w.types[i]->k == Strct)
                resolver.byName[w.types[i]->name] = w.types[i]->td;
        for (auto& v : w.versions)
            resolver.byName[v.first->name] = v.second->td;
        if (a == b)
            resolver.byName[a->name] = a->td;
        sim::hit("values", g->size);
#ifdef DUMP_TYPES
        std::string d = "WRITTEN " + dump(a) + "\nREAD " + dump(b) + "\n";
        for (size_t p = 0, e; p < d.size(); p = e + 1) {
            e = d.find(10, p);
            sim::log("%s", d.substr(p, e - p).c_str());
        }
#endif
    }
    void write(OutStream* out) {
        if (vals.size() == 1 && W.chance(0.8)) {
            writeAsset(out, objs[0]);
            return;
        }
        // As writeAsset does, with several objects.
        WriteFormatContext fmt{out};
        MemOutStream mem;
        WriteObjectContext ctx{&mem, &fmt};
        for (AnyObject& o : objs)
            writeObject(o, &ctx);
        fmt.endSchema();
        String bin = mem.moveToString();
        resolveLinksAndWriteLinkTable({bin.bytes, bin.numBytes}, out, &ctx.ptrResolver);
        out->write(bin);
        sim::hit("several objects in one file", objs.size() > 1);
    }
    void verify(AnyObject o, u32 i) {
        SIM_CHECK(o.data, "absent", "object %u of %zu isn't there", i, vals.size());
        SIM_CHECK(o.type == b->td, "wrong-type", "object %u has another type", i);
        Compare c;
        std::string d = c.cmp(o.data, o.type, b, want[i], "");
        if (d.empty())
            d = c.links();
        SIM_CHECK(d.empty(), "different", "%s", d.c_str());
    }
    void read(InStream* in, bool last) {
        u32 posts = postCalls;
        if (vals.size() == 1 && W.chance(0.8)) {
            AnyObject o = W.chance(0.5) ? readExpectedOrResolved(in) : readAsset(in, &resolver);
            verify(o, 0);
            o.destroy();
        } else {
            Schema schema;
            readSchema(schema, in);
            ReadObjectContext ctx{&schema, in, &resolver};
            readLinkTable(&ctx.in, &ctx.ptrResolver);
            ctx.ptrResolver.objDataOffset = (u32) in->getSeekPos();
            std::vector<AnyObject> os;
            for (u32 i = 0; i < vals.size(); i++)
                os.push_back(readObject(&ctx));
            if (last) {
                AnyObject o = readObject(&ctx);
                SIM_CHECK(!o.data, "no-end", "an object was read after the last one");
            }
            resolveLinks(&ctx.ptrResolver);
            for (u32 i = 0; i < vals.size(); i++)
                verify(os[i], i);
            for (AnyObject& o : os)
                o.destroy();
        }
        if (single)
            SIM_CHECK(postCalls - posts == structsRead, "post-serialize", "%u structs were told that they have been read instead of %u", postCalls - posts, structsRead);
    }
    bool single = true;
    bool usesAny(Ty* t, std::set<Ty*>& seen) {
        if (!seen.insert(t).second)
            return false;
        if (t->k == AnyOwn)
            return true;
        if (t->item && usesAny(t->item, seen))
            return true;
        for (Member& m : t->mem)
            if (usesAny(m.ty, seen))
                return true;
        return false;
    }
    AnyObject readExpectedOrResolved(InStream* in) {
        std::set<Ty*> s;
        if (usesAny(b, s) || usesAny(a, s)) // (the expected type would be used for objects of any type, too)
            return readAsset(in, &resolver);
        return readExpectedAsset(in, b->td);
    }
    ~Asset() {
        for (AnyObject& o : objs)
            o.destroy();
    }
};

void session(bool synth, bool single, u32 id) {
    std::vector<std::unique_ptr<Asset>> assets;
    u32 n = W.chance(0.7) ? 1 : 2 + W.below(2);
    for (u32 i = 0; i < n; i++) {
        assets.emplace_back(new Asset{synth});
        assets.back()->single = single;
    }
    std::string prefix = randBytes(W.chance(0.7) ? 0 : W.below(600));
    auto writeAll = [&](OutStream* out) {
        out->write(sv(prefix));
        for (auto& a : assets)
            a->write(out);
    };
    auto readAll = [&](InStream* in) {
        std::string p(prefix.size(), 0);
        in->read({&p[0], (u32) p.size()});
        SIM_CHECK(p == prefix, "prefix", "what precedes the object is different");
        for (auto& a : assets)
            a->read(in, &a == &assets.back());
        SIM_CHECK(!in->tryMakeBytesAvailable(), "leftover", "bytes are left after the object");
    };
    std::string file;
    auto readBack = [&] {
        u32 pick = W.below(3);
        // (the first time that types are made up, they are kept)
        for (u32 again = 0; again < (synth ? 2 : 1); again++) {
            bool gone = false;
            u64 base = sim::heapLive();
            if (pick == 0) {
                ViewInStream vins{sv(file)};
                readAll(&vins);
            } else {
                FragInPipe pipe{&file, file.size(), 1 + (W.below(3) ? W.below(40) : W.below(5000)), &gone};
                InStream in{borrow(&pipe), 7 + W.below(7)};
                readAll(&in);
            }
            if (single && (!synth || again))
                SIM_CHECK(sim::heapLive() == base, "leak", "%lld bytes were left behind", (long long) (sim::heapLive() - base));
        }
    };
    u32 how = W.below(4);
    if (how == 0) { // in memory
        MemOutStream out;
        writeAll(&out);
        file = str(out.moveToString());
        readBack();
        sim::hit("objects from memory", assets.size());
    } else if (how == 1) { // a stream whose destination may fail
        u64 failAt = W.chance(0.3) ? W.below(3000) : ~0ull;
        {
            RecOutPipe pipe{&file, failAt};
            OutStream out{borrow(&pipe), 7 + W.below(7)};
            writeAll(&out);
            bool ok = out.flush(false);
            SIM_CHECK(ok == !out.atEOF(), "flush", "flush returned %d, atEOF is %d", ok, out.atEOF());
            SIM_CHECK(ok || file.size() == failAt, "false-failure", "writing failed after %zu bytes, although the destination accepts %llu", file.size(), (unsigned long long) failAt);
            if (!ok) {
                sim::hit("destinations that failed");
                return;
            }
        }
        readBack();
        sim::hit("objects from pieces", assets.size());
    } else { // a file
        std::string path = "/asset" + std::to_string(id);
        FileSystem* fs = FileSystem::native();
        u64 errs = sim::errFaults();
        {
            Owned<OutStream> out = fs->openStreamForWrite(sv(path));
            if (!out) {
                SIM_CHECK(sim::errFaults() > errs || sim::k::diskFree >= 0, "open", "the file can't be created");
                return;
            }
            writeAll(out);
            out->flush(false);
            if (out->atEOF()) {
                sim::hit("files that couldn't be written");
                return;
            }
        }
        Owned<InStream> in = fs->openStreamForRead(sv(path));
        SIM_CHECK((bool) in, "open", "the file can't be opened");
        readAll(in);
        sim::hit("objects from files", assets.size());
    }
}

void run() {
    sim::randomSchedule(false);
    if (W.chance(0.6)) {
        sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0.1 : 0;
        sim::faultRate[sim::FT_SHORT_READ] = W.below(2) ? 0.3 : 0;
        sim::faultRate[sim::FT_SHORT_WRITE] = W.below(2) ? 0.3 : 0;
        sim::faultRate[sim::FT_WRITE_ERR] = W.below(4) ? 0 : 0.02;
        sim::k::io.maxRead = W.below(2) ? 1 + W.below(500) : 0;
    }
    if (W.chance(0.15))
        sim::k::diskFree = W.below(4000);
    bool synth = W.chance(0.4);
    u32 n = synth || W.chance(0.6) ? 1 : 2 + W.below(2);
    if (n == 1) {
        session(synth, true, 0);
    } else {
        Array<Thread> threads;
        for (u32 i = 0; i < n; i++)
            threads.append([i] { session(false, false, i); });
        for (Thread& t : threads)
            t.join();
        sim::hit("several threads");
    }
}
SIM_PROP("C25", run, "saving and loading reflected objects");
} // namespace
