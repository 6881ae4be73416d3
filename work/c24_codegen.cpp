// C24: plytool codegen writes exactly what the reflection commands in the source files say.
#include "plytool.h"
#include <algorithm>
using namespace pt;

namespace {
u32 counter;
std::string num() {
    return std::to_string(counter++);
}

//------------------------------------------------------------ what is in a source file
struct Item {
    enum Kind { Text, Rec, Enum, Space, Stale } kind = Text;
    std::vector<std::string> lines; // Text
    std::string member;             // Text: the name that is recorded while capturing
    std::string name;
    bool cls = false;               // "class" or "enum class"
    u32 style = 0;                  // how commands and includes are written
    std::string base;               // Rec: what follows the name
    // Rec
    bool reflect = false;
    u32 on = 0, off = 0;            // positions of PLY_REFLECT() and // ply reflect off
    bool legacy = false;
    u32 sw = 0;                     // 1 switch, 2 reflected switch
    u32 include = 0;                // the include line is there: 1 as generated, 2 with another name, 3 twice
    u32 blank = 0;                  // lines between it and the closing brace
    bool sameLine = false;          // the closing brace follows something else
    std::vector<Item> items;        // Rec, Space
    // Enum
    bool keep = false, keepLast = false;
    std::vector<std::string> enumerators;
};
struct Source {
    std::string path; // absolute
    std::vector<Item> items;
    std::string broken; // what is wrong with it
    u32 encoding = 0;   // 0 UTF-8, 1 with CRLF, 2 with byte order mark, 3 UTF-16 LE, 4 UTF-16 BE
    bool noEol = false;
};
struct Output { // what codegen should make of one file
    std::string text; // the file itself
    std::string classes, enums, switches;
    std::map<std::string, std::string> inls; // switch-….inl
    size_t errorAt = 0;
};

std::string dirName(const std::string& p) {
    return p.substr(0, p.rfind('/'));
}
std::string inlPath(const std::string& p) {
    std::string b = p.substr(p.rfind('/') + 1);
    return dirName(p) + "/codegen/" + b.substr(0, b.rfind('.')) + ".inl";
}

// The same command in another style
std::string cmd(const std::string& c, u32 style) {
    std::string r;
    for (u32 k = 0; k < c.size(); k++) {
        if (c[k] == ' ' && k == 2 && (style & 1))
            continue;
        r += c[k];
        if (c[k] == ' ' && (style & 2))
            r += style & 4 ? "  " : " ";
    }
    return r + (style & 8 ? "  " : style & 4 ? "\t" : "");
}
struct Writer {
    const Source& s;
    bool after; // as it is after codegen
    Output out;
    std::vector<std::string> spaces, records;
    Writer(const Source& s, bool after) : s(s), after(after) {
    }
    std::string join(const char* sep, bool withSpaces = true) {
        std::string r;
        for (auto* v : {&spaces, &records})
            if (v == &records || withSpaces)
                for (auto& n : *v)
                    r += (r.empty() ? "" : sep) + n;
        return r;
    }
    std::string ind(u32 depth) {
        return std::string(depth * 4, ' ');
    }
    void line(u32 depth, const std::string& t) {
        out.text += t.empty() ? "\n" : t[0] == '#' ? t + "\n" : ind(depth) + t + "\n";
    }
    void list(const std::vector<Item>& v, u32 depth, std::string* capture = nullptr) {
        for (auto& i : v)
            item(i, depth, capture);
    }
    void item(const Item& i, u32 depth, std::string* capture) {
        switch (i.kind) {
            case Item::Text:
                for (auto& l : i.lines)
                    line(depth, l);
                if (capture && i.member.size())
                    *capture += "PLY_STRUCT_MEMBER(" + i.member + ")\n";
                break;
            case Item::Stale:
                if (!after)
                    out.text += (i.style & 1 ? "    " : i.style & 2 ? "\t" : "") + std::string(i.style & 4 ? "# include" : "#include") + " \"codegen/" + i.name + "\"" + (i.style & 8 ? "" : " ") + "//@@ply" + (i.style & 16 ? "  " : "") + "\n";
                break;
            case Item::Space:
                line(depth, "namespace " + i.name + " {");
                spaces.push_back(i.name);
                list(i.items, depth);
                spaces.pop_back();
                line(depth, "} // namespace " + i.name);
                break;
            case Item::Enum: {
                line(depth, std::string("enum ") + (i.cls ? "class " : "") + i.name + (i.cls ? " : u32 {" : " {"));
                if (i.keep && !i.keepLast)
                    line(depth + 1, cmd("// ply reflect enum", i.style));
                for (u32 k = 0; k < i.enumerators.size(); k++)
                    line(depth + 1, i.enumerators[k] + (k % 4 == 3 ? " = " + std::to_string(k * 7) : "") + (k + 1 < i.enumerators.size() || i.cls ? "," : ""));
                if (i.keep && i.keepLast)
                    line(depth + 1, cmd("// ply reflect enum", i.style));
                line(depth, "};");
                if (i.keep) {
                    std::string pre;
                    for (auto& n : spaces)
                        pre += n + "::";
                    records.push_back(i.name);
                    out.enums += "PLY_ENUM_BEGIN(" + pre + ", " + join("::", false) + ")\n";
                    records.pop_back();
                    for (u32 k = 0; k < i.enumerators.size(); k++)
                        if (k + 1 < i.enumerators.size() || i.enumerators[k] != "Count")
                            out.enums += "PLY_ENUM_IDENTIFIER(" + i.enumerators[k] + ")\n";
                    out.enums += "PLY_ENUM_END()\n\n";
                }
                break;
            }
            case Item::Rec: {
                line(depth, std::string(i.cls ? "class " : "struct ") + i.name + i.base + " {");
                records.push_back(i.name);
                if (i.sw)
                    line(depth + 1, cmd(i.sw == 1 ? "// ply make switch" : "// ply make reflected switch", i.style));
                std::string members;
                size_t at = out.classes.size();
                std::string name = join("::"), nested;
                for (u32 k = 0; k <= i.items.size(); k++) {
                    if (i.reflect && k == i.on) {
                        line(depth + 1, i.legacy ? "PLY_STATE_REFLECT()" : "PLY_REFLECT()");
                        at = out.classes.size();
                    }
                    if (i.reflect && k == i.off)
                        line(depth + 1, i.legacy ? "// %%end" : cmd("// ply reflect off", i.style));
                    if (k < i.items.size())
                        item(i.items[k], depth + 1, i.reflect && k >= i.on && k < i.off ? &members : nullptr);
                }
                if (i.reflect)
                    out.classes.insert(at, "PLY_STRUCT_BEGIN(" + name + ")\n" + members + "PLY_STRUCT_END()\n\n");
                std::string inl = "switch-" + join("-") + ".inl";
                std::string inc = "#include \"codegen/" + inl + "\" //@@ply\n";
                if (i.sw) {
                    std::vector<std::string> states;
                    for (auto& c : i.items)
                        if (c.kind == Item::Rec)
                            states.push_back(c.name);
                    std::string& t = out.inls[dirName(s.path) + "/codegen/" + inl];
                    auto low = [](std::string n) {
                        n[0] = (char) tolower(n[0]);
                        return n;
                    };
                    t = "enum class ID : u16 {\n";
                    for (auto& n : states)
                        t += "    " + n + ",\n";
                    t += "    Count,\n};\nunion Storage_ {\n";
                    for (auto& n : states)
                        t += "    " + n + " " + low(n) + ";\n";
                    t += "    PLY_INLINE Storage_() {}\n    PLY_INLINE ~Storage_() {}\n};\n";
                    t += "SWITCH_FOOTER(" + i.name + ", " + states[0] + ")\n";
                    for (auto& n : states)
                        t += "SWITCH_ACCESSOR(" + n + ", " + low(n) + ")\n";
                    if (i.sw == 2)
                        t += "PLY_SWITCH_REFLECT()\n";
                    std::string& c = out.switches;
                    c += "SWITCH_TABLE_BEGIN(" + name + ")\n";
                    for (auto& n : states)
                        c += "SWITCH_TABLE_STATE(" + name + ", " + n + ")\n";
                    c += "SWITCH_TABLE_END(" + name + ")\n\n";
                    if (i.sw == 2) {
                        c += "PLY_SWITCH_BEGIN(" + name + ")\n";
                        for (auto& n : states)
                            c += "PLY_SWITCH_MEMBER(" + n + ")\n";
                        c += "PLY_SWITCH_END()\n\n";
                    }
                    if (!after && i.include == 2)
                        out.text += "#include \"codegen/switch-Old.inl\" //@@ply\n";
                    if (!after && (i.include == 1 || i.include == 3))
                        out.text += inc;
                    if (!after && i.include == 3)
                        out.text += inc;
                    for (u32 k = 0; k < i.blank; k++)
                        out.text += "\n";
                }
                if (i.sameLine) {
                    std::string head = ind(depth + 1) + "u32 same" + i.name + ";";
                    out.text += head;
                    if (i.sw && after)
                        out.text += "\n" + inc + ind(depth + 1) + " };\n";
                    else
                        out.text += " };\n";
                } else {
                    if (i.sw && after)
                        out.text += inc;
                    line(depth, "};");
                }
                records.pop_back();
                break;
            }
        }
    }
    Output& run() {
        out.text = "// generated by a test: \xc3\xa4\xe2\x82\xac\n";
        list(s.items, 0);
        if (s.broken.size()) {
            size_t at = s.broken.find('@');
            out.errorAt = out.text.size() + at;
            out.text += s.broken.substr(0, at) + s.broken.substr(at + 1);
        }
        if (s.noEol && out.text.back() == '\n' && (!after || s.broken.size() || s.items.empty() || !endsStale(s.items)))
            out.text.pop_back();
        return out;
    }
    // The last line is one that codegen removes
    static bool endsStale(const std::vector<Item>& v) {
        return v.back().kind == Item::Stale;
    }
};
Output output(const Source& s, bool after) {
    return Writer{s, after}.run();
}
std::string encode(const std::string& t, u32 enc) {
    std::string r;
    switch (enc) {
        case 0:
            return t;
        case 1:
            for (char c : t)
                r += c == '\n' ? "\r\n" : std::string(1, c);
            return r;
        case 2:
            return "\xef\xbb\xbf" + t;
        default: {
            auto unit = [&](u32 u) {
                r += (char) (enc == 3 ? u : u >> 8);
                r += (char) (enc == 3 ? u >> 8 : u);
            };
            unit(0xfeff);
            for (size_t i = 0; i < t.size(); i++) {
                u8 c = (u8) t[i];
                if (c < 0x80)
                    unit(c);
                else if (c < 0xe0)
                    unit(((c & 31u) << 6) | (t[i + 1] & 63u)), i++;
                else
                    unit(((c & 15u) << 12) | ((t[i + 1] & 63u) << 6) | (t[i + 2] & 63u)), i += 2;
            }
            return r;
        }
    }
}

//------------------------------------------------------------ random source files
Item text(std::vector<std::string> lines, const std::string& member = "") {
    Item i;
    i.lines = lines;
    i.member = member;
    return i;
}
std::string wide() {
    static const char* cs[] = {"a", "\xc3\xa4", "\xe2\x82\xac", "\xe6\xb0\xb4", " "};
    std::string r;
    u32 n = W.below(W.chance(0.2) ? 300 : 12);
    for (u32 k = 0; k < n; k++)
        r += cs[W.below(5)];
    return r;
}
Item noise() {
    std::string n = num();
    switch (W.below(15)) {
        case 13:
            return text({"// " + wide(), "/* " + wide() + " */ int wide" + n + "; // " + wide()});
        case 0:
            return text({"void func" + n + "(int a, const char* b = nullptr);"});
        case 1:
            return text({"inline int func" + n + "(int x) {", "    if (x > 1) {", "        return g(x, \"}\");", "    }", "    return '}';", "}"});
        case 2:
            return text({"using Alias" + n + " = Array<u32>;"});
        case 3:
            return text({"template <typename T>", "struct Tmpl" + n + " {", "    T x;", "};"});
        case 4:
            return text({"static const u32 k" + n + " = 5;"});
        case 5:
            return text({"#include <ply-runtime/Base.h>"});
        case 6:
            return text({"// just a comment about reflect " + n});
        case 7:
            return text({"/* PLY_REFLECT() is a macro", "   } */"});
        case 8:
            return text({"enum Plain" + n + " { A" + n + ", B" + n + " };"});
        case 9:
            return text({"struct Fwd" + n + ";"});
        case 10:
            return text({"#include \"codegen/Other" + n + ".inl\" //%%"});
        case 11:
            return text({""});
        case 12:
            return text({"const char* str" + n + " = \"struct X { PLY_REFLECT() // ply reflect off\";"});
        default:
            return text({"int arr" + n + "[] = {1, 2, 3};"});
    }
}
Item member(const std::string& rec) {
    std::string n = num();
    switch (W.below(24)) {
        case 0:
            return text({"u32 a" + n + ";"}, "a" + n);
        case 1:
            return text({"String s" + n + " = \"x\";"}, "s" + n);
        case 2:
            return text({"Array<Owned<Foo>> v" + n + ";"}, "v" + n);
        case 3:
            return text({"const char* p" + n + " = nullptr;"}, "p" + n);
        case 4:
            return text({"ply::HashMap<Traits> h" + n + ";"}, "h" + n);
        case 5:
            return text({"int arr" + n + "[4];"}, "arr" + n);
        case 6:
            return text({"Foo* q" + n + ";"}, "q" + n);
        case 7:
            return text({"u64 b" + n + "{0};"}, "b" + n);
        case 8:
            return text({"bool f" + n + " = (1 < 2);"}, "f" + n);
        case 9:
            return text({"// a comment", "s32 c" + n + " = -1; // another one"}, "c" + n);
        case 10:
            return text({"/* in front */ Owned<Type> d" + n, "    = nullptr;"}, "d" + n);
        case 11:
            return text({"void m" + n + "(int x);"});
        case 12:
            return text({"PLY_INLINE int g" + n + "() const {", "    return x;", "}"});
        case 13:
            return text({"static Foo* make" + n + "(StringView name);"});
        case 14:
            return text({"using T" + n + " = int;"});
        case 15:
            return text({"// comment " + n});
        case 16:
            return text({"struct In" + n + " {", "    int z;", "};"});
        case 17:
            return text({"enum En" + n + " {", "    P" + n + ",", "    Q" + n + " = 3,", "};"});
        case 18:
            return text({rec + "() {", "}"});
        case 19:
            return text({"virtual ~" + rec + "() {", "}"});
        case 20:
            return text({"PLY_INLINE " + rec + "(int x) : x{x} {", "}"});
        case 21:
            return text({"virtual void w" + n + "(OutStream* outs, const Foo& f) const;"});
        case 22:
            return text({"#if PLY_FOO // " + n, "#endif"});
        default:
            return text({""});
    }
}
Item genEnum() {
    Item i;
    i.kind = Item::Enum;
    i.name = "Enum" + num();
    i.cls = W.chance(0.5);
    i.style = W.chance(0.8) ? 0 : W.below(16);
    i.keep = W.chance(0.7);
    i.keepLast = W.chance(0.2);
    u32 n = 1 + W.below(6);
    for (u32 k = 0; k < n; k++)
        i.enumerators.push_back("E" + num());
    if (W.chance(0.4))
        i.enumerators[W.chance(0.8) ? n - 1 : W.below(n)] = "Count";
    return i;
}
Item genRec(u32 depth, bool state = false) {
    Item i;
    i.kind = Item::Rec;
    i.name = (state && W.chance(0.3) ? "aState" : "Rec") + num();
    i.cls = !state && W.chance(0.3);
    i.style = W.chance(0.8) ? 0 : W.below(16);
    static const char* bases[] = {" : Base", " : public Base<Foo, Bar<int>>", " final : ply::Base, Other", " final"};
    if (W.chance(0.2))
        i.base = bases[W.below(4)];
    i.sw = W.chance(0.3) && depth < 3 ? 1 + W.below(2) : 0;
    u32 n = W.below(8);
    for (u32 k = 0; k < n; k++) {
        if (depth < 3 && W.chance(i.sw ? 0.5 : 0.12))
            i.items.push_back(genRec(depth + 1, i.sw != 0));
        else if (!i.sw && W.chance(0.1))
            i.items.push_back(genEnum());
        else if (i.sw) { // only structs, and what doesn't open a scope
            switch (W.below(4)) {
                case 0:
                    i.items.push_back(text({"StringView get" + num() + "() const;"}));
                    break;
                case 1:
                    i.items.push_back(text({"// states"}));
                    break;
                case 2:
                    i.items.push_back(text({""}));
                    break;
                case 3:
                    i.items.push_back(text({"u32 y" + num() + " = 0;"}));
                    i.items.back().member = "y" + std::to_string(counter - 1);
                    break;
            }
        } else
            i.items.push_back(member(i.name));
    }
    if (i.sw) {
        bool any = false;
        for (auto& c : i.items)
            any |= c.kind == Item::Rec;
        if (!any)
            i.items.push_back(genRec(depth + 1, true));
        i.include = W.below(4);
        i.blank = W.chance(0.2) ? W.below(3) : 0;
        if (!i.include)
            i.blank = 0;
        i.sameLine = W.chance(0.2);
    }
    i.reflect = W.chance(i.sw ? 0.15 : 0.6);
    if (i.reflect) {
        u32 m = (u32) i.items.size();
        i.on = W.chance(0.5) ? 0 : W.below(m + 1);
        i.off = W.chance(0.5) ? m : i.on + W.below(m - i.on + 1);
        i.legacy = W.chance(0.1);
    }
    return i;
}
void genItems(std::vector<Item>& v, u32 depth) {
    u32 n = W.below(depth ? 5 : 7);
    for (u32 k = 0; k < n; k++) {
        u32 c = W.below(12);
        if (c < 4)
            v.push_back(noise());
        else if (c < 8)
            v.push_back(genRec(0));
        else if (c < 9)
            v.push_back(genEnum());
        else if (c < 10 && depth < 2 && W.chance(0.3)) {
            Item i;
            i.kind = Item::Stale;
            i.name = "switch-Gone" + num() + ".inl";
            i.style = W.chance(0.7) ? 0 : W.below(32);
            v.push_back(i);
        } else if (depth < 3) {
            Item i;
            i.kind = Item::Space;
            static const char* names[] = {"ply", "cpp", "game", "detail"};
            i.name = names[W.below(4)];
            genItems(i.items, depth + 1);
            v.push_back(i);
        }
    }
}
void regen(Source& s) {
    s.items.clear();
    s.broken.clear();
    genItems(s.items, 0);
    s.noEol = W.chance(0.1);
    s.encoding = W.chance(0.75) ? 0 : 1 + W.below(4);
    if (W.chance(0.12)) {
        switch (W.below(10)) {
            case 0:
                s.broken = "struct B" + num() + " {\n    @PLY_REFLECT()\n    int x;\n};\n";
                break;
            case 1:
                s.broken = "struct B" + num() + " {\n    int x;\n    @// ply reflect off\n};\n";
                break;
            case 2:
                s.broken = "struct B" + num() + " {\n    PLY_REFLECT()\n    int x;\n    // ply reflect off\n    @PLY_REFLECT()\n    int y;\n    // ply reflect off\n};\n";
                break;
            case 3:
                s.broken = "struct B" + num() + " {\n    @// ply make switch\n    union U {\n        int x;\n    };\n    struct S {\n    };\n};\n";
                break;
            case 4:
                s.broken = "struct B" + num() + " {\n    @// ply frobnicate\n    int x;\n};\n";
                break;
            case 5:
                s.broken = "@// ply reflect enum\nstruct B" + num() + ";\n";
                break;
            case 6:
                s.broken = "enum B" + num() + " {\n    // ply reflect enum\n    X,\n    @// ply reflect enum\n};\n";
                break;
            case 7:
                s.broken = "@// ply make reflected switch\nint b" + num() + ";\n";
                break;
            case 8:
                s.broken = "struct B" + num() + " {\n    int x;@\n"; // no end
                break;
            case 9:
                s.broken = "@}\nint b" + num() + ";\n";
                break;
        }
        size_t at = s.broken.find('@');
        s.broken.replace(at, 1, W.chance(0.3) ? "@" : "/* " + wide() + " */@");
    }
}

//------------------------------------------------------------ the test
typedef std::map<std::string, std::string> Tree;
Tree files() {
    Tree t;
    std::vector<std::string> todo{"/ws"};
    for (size_t i = 0; i < todo.size(); i++) {
        sim::Inode* d = sim::k::lookup(todo[i]);
        std::string dir = todo[i];
        for (auto& e : d->ents) {
            if (e.second->type == sim::Inode::Dir)
                todo.push_back(dir + "/" + e.first);
            else
                t[dir + "/" + e.first] = e.second->data;
        }
    }
    return t;
}
struct Test {
    std::map<std::string, Source> sources; // by path
    std::set<std::string> noCodegen;       // folders
    bool crlf = false;

    bool inScope(const std::string& p) {
        static const char* skipped[] = {"Sort.h", "Functor.h", "DirectoryWatcher_Mac.h", "DirectoryWatcher_Win32.h", "Heap.cpp", "HiddenArgFunctor.h", "LambdaView.h", "Pool.h"};
        std::string b = p.substr(p.rfind('/') + 1);
        for (auto* s : skipped)
            if (b == s)
                return false;
        auto ends = [&](const char* e) { return b.size() >= strlen(e) && b.compare(b.size() - strlen(e), std::string::npos, e) == 0; };
        if (ends(".modules.cpp") || (!ends(".cpp") && !ends(".h")))
            return false;
        if (p.find("/Shell_iOS/") != std::string::npos || p.find("/opengl-support/") != std::string::npos)
            return false;
        for (auto& d : noCodegen)
            if (p.compare(0, d.size() + 1, d + "/") == 0)
                return false;
        return true;
    }
    std::string asWritten(const std::string& t) {
        return encode(t, crlf ? 1 : 0);
    }
    void write(const Source& s) {
        sim::k::mkdirs(dirName(s.path));
        if (sim::k::lookup(s.path))
            sim::k::remove(s.path);
        sim::k::writeFile(s.path, encode(output(s, false).text, s.encoding));
    }
    // What the files should be after codegen; files that should stay as they are aren't in it.
    Tree expected(const std::map<std::string, Source>& all) {
        Tree t;
        std::map<std::string, Output> byInl;
        std::set<std::string> bad;
        for (auto& e : all) { // in the order of paths, so Foo.cpp comes before Foo.h
            const Source& s = e.second;
            if (!inScope(s.path))
                continue;
            std::string inl = inlPath(s.path);
            if (s.broken.size()) {
                bad.insert(inl);
                continue;
            }
            Output o = output(s, true);
            t[s.path] = asWritten(o.text);
            for (auto& i : o.inls)
                t[i.first] = asWritten(i.second);
            Output& sum = byInl[inl];
            sum.classes += o.classes;
            sum.enums += o.enums;
            sum.switches += o.switches;
        }
        for (auto& e : byInl) {
            std::string c = e.second.classes + e.second.enums + e.second.switches;
            if (c.size() && !bad.count(e.first))
                t[e.first] = asWritten(c);
        }
        return t;
    }
    static bool isTemp(const std::string& p) {
        return p.size() > 4 && p.compare(p.size() - 4, 4, ".tmp") == 0;
    }
    std::string randomDir() {
        static const char* dirs[] = {"/ws/repos/plywood/src/a", "/ws/repos/plywood/src", "/ws/repos/game", "/ws/repos/game/src/deep/er", "/ws/repos/plywood/src/a/Shell_iOS", "/ws/repos/game/opengl-support/x", "/ws/repos/game/hidden/sub"};
        return dirs[W.below(W.chance(0.85) ? 4 : 7)];
    }
    void addSource() {
        static const char* names[] = {"Foo.cpp", "Foo.h", "Bar.cpp", "Bar.h", "Zed.h", "Foo.modules.cpp", "Pool.h", "Foo.hpp", "notes.txt", "Heap.cpp", "Aaa.cpp"};
        Source s;
        s.path = randomDir() + "/" + names[W.below(W.chance(0.85) ? 5 : 11)];
        if (sources.count(s.path))
            return;
        regen(s);
        sources[s.path] = s;
        write(s);
    }
    std::string show(const std::string& t) {
        return sim::escape(t.substr(0, 1500), 3000);
    }
    void differ(const char* cls, const std::string& p, const std::string& got, const std::string& want, const char* when) {
        size_t k = 0;
        while (k < got.size() && k < want.size() && got[k] == want[k])
            k++;
        size_t b = k > 100 ? k - 100 : 0;
        sim::violate(cls, "%s is wrong %s: from offset %zu it has '%s' instead of '%s'", p.c_str(), when, k, sim::escape(got.substr(b, 250), 600).c_str(), sim::escape(want.substr(b, 250), 600).c_str());
    }
    void errorReported(const Source& s, const Result& r) {
        Output o = output(s, false);
        u32 line = 1, col = 1;
        for (size_t k = 0; k < o.errorAt && k < o.text.size(); k++) {
            u8 c = (u8) o.text[k];
            if (c == '\n')
                line++, col = 1;
            else if ((c & 0xc0) != 0x80)
                col++;
        }
        std::string m = s.path + "(" + std::to_string(line) + ", " + std::to_string(col) + "): error: ";
        std::string m2 = m; // where the macro ends
        if (o.errorAt < o.text.size() && o.text.compare(o.errorAt, 13, "PLY_REFLECT()") == 0)
            m2 = s.path + "(" + std::to_string(line) + ", " + std::to_string(col + 13) + "): error: ";
        SIM_CHECK(r.out.find(m) != std::string::npos || r.out.find(m2) != std::string::npos, "not-reported", "the error at '%s' wasn't reported: %s", m.c_str(), show(r.out).c_str());
        sim::hit("errors reported");
    }
    // A run in which nothing fails
    void clean(bool again = false) {
        Tree before = files(), want = expected(sources);
        Result r = plytool({W.chance(0.5) ? "codegen" : "codeg"});
        SIM_CHECK(!r.crashed && r.code == 0, "failed", "plytool codegen ended with exit code %d: %s", r.code, show(r.out).c_str());
        Tree after = files();
        std::set<std::string> wrote;
        for (auto& e : want) {
            if (!after.count(e.first))
                sim::violate("not-written", "%s wasn't written: %s", e.first.c_str(), show(r.out).c_str());
            if (after[e.first] != e.second)
                differ("wrong-output", e.first, after[e.first], e.second, "after plytool codegen");
            if (!before.count(e.first) || before[e.first] != e.second)
                wrote.insert(e.first);
            sim::hit("files checked");
        }
        for (auto& e : after)
            if (e.first != "/out.txt" && !want.count(e.first) && (!before.count(e.first) || before[e.first] != e.second))
                sim::violate("wrong-file", "plytool codegen wrote %s", e.first.c_str());
        for (auto& e : before)
            if (!after.count(e.first))
                sim::violate("wrong-file", "plytool codegen removed %s", e.first.c_str());
        std::set<std::string> said;
        size_t p = 0;
        while (p < r.out.size()) {
            size_t e = r.out.find('\n', p);
            if (e == std::string::npos)
                e = r.out.size();
            std::string l = r.out.substr(p, e - p);
            if (l.compare(0, 6, "Wrote ") == 0)
                SIM_CHECK(said.insert(l.substr(6)).second, "wrong-message", "'%s' appeared twice", l.c_str());
            p = e + 1;
        }
        SIM_CHECK(said == wrote, "wrong-message", "plytool codegen changed %zu files but reported %zu: %s", wrote.size(), said.size(), show(r.out).c_str());
        for (auto& e : sources)
            if (e.second.broken.size() && inScope(e.first))
                errorReported(e.second, r);
        if (wrote.empty())
            sim::hit("runs without changes");
        SIM_CHECK(!again || wrote.empty(), "not-idempotent", "a second run changed %s", wrote.empty() ? "" : wrote.begin()->c_str());
        sim::hit("complete runs");
    }
    // A run during which something happens
    void disturbed() {
        u32 mode = F.below(3); // 0 crash, 1 failing calls, 2 a developer edits a file meanwhile
        Tree before = files(), want = expected(sources), want2;
        std::string edited, text2;
        double rates[sim::FT_COUNT] = {};
        u32 crashAt = 0;
        std::map<std::string, Source> all2 = sources;
        u32 fiber = 0;
        bool stop = false;
        if (mode == 0) {
            crashAt = 1 + F.below(F.chance(0.5) ? 8 : 60);
        } else if (mode == 1) {
            double rate = 0.01 + F.below(30) / 100.0;
            static const sim::Fault ks[] = {sim::FT_WRITE_ERR, sim::FT_META_ERR, sim::FT_FSYNC_ERR, sim::FT_OPEN_ERR, sim::FT_READ_ERR};
            for (sim::Fault f : ks)
                if (F.chance(0.4))
                    sim::faultRate[f] = rates[f] = rate;
            if (F.chance(0.2))
                sim::k::diskFree = F.below(F.chance(0.5) ? 500 : 5000);
        } else {
            std::vector<std::string> v;
            for (auto& e : sources)
                if (inScope(e.first))
                    v.push_back(e.first);
            if (v.empty())
                return;
            edited = v[W.below((u32) v.size())];
            Source& s = all2[edited];
            if (W.chance(0.5))
                regen(s);
            else
                s.items.insert(s.items.begin(), W.chance(0.5) ? noise() : genRec(0));
            if (W.chance(0.1))
                s.items.clear();
            text2 = encode(output(s, false).text, s.encoding);
            want2 = expected(all2);
            u32 delay = F.below(F.chance(0.5) ? 60 : 400);
            std::string p = edited;
            fiber = sim::spawn("editor", [this, delay, p, &all2, &stop] {
                for (u32 i = 0; i < delay && !stop; i++)
                    sim::yield();
                sim::Quiet q;
                write(all2[p]);
            });
        }
        Result r = plytool({"codegen"}, crashAt);
        for (u32 k = 0; k < sim::FT_COUNT; k++)
            if (rates[k] > 0)
                sim::faultRate[k] = 0;
        sim::k::diskFree = ~0ull;
        if (mode == 2) {
            stop = true;
            sim::joinFiber(fiber);
            sim::hit("runs with an edit");
        }
        if (r.crashed)
            sim::hit("crashes");
        else
            SIM_CHECK(r.code == 0 || (mode == 1 && r.faults && r.code > 0), "failed", "plytool codegen ended with exit code %d: %s", r.code, show(r.out).c_str());
        Tree after = files();
        bool incomplete = false, lost = false;
        for (auto& e : after) {
            if (isTemp(e.first) && !before.count(e.first)) {
                SIM_CHECK(r.crashed || r.faults, "wrong-file", "plytool codegen left %s", e.first.c_str());
                continue;
            }
            bool old = before.count(e.first) && before[e.first] == e.second;
            auto it = want.find(e.first);
            bool full = it != want.end() && it->second == e.second;
            if (mode == 2) {
                if (e.first == edited) {
                    auto i2 = want2.find(e.first);
                    if (e.second != text2 && !full && !(i2 != want2.end() && i2->second == e.second))
                        differ("corrupted", e.first, e.second, text2, "after it was edited during plytool codegen");
                    if (e.second != text2 && full && !(i2 != want2.end() && i2->second == e.second)) {
                        // it was replaced after the edit
                        lost = true;
                        sim::hit("edits just before the file was replaced");
                    }
                    continue;
                }
                auto i2 = want2.find(e.first);
                full |= i2 != want2.end() && i2->second == e.second;
            }
            if (!old && !full)
                differ(before.count(e.first) || it != want.end() ? "half-done" : "wrong-file", e.first, e.second, it != want.end() ? it->second : before.count(e.first) ? before[e.first] : "", "after a disturbed run");
            if (!full && it != want.end())
                incomplete = true;
        }
        for (auto& e : before)
            if (!after.count(e.first))
                sim::violate("wrong-file", "plytool codegen removed %s", e.first.c_str());
        for (auto& e : want)
            if (!after.count(e.first))
                incomplete = true;
        if (mode == 1 && incomplete) {
            SIM_CHECK(r.faults, "half-done", "plytool codegen didn't write everything: %s", show(r.out).c_str());
            bool said = r.out.find("Error") != std::string::npos || r.out.find("Can't") != std::string::npos || r.code > 0;
            SIM_CHECK(said, "not-reported", "plytool codegen said nothing about what it couldn't write: %s", show(r.out).c_str());
            sim::hit("runs with errors");
        }
        if (mode == 2 && !lost)
            sources = all2;
    }
    void edit() {
        u32 n = 1 + W.below(3);
        for (u32 k = 0; k < n; k++) {
            if (sources.size() && W.chance(0.6)) {
                auto it = sources.begin();
                std::advance(it, W.below((u32) sources.size()));
                if (W.chance(0.2)) {
                    sim::k::remove(it->first);
                    sources.erase(it);
                } else {
                    regen(it->second);
                    write(it->second);
                }
            } else
                addSource();
        }
    }
    void main() {
        counter = 0;
        soundOutput = true;
        sim::randomSchedule(false);
        sim::k::shuffleDirs = true;
        sim::k::openFaultOk = [](const std::string& p, bool) { return !sim::k::isDir(p); };
        if (F.chance(0.3)) { // none of these is an error
            sim::faultRate[sim::FT_EINTR] = F.below(20) / 100.0;
            sim::faultRate[sim::FT_SHORT_READ] = F.below(30) / 100.0;
            sim::faultRate[sim::FT_SHORT_WRITE] = F.below(30) / 100.0;
            sim::faultRate[sim::FT_DTYPE_UNKNOWN] = F.chance(0.5) ? 0.5 : 0;
        }
        sim::k::mkdirs("/ws/repos/plywood/src");
        sim::k::mkdirs("/ws/data/build");
        u32 nl = W.below(3);
        if (nl < 2) {
            crlf = nl == 1;
            sim::k::writeFile("/ws/workspace-settings.pylon", crlf ? "{\n  \"sourceNewLines\": \"crlf\"\n}\n" : "{\n  \"sourceNewLines\": \"lf\"\n}\n");
        }
        u32 n = 1 + W.below(7);
        for (u32 k = 0; k < n; k++)
            addSource();
        if (W.chance(0.2)) {
            std::string d = W.chance(0.5) ? "/ws/repos/game/hidden" : randomDir();
            sim::k::mkdirs(d);
            sim::k::writeFile(d + "/nocodegen", "");
            noCodegen.insert(d);
        }
        if (W.chance(0.3)) { // left over
            sim::k::mkdirs("/ws/repos/plywood/src/codegen");
            sim::k::writeFile("/ws/repos/plywood/src/codegen/Foo.inl", "old\n");
            sim::k::writeFile("/ws/repos/plywood/src/codegen/switch-Gone.inl", "old\n");
        }
        u32 rounds = 1 + W.below(4);
        for (u32 k = 0; k < rounds; k++) {
            if (k && W.chance(0.8))
                edit();
            if (W.chance(0.4))
                clean();
            else
                disturbed();
        }
        clean();
        clean(true);
    }
};
void c24() {
    std::unique_ptr<Test> t{new Test};
    t->main();
}
SIM_PROP("C24", c24, "plytool codegen against a model of the sources, with edits, crashes and failing calls");
} // namespace
