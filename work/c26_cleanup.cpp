// C26: plytool cleanup gives each source file the standard header and changes nothing else.
#include "plytool.h"
#include <algorithm>
using namespace pt;

namespace {
const std::string Header = R"(/*------------------------------------
  ///\  Plywood C++ Framework
  \\\/  https://plywood.arc80.com/
------------------------------------*/
)";
const std::string Root = "/ws/repos/plywood/src";

struct Source {
    std::string top;  // the comments it begins with
    std::string rest; // everything else
    u32 encoding = 0; // 0: as is, 1: CRLF, 2: UTF-8 with BOM, 3, 4: UTF-16
    bool broken = false; // there's no telling what its header is
};
std::string encode(const std::string& t, u32 enc) {
    std::string r;
    switch (enc) {
        case 0:
            return t;
        case 1:
            for (char c : t)
                r += c == '\n' ? "\r\n" : std::string(1, c);
            return r;
        case 2:
            return "\xef\xbb\xbf" + t;
        default: {
            auto unit = [&](u32 u) {
                r += (char) (enc == 3 ? u : u >> 8);
                r += (char) (enc == 3 ? u >> 8 : u);
            };
            unit(0xfeff);
            for (size_t i = 0; i < t.size(); i++) {
                u8 c = (u8) t[i];
                if (c < 0x80)
                    unit(c);
                else if (c < 0xe0)
                    unit(((c & 31u) << 6) | (t[i + 1] & 63u)), i++;
                else
                    unit(((c & 15u) << 12) | ((t[i + 1] & 63u) << 6) | (t[i + 2] & 63u)), i += 2;
            }
            return r;
        }
    }
}
std::string words(bool block) {
    static const char* cs[] = {"a", "Copyright 2018 ", "\xc3\xa4", "\xe2\x82\xac", " ", "#include <x>", "int x;", "\"", "'", "\\\\ ", "//", "*", "{", "R\"(", "-----", "/ ", "@", "\t"};
    std::string r;
    u32 n = W.below(W.chance(0.05) ? 200 : 6);
    for (u32 k = 0; k < n; k++)
        r += cs[W.below(sizeof(cs) / sizeof(*cs))];
    for (size_t k = 0; block && k + 1 < r.size(); k++)
        if (r[k] == '*' && r[k + 1] == '/')
            r[k] = '+';
    return r;
}
std::string blank() {
    static const char* s[] = {"\n", "\n", "\n", " \n", "\t  \n"};
    return s[W.below(5)];
}
std::string indent() {
    static const char* s[] = {"", "", "", "  ", "\t"};
    return s[W.below(5)];
}
std::string block() {
    std::string r = "/*" + words(true);
    u32 n = W.below(5);
    for (u32 k = 0; k < n; k++)
        r += W.chance(0.25) ? blank() : "\n" + indent() + words(true);
    if (W.chance(0.1))
        r += "\n";
    while (r.back() == '*')
        r.pop_back();
    if (r == "/")
        r = "/* ";
    return r + (W.chance(0.5) ? "*/" : " */");
}
// Lines of comments
std::string comments(u32 n) {
    std::string r;
    for (u32 k = 0; k < n; k++) {
        r += indent();
        if (W.chance(0.5)) {
            r += "//" + words(false);
        } else {
            r += block();
            while (W.chance(0.15))
                r += " " + block();
            if (W.chance(0.15))
                r += " //" + words(false);
            else if (W.chance(0.1))
                r += "  ";
        }
        r += "\n";
    }
    return r;
}
std::string code(bool first) {
    static const char* s[] = {"#pragma once\n", "#include <ply-runtime/Base.h>\n", "#define FOO(x) \\\n    // x\n", "#ifdef A // b\n", "namespace ply {\n", "int x = 5; // five\n", "struct S {\n    /* a */ u32 b;\n};\n", "}\n", "static const char* s = \"/* no comment */\";\n", "auto r = R\"(\n/* neither\n)\";\n", "/* a */ int y;\n", "/* b */ /* c */ int z;\n", "  void f();\n", "#warning \"x\"\n", "'c';\n", ";\n", "+1;\n", "::a::b();\n", "L\"x\";\n", "u8\"/*\";\n", "5;\n", "/=3;\n", "/ 3;\n", "@interface A\n"};
    return s[W.below(sizeof(s) / sizeof(*s) - first)]; // (the last one isn't a token)
}
void regen(Source& s) {
    s = {};
    u32 pick = W.below(10);
    if (pick < 3)
        s.top = Header;
    else if (pick < 5)
        s.top = "";
    else
        s.top = comments(1 + W.below(4));
    if (W.chance(0.05))
        s.top += Header;
    // What follows: nothing, a blank line, code, or a comment that ends where code begins
    u32 how = W.below(10);
    if (how == 0) {
        if (s.top.size() && W.chance(0.3) && s.top.back() == '\n')
            s.top.pop_back();
        return;
    }
    if (how < 5) {
        s.rest = blank();
        if (W.chance(0.5))
            s.rest += comments(W.below(4));
        while (W.chance(0.3))
            s.rest += blank();
    } else if (how == 5) {
        s.rest = "/*" + words(true) + "\n" + words(true) + "\n" + (W.chance(0.5) ? "\n" : "") + " x*/ int mixed;\n";
    }
    u32 n = how < 5 ? W.below(6) : 1 + W.below(6);
    for (u32 k = 0; k < n; k++) {
        s.rest += code(k == 0);
        if (W.chance(0.4))
            s.rest += W.chance(0.5) ? blank() : comments(1);
    }
    if (s.rest.size() > 1 && W.chance(0.1) && s.rest.back() == '\n')
        s.rest.pop_back();
    // (raw strings, # in the middle of a line and the like are only errors if they come first)
    if (W.chance(0.05)) {
        s.broken = true;
        s.rest = "/* never ends\n" + s.rest;
        for (size_t k = 2; k + 1 < s.rest.size(); k++)
            if (s.rest[k] == '*' && s.rest[k + 1] == '/')
                s.rest[k] = '+';
    }
    s.encoding = W.chance(0.7) ? 0 : W.below(5);
}

typedef std::map<std::string, std::string> Tree;
Tree files() {
    Tree t;
    std::vector<std::string> todo{"/ws"};
    for (size_t i = 0; i < todo.size(); i++) {
        sim::Inode* d = sim::k::lookup(todo[i]);
        std::string dir = todo[i];
        for (auto& e : d->ents) {
            if (e.second->type == sim::Inode::Dir)
                todo.push_back(dir + "/" + e.first);
            else
                t[dir + "/" + e.first] = e.second->data;
        }
    }
    return t;
}
struct Test {
    std::map<std::string, Source> sources; // by path
    bool crlf = false;

    static bool isSource(const std::string& p) {
        auto ends = [&](const char* e) { return p.size() >= strlen(e) && p.compare(p.size() - strlen(e), std::string::npos, e) == 0; };
        return p.compare(0, Root.size() + 1, Root + "/") == 0 && (ends(".cpp") || ends(".h"));
    }
    void write(const std::string& p) {
        Source& s = sources[p];
        sim::k::mkdirs(p.substr(0, p.rfind('/')));
        if (sim::k::lookup(p))
            sim::k::remove(p);
        sim::k::writeFile(p, encode(s.top + s.rest, s.encoding));
    }
    void addSource() {
        static const char* dirs[] = {"/ws/repos/plywood/src", "/ws/repos/plywood/src/runtime/ply-runtime", "/ws/repos/plywood/src/a", "/ws/repos/plywood/src/a/b/c", "/ws/repos/game", "/ws/repos/plywood/srcs", "/ws/repos/plywood/src/a.cpp"};
        static const char* names[] = {"Foo.cpp", "Foo.h", "Bar.cpp", "Bar.h", "Foo.modules.cpp", "Foo.hpp", "notes.txt", "x.inl", ".h", "h", "Zed.cpp.bak"};
        std::string p = std::string(dirs[W.below(W.chance(0.8) ? 4 : 7)]) + "/" + names[W.below(W.chance(0.8) ? 5 : 11)];
        if (sources.count(p))
            return;
        regen(sources[p]);
        write(p);
    }
    // What the files should be after cleanup
    Tree expected() {
        Tree t;
        for (auto& e : sources) {
            const Source& s = e.second;
            if (isSource(e.first) && !s.broken)
                t[e.first] = encode(Header + s.rest, crlf ? 1 : 0);
        }
        return t;
    }
    static bool isTemp(const std::string& p) {
        return p.size() > 4 && p.compare(p.size() - 4, 4, ".tmp") == 0;
    }
    std::string show(const std::string& t) {
        return sim::escape(t.substr(0, 1500), 3000);
    }
    void differ(const char* cls, const std::string& p, const std::string& old, const std::string& got, const std::string& want) {
        size_t k = 0;
        while (k < got.size() && k < want.size() && got[k] == want[k])
            k++;
        sim::violate(cls, "%s is wrong: from offset %zu it has '%s' instead of '%s'; it was '%s'", p.c_str(), k, sim::escape(got.substr(k, 250), 600).c_str(), sim::escape(want.substr(k, 250), 600).c_str(), sim::escape(old.substr(0, 600), 1500).c_str());
    }
    void cleaned() { // the model of what cleanup has done
        for (auto& e : sources)
            if (isSource(e.first) && !e.second.broken) {
                e.second.top = Header;
                e.second.encoding = crlf ? 1 : 0;
            }
    }
    void clean() {
        Tree before = files(), want = expected();
        Result r = plytool({W.chance(0.5) ? "cleanup" : "cleanu"});
        SIM_CHECK(!r.crashed && r.code == 0, "failed", "plytool cleanup ended with exit code %d: %s", r.code, show(r.out).c_str());
        Tree after = files();
        for (auto& e : before) {
            if (e.first == "/out.txt")
                continue;
            if (!after.count(e.first))
                sim::violate("wrong-file", "plytool cleanup removed %s", e.first.c_str());
            auto it = want.find(e.first);
            if (after[e.first] != (it == want.end() ? e.second : it->second))
                differ(it == want.end() ? "wrong-file" : "wrong-output", e.first, e.second, after[e.first], it == want.end() ? e.second : it->second);
            sim::hit(it == want.end() ? "files left alone" : it->second == e.second ? "files that had the header" : "files changed");
        }
        for (auto& e : after)
            if (e.first != "/out.txt" && !before.count(e.first))
                sim::violate("wrong-file", "plytool cleanup wrote %s", e.first.c_str());
        for (auto& e : sources)
            if (e.second.broken && isSource(e.first)) {
                SIM_CHECK(r.out.find(e.first) != std::string::npos, "not-reported", "%s was left alone, which wasn't reported: %s", e.first.c_str(), show(r.out).c_str());
                sim::hit("sources with errors");
            }
        cleaned();
        sim::hit("complete runs");
    }
    void disturbed() {
        bool crash = F.chance(0.5);
        Tree before = files(), want = expected();
        double rates[sim::FT_COUNT] = {};
        u32 crashAt = 0;
        if (crash) {
            crashAt = 1 + F.below(F.chance(0.5) ? 8 : 60);
        } else {
            double rate = 0.01 + F.below(30) / 100.0;
            static const sim::Fault ks[] = {sim::FT_WRITE_ERR, sim::FT_META_ERR, sim::FT_FSYNC_ERR, sim::FT_OPEN_ERR, sim::FT_READ_ERR};
            for (sim::Fault f : ks)
                if (F.chance(0.4))
                    sim::faultRate[f] = rates[f] = rate;
            if (F.chance(0.2))
                sim::k::diskFree = F.below(F.chance(0.5) ? 500 : 5000);
        }
        Result r = plytool({"cleanup"}, crashAt);
        for (u32 k = 0; k < sim::FT_COUNT; k++)
            if (rates[k] > 0)
                sim::faultRate[k] = 0;
        sim::k::diskFree = ~0ull;
        if (r.crashed)
            sim::hit("crashes");
        else
            SIM_CHECK(r.code == 0 || (!crash && r.faults && r.code > 0), "failed", "plytool cleanup ended with exit code %d: %s", r.code, show(r.out).c_str());
        Tree after = files();
        u32 incomplete = 0;
        std::string which;
        for (auto& e : after) {
            if (e.first == "/out.txt")
                continue;
            if (!before.count(e.first)) {
                SIM_CHECK(isTemp(e.first) && (r.crashed || r.faults), "wrong-file", "plytool cleanup left %s", e.first.c_str());
                sim::k::remove(e.first);
                continue;
            }
            auto it = want.find(e.first);
            bool full = it != want.end() && e.second == it->second;
            if (e.second != before[e.first] && !full)
                differ("half-done", e.first, before[e.first], e.second, it == want.end() ? before[e.first] : it->second);
            if (it != want.end() && !full) {
                incomplete++;
                which = e.first;
                if (!crash && r.code == 0)
                    SIM_CHECK(r.out.find(e.first) != std::string::npos, "not-reported", "plytool cleanup said nothing about %s, which it couldn't change: %s", e.first.c_str(), show(r.out).c_str());
            }
            if (full) {
                sources[e.first].top = Header;
                sources[e.first].encoding = crlf ? 1 : 0;
            }
        }
        for (auto& e : before)
            if (!after.count(e.first))
                sim::violate("wrong-file", "plytool cleanup removed %s", e.first.c_str());
        if (incomplete && !r.crashed) {
            SIM_CHECK(r.faults, "half-done", "plytool cleanup didn't change %s: %s", which.c_str(), show(r.out).c_str());
            sim::hit("runs with errors");
        }
    }
    void edit() {
        u32 n = 1 + W.below(3);
        for (u32 k = 0; k < n; k++) {
            if (sources.size() && W.chance(0.6)) {
                auto it = sources.begin();
                std::advance(it, W.below((u32) sources.size()));
                if (W.chance(0.2)) {
                    sim::k::remove(it->first);
                    sources.erase(it);
                } else {
                    regen(it->second);
                    write(it->first);
                }
            } else
                addSource();
        }
    }
    void main() {
        soundOutput = true;
        sim::randomSchedule(false);
        sim::k::shuffleDirs = true;
        sim::k::openFaultOk = [](const std::string& p, bool) { return !sim::k::isDir(p); };
        if (F.chance(0.3)) { // none of these is an error
            sim::faultRate[sim::FT_EINTR] = F.below(20) / 100.0;
            sim::faultRate[sim::FT_SHORT_READ] = F.below(30) / 100.0;
            sim::faultRate[sim::FT_SHORT_WRITE] = F.below(30) / 100.0;
            sim::faultRate[sim::FT_DTYPE_UNKNOWN] = F.chance(0.5) ? 0.5 : 0;
        }
        sim::k::mkdirs(Root);
        sim::k::mkdirs("/ws/data/build");
        u32 nl = W.below(3);
        if (nl < 2) {
            crlf = nl == 1;
            sim::k::writeFile("/ws/workspace-settings.pylon", crlf ? "{\n  \"sourceNewLines\": \"crlf\"\n}\n" : "{\n  \"sourceNewLines\": \"lf\"\n}\n");
        }
        u32 n = 1 + W.below(8);
        for (u32 k = 0; k < n; k++)
            addSource();
        u32 rounds = 1 + W.below(4);
        for (u32 k = 0; k < rounds; k++) {
            if (k && W.chance(0.8))
                edit();
            if (W.chance(0.4))
                clean();
            else
                disturbed();
        }
        clean();
        clean();
    }
};
void c26() {
    std::unique_ptr<Test> t{new Test};
    t->main();
}
SIM_PROP("C26", c26, "plytool cleanup against a model of the sources, with edits, crashes and failing calls");
} // namespace
