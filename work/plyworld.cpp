#include "plyworld.h"
#include <algorithm>

namespace pt {
std::string dirOf(const std::string& path) {
    return path.substr(0, path.rfind('/'));
}
std::string normJoin(const std::string& dir, const std::string& rel) {
    std::vector<std::string> c;
    std::string all = dir + "/" + rel + "/", cur;
    for (char ch : all) {
        if (ch != '/') {
            cur += ch;
            continue;
        }
        if (cur == "..") {
            if (c.size())
                c.pop_back();
        } else if (cur.size() && cur != ".") {
            c.push_back(cur);
        }
        cur.clear();
    }
    std::string r;
    for (auto& e : c)
        r += "/" + e;
    return r;
}
static std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> r(1);
    for (char c : s)
        if (c == '.')
            r.emplace_back();
        else
            r.back() += c;
    for (auto& e : r)
        if (e.empty())
            return {};
    return r;
}
const Mod* World::mod(const std::string& rn, const std::string& name, const ModFile** file) const {
    const RepoM* r = repo(rn);
    if (r)
        for (const ModFile& f : r->files)
            for (const Mod& m : f.mods)
                if (m.name == name) {
                    if (file)
                        *file = &f;
                    return &m;
                }
    return nullptr;
}
std::string World::findTarget(const std::string& typed) const {
    std::vector<std::string> c = split(typed);
    if (c.empty())
        return "";
    if (repo(c[0]))
        return c.size() == 2 && mod(c[0], c[1]) ? typed : "";
    if (c.size() != 1)
        return "";
    std::string found;
    for (const RepoM& r : repos)
        if (mod(r.name, c[0])) {
            if (found.size())
                return "";
            found = r.name + "." + c[0];
        }
    return found;
}
std::vector<std::string> World::allTargets() const {
    std::vector<std::string> v;
    for (auto& r : repos)
        for (auto& f : r.files)
            for (auto& m : f.mods)
                v.push_back(r.name + "." + m.name);
    return v;
}
// The extern that a provider in repo r is for
static std::string externOf(const RepoM& r, const Prov& p) {
    return p.ext.find('.') == std::string::npos ? r.name + "." + p.ext : p.ext;
}
static std::string fqn(const RepoM& r, const Prov& p) {
    std::string e = externOf(r, p);
    return e.compare(0, r.name.size() + 1, r.name + ".") == 0 ? e + "." + p.name : e + "." + r.name + "." + p.name;
}
std::vector<std::string> World::allProviders() const {
    std::vector<std::string> v;
    for (auto& r : repos)
        for (auto& f : r.files)
            for (auto& p : f.provs)
                v.push_back(fqn(r, p));
    return v;
}
const Prov* World::prov(const std::string& name, std::string* ext, std::string* key) const {
    for (auto& r : repos)
        for (auto& f : r.files)
            for (auto& p : f.provs)
                if (fqn(r, p) == name) {
                    std::string e = externOf(r, p);
                    if (ext)
                        *ext = e;
                    if (key)
                        *key = r.name + "/" + e.substr(e.find('.') + 1) + "/" + p.name;
                    return &p;
                }
    return nullptr;
}
std::string World::findProvider(const std::string& typed) const {
    std::vector<std::string> c = split(typed);
    if (c.empty())
        return "";
    auto isExtern = [&](const std::string& e) {
        for (auto& r : repos)
            for (auto& f : r.files)
                for (auto& p : f.provs)
                    if (externOf(r, p) == e)
                        return true;
        return false;
    };
    std::string ext;
    size_t i = 0;
    if (repo(c[0])) {
        if (c.size() < 2)
            return "";
        ext = c[0] + "." + c[1];
        if (!isExtern(ext))
            return "";
        i = 2;
    } else {
        for (auto& r : repos)
            if (isExtern(r.name + "." + c[0])) {
                if (ext.size())
                    return "";
                ext = r.name + "." + c[0];
            }
        if (ext.empty())
            return "";
        i = 1;
    }
    if (i >= c.size())
        return "";
    std::string inRepo;
    if (repo(c[i])) {
        inRepo = c[i++];
        if (i >= c.size())
            return "";
    }
    if (i + 1 != c.size())
        return "";
    std::string found;
    for (auto& r : repos)
        if (inRepo.empty() || r.name == inRepo)
            for (auto& f : r.files)
                for (auto& p : f.provs)
                    if (p.name == c[i] && externOf(r, p) == ext) {
                        if (found.size())
                            return "";
                        found = fqn(r, p);
                    }
    return found;
}
void World::writeFile(const ModFile& f) const {
    std::string t = render(f), old;
    if (sim::k::readFile(f.path, &old) && old == t)
        return;
    sim::k::mkdirs(dirOf(f.path));
    sim::k::writeFile(f.path, t);
}
void World::writeAll() const {
    for (const RepoM& r : repos) {
        sim::k::mkdirs("/ws/repos/" + r.name);
        if (r.dependsOn.size()) {
            std::string s = "{\n  \"dependsOn\": [\n";
            for (size_t i = 0; i < r.dependsOn.size(); i++)
                s += "    \"" + r.dependsOn[i] + (i + 1 < r.dependsOn.size() ? "\",\n" : "\"\n");
            sim::k::writeFile("/ws/repos/" + r.name + "/info.pylon", s + "  ]\n}\n");
        }
        for (const ModFile& f : r.files)
            writeFile(f);
    }
}
void World::addSource(const std::string& path, const std::string& text) {
    sources.insert(path);
    sim::k::mkdirs(dirOf(path));
    sim::k::writeFile(path, text);
}
void World::removeSource(const std::string& path) {
    sources.erase(path);
    sim::k::remove(path);
}

//---------------------------------------------------------------- random workspaces
static const char* exts[] = {".cpp", ".cpp", ".h", ".h", ".c", ".natvis", ".txt", ".CPP", ".H", ".inl", ".cpp.bak", ""};
static void genSources(World& w, const std::string& dir, bool rich, u32 minC) {
    u32 n = W.below(4);
    u32 salt = W.below(1000);
    auto sub = [&] { return rich && W.chance(0.4) ? std::string(W.chance(0.5) ? "/sub" : W.chance(0.5) ? "/sub/deep" : "/a b") : std::string(); };
    sim::k::mkdirs(dir);
    for (u32 i = 0; i < minC; i++)
        w.addSource(dir + "/main" + std::to_string(salt + i) + ".cpp");
    for (u32 i = 0; i < n; i++)
        w.addSource(dir + sub() + "/f" + std::to_string(W.below(6)) + exts[W.below(rich ? 12 : 4)]);
}
World genWorld(const GenOpts& o) {
    World w;
    w.repos.resize(2 + (o.rich && W.chance(0.2)));
    const char* names[] = {"alpha", "beta", "gamma"};
    std::vector<std::pair<std::string, std::string>> libs; // repo, module
    u32 counter = 0;
    std::string ext1 = W.chance(0.3) ? "beta.ext0" : "ext1"; // maybe of the same name as alpha's
    for (u32 ri = 0; ri < w.repos.size(); ri++) {
        RepoM& r = w.repos[ri];
        r.name = names[ri];
        for (u32 j = 0; j < ri; j++)
            if (j + 1 == ri || W.chance(0.5))
                r.dependsOn.push_back(names[j]);
        if (r.dependsOn.size() > 1 && W.chance(0.5))
            std::swap(r.dependsOn[0], r.dependsOn[1]);
        auto visible = [&](const std::string& other) { // repos reachable through dependsOn
            if (other == r.name)
                return true;
            std::vector<std::string> todo = r.dependsOn;
            for (size_t i = 0; i < todo.size(); i++) {
                if (todo[i] == other)
                    return true;
                for (auto& d : w.repo(todo[i])->dependsOn)
                    todo.push_back(d);
            }
            return false;
        };
        u32 nm = 2 + W.below(o.maxMods - 1);
        std::vector<Mod> mods;
        for (u32 i = 0; i < nm; i++) {
            Mod m;
            char base[] = "mnp";
            m.name = std::string(1, base[ri]) + std::to_string(i);
            if (W.chance(0.3))
                m.name += W.chance(0.5) ? "-x" : "_lib";
            m.exe = i + 1 == nm || W.chance(0.25);
            if (i == 0 && ri == 0)
                m.exe = false;
            for (auto& l : libs)
                if (visible(l.first) && W.chance(m.exe ? 0.5 : 0.35))
                    m.targets.push_back({W.chance(0.5), l.first == r.name && W.chance(0.6) ? l.second : W.chance(0.6) ? l.first + "." + l.second : l.second});
            for (size_t k = m.targets.size(); k > 1; k--)
                std::swap(m.targets[k - 1], m.targets[W.below((u32) k)]);
            u32 nd = W.below(3);
            for (u32 k = 0; k < nd; k++)
                m.defs.push_back({W.chance(0.5), "D" + std::to_string(counter++), W.chance(0.3) ? "" : std::to_string(W.below(10))});
            if (o.externs && W.chance(0.25))
                m.externs.push_back({W.chance(0.5), ri == 0 ? W.chance(0.5) ? "ext0" : "alpha.ext0" : ri == 1 ? W.chance(0.5) ? "alpha.ext0" : ext1 : "alpha.ext0"});
            if (W.chance(0.3))
                m.prefix = "PRE" + std::to_string(counter++);
            m.header = o.headers && W.chance(0.3);
            if (!m.exe)
                libs.push_back({r.name, m.name});
            mods.push_back(m);
        }
        // distribute them over files
        size_t at = 0;
        u32 fi = 0;
        while (at < mods.size()) {
            ModFile f;
            std::string sub = o.rich && W.chance(0.3) ? "deep/er/" : "";
            f.path = "/ws/repos/" + r.name + "/src/" + sub + "u" + std::to_string(fi) + "/" + (W.chance(0.3) ? "All" : "u" + std::to_string(fi)) + ".modules.cpp";
            f.salt = W.below(32);
            u32 n = 1 + W.below(2);
            for (u32 k = 0; k < n && at < mods.size(); k++) {
                Mod m = mods[at++];
                u32 kind = W.below(o.rich ? 6 : 4);
                std::string d = "s_" + std::to_string(at);
                std::string base = dirOf(f.path);
                if (kind == 0 && !m.exe) { // no sources at all, or only headers
                    if (W.chance(0.6)) {
                        m.src.push_back({d});
                        sim::k::mkdirs(base + "/" + d);
                        if (W.chance(0.7))
                            w.addSource(base + "/" + d + "/only.h");
                    }
                } else if (kind == 5) {
                    if (W.chance(0.3))
                        d = "../" + d + "_" + std::to_string(fi);
                    m.src.push_back({d, W.chance(0.5)});
                    genSources(w, normJoin(base, d), true, W.chance(0.8));
                    m.src.push_back({d + "b", W.chance(0.7)});
                    genSources(w, normJoin(base, d + "b"), true, W.below(3));
                } else if (kind == 4) {
                    if (W.chance(0.5)) { // no sources for an EXE, or a folder that does not exist
                        m.src.push_back({d + "none"});
                    }
                } else {
                    m.src.push_back({d, W.chance(0.75)});
                    genSources(w, base + "/" + d, o.rich, 1);
                }
                if (W.chance(0.1)) { // next to the module definition file
                    m.src.push_back({".", false});
                    w.addSource(base + "/top" + std::to_string(W.below(3)) + ".cpp");
                }
                u32 ni = W.below(3);
                const char* incs[] = {"inc", "../inc", "sub/../more", "x/y"};
                for (u32 q = 0; q < ni; q++) {
                    std::string dn = incs[W.below(4)];
                    bool dup = false;
                    for (auto& e : m.incs)
                        dup |= e.name == dn;
                    if (!dup)
                        m.incs.push_back({W.chance(0.5), dn});
                }
                f.mods.push_back(m);
            }
            if (o.externs && fi == 0) {
                if (ri == 0) {
                    f.provs.push_back({"ext0", "provA", "extA", "/ext/a"});
                    f.provs.push_back({"ext0", "provB", "", "/ext/b"});
                } else if (ri == 1) {
                    f.provs.push_back({"alpha.ext0", W.chance(0.5) ? "provB" : "provC", "extC", ""});
                    f.provs.push_back({ext1, "provD", "extD", "/ext/d", W.chance(0.9)});
                }
            }
            if (ri < 2 && fi == 0) { // the same name in both repos
                Mod u;
                u.name = "util";
                f.mods.push_back(u);
            }
            r.files.push_back(f);
            fi++;
        }
    }
    w.writeAll();
    sim::k::mkdirs("/ws/repos/plywood/src");
    return w;
}

// Does any module depend on this one?
static bool needed(const World& w, const std::string& repo, const std::string& name) {
    for (auto& r : w.repos)
        for (auto& f : r.files)
            for (auto& m : f.mods)
                for (auto& d : m.targets)
                    if (d.name == name || d.name == repo + "." + name)
                        return true;
    return false;
}
static bool visibleFrom(const World& w, const std::string& from, const std::string& to) {
    std::vector<std::string> todo{from};
    for (size_t i = 0; i < todo.size(); i++) {
        if (todo[i] == to)
            return true;
        for (auto& d : w.repo(todo[i])->dependsOn)
            todo.push_back(d);
    }
    return false;
}
void editWorld(World& w, u32 count, bool touchModules) {
    static u32 counter = 0;
    for (u32 n = 0; n < count; n++) {
        struct Ref {
            RepoM* r;
            ModFile* f;
            size_t i;
        };
        std::vector<Ref> all;
        for (auto& r : w.repos)
            for (auto& f : r.files)
                for (size_t i = 0; i < f.mods.size(); i++)
                    if (f.mods[i].name != "util")
                        all.push_back({&r, &f, i});
        if (all.empty())
            return;
        u32 at = W.below((u32) all.size());
        Ref x = all[at];
        Mod& m = x.f->mods[x.i];
        const char* what = "";
        switch (W.below(9)) {
            case 0:
                if (m.targets.size()) {
                    m.targets.erase(m.targets.begin() + W.below((u32) m.targets.size()));
                    what = "dependency removed";
                }
                break;
            case 1:
                if (at) {
                    Ref y = all[W.below(at)];
                    Mod& d = y.f->mods[y.i];
                    bool dup = d.exe || !visibleFrom(w, x.r->name, y.r->name);
                    for (auto& e : m.targets)
                        dup |= e.name == d.name || e.name == y.r->name + "." + d.name;
                    if (!dup) {
                        m.targets.insert(m.targets.begin() + W.below((u32) m.targets.size() + 1), {W.chance(0.5), y.r->name + "." + d.name});
                        what = "dependency added";
                    }
                }
                break;
            case 2:
                m.defs.push_back({W.chance(0.5), "E" + std::to_string(counter++), "1"});
                what = "definition added";
                break;
            case 3:
                if (m.targets.size()) {
                    u32 k = W.below((u32) m.targets.size());
                    m.targets[k].pub = !m.targets[k].pub;
                    what = "dependency's visibility changed";
                }
                break;
            case 4:
                if (m.src.size()) {
                    std::string d = normJoin(dirOf(x.f->path), m.src[W.below((u32) m.src.size())].dir);
                    w.addSource(d + (W.chance(0.3) ? "/new" : "") + "/n" + std::to_string(counter++) + (W.chance(0.7) ? ".cpp" : ".h"));
                    what = "source added";
                }
                break;
            case 5:
                if (w.sources.size()) {
                    auto it = w.sources.begin();
                    std::advance(it, W.below((u32) w.sources.size()));
                    std::string p = *it;
                    w.removeSource(p);
                    what = "source removed";
                }
                break;
            case 6:
                if (!needed(w, x.r->name, m.name)) {
                    m.exe = !m.exe;
                    what = "target type changed";
                }
                break;
            case 7:
                if (!needed(w, x.r->name, m.name) && all.size() > 3) {
                    if (W.chance(0.5)) {
                        m.name += "r";
                        what = "module renamed";
                    } else {
                        x.f->mods.erase(x.f->mods.begin() + (long) x.i);
                        what = "module removed";
                    }
                }
                break;
            case 8:
                m.incs.clear();
                x.f->salt++;
                what = "include directories removed";
                break;
        }
        if (touchModules) // build systems are only regenerated when a module definition changed
            x.f->salt = (x.f->salt + 1) % 32;
        sim::log("edit: %s.%s: %s", x.r->name.c_str(), x.f->path.c_str(), what);
        w.writeFile(*x.f);
    }
}

//---------------------------------------------------------------- settings
static PNode strNode(const std::string& s) {
    PNode n;
    n.s = s;
    return n;
}
static PNode arrNode(const std::vector<std::string>& v) {
    PNode n;
    n.t = PNode::Arr;
    for (auto& s : v)
        n.items.push_back(strNode(s));
    return n;
}
PNode toPylon(const Settings& s) {
    PNode n, c;
    n.t = c.t = PNode::Obj;
    c.kv = {{"generator", strNode(s.generator)}, {"platform", strNode(s.platform)}, {"toolset", strNode(s.toolset)}, {"toolchainFile", strNode(s.toolchainFile)}};
    n.kv = {{"solutionName", strNode(s.solution)}, {"cmakeOptions", c}, {"rootTargets", arrNode(s.roots)}, {"makeShared", arrNode(s.shared)},
            {"externSelectors", arrNode(s.selectors)}, {"activeConfig", strNode(s.activeConfig)}, {"activeTarget", strNode(s.activeTarget)}};
    return n;
}
bool fromPylon(const PNode& n, Settings* s) {
    if (n.t != PNode::Obj)
        return false;
    s->solution = n.str("solutionName");
    const PNode* c = n.get("cmakeOptions");
    s->generator = s->platform = s->toolset = s->toolchainFile = "";
    if (c) {
        s->generator = c->str("generator");
        s->platform = c->str("platform");
        s->toolset = c->str("toolset");
        s->toolchainFile = c->str("toolchainFile");
    }
    s->roots = n.arr("rootTargets");
    s->shared = n.arr("makeShared");
    s->selectors = n.arr("externSelectors");
    s->activeConfig = n.str("activeConfig");
    s->activeTarget = n.str("activeTarget");
    return true;
}
std::vector<std::string> cmakeArgs(const Settings& s, const std::string& config) {
    std::vector<std::string> a{"../..", "-G", s.generator};
    if (s.platform.size())
        a.insert(a.end(), {"-A", s.platform});
    if (s.toolset.size())
        a.insert(a.end(), {"-T", s.toolset});
    if (s.toolchainFile == "ios")
        a.push_back("-DCMAKE_SYSTEM_NAME=iOS");
    a.push_back("-DCMAKE_BUILD_TYPE=" + config);
    a.push_back("-DCMAKE_C_COMPILER_FORCED=1");
    a.push_back("-DCMAKE_CXX_COMPILER_FORCED=1");
    return a;
}

//---------------------------------------------------------------- instantiation
// A target or an instantiated extern, with everything that follows from the module definition alone.
struct Node {
    std::string key;  // "repo.module" or "extern:repo.extern"
    std::string name; // CMake target
    bool isTarget = false;
    std::string type; // exe, lib, object, shared, header
    const Mod* m = nullptr;
    std::vector<std::pair<bool, Node*>> deps;
    std::vector<std::string> incPub, incAll;
    std::vector<std::string> defPub, defAll;
    std::vector<std::string> libs; // externs
    std::vector<std::string> sources, nonPart;
    bool shared = false; // part of the shared root
};
static bool lowerExt(const std::string& path, std::string* ext) {
    std::string leaf = path.substr(path.rfind('/') + 1);
    size_t d = leaf.rfind('.');
    if (d == std::string::npos)
        return false;
    *ext = leaf.substr(d);
    for (char& c : *ext)
        c = (char) tolower(c);
    return true;
}
static bool endsWith(const std::string& s, const char* e) {
    size_t n = strlen(e);
    return s.size() >= n && s.compare(s.size() - n, n, e) == 0;
}
struct Instantiator {
    const World& w;
    const Settings& s;
    Inst* out;
    std::map<std::string, Node*> nodes;
    std::vector<std::unique_ptr<Node>> own;
    bool inShared = false;

    std::string resolveTarget(const std::string& repo, const std::string& name) {
        std::vector<std::string> c = split(name);
        if (c.size() == 2)
            return w.mod(c[0], c[1]) ? name : "";
        std::string found;
        for (auto& r : w.repos)
            if (w.mod(r.name, c[0]))
                found = r.name + "." + c[0];
        (void) repo;
        return found;
    }
    Node* add(const std::string& key) {
        own.emplace_back(new Node);
        own.back()->key = key;
        nodes[key] = own.back().get();
        return own.back().get();
    }
    Node* external(const std::string& ext) {
        auto f = nodes.find("extern:" + ext);
        if (f != nodes.end())
            return f->second;
        nodes["extern:" + ext] = nullptr;
        for (auto& sel : s.selectors) {
            std::string e, key;
            const Prov* p = w.prov(sel, &e, &key);
            if (!p || e != ext)
                continue;
            if (!p->supported || !installed[key])
                break;
            Node* n = add("extern:" + ext);
            if (p->libs.size())
                n->libs.push_back(p->libs);
            if (p->inc.size())
                n->incPub.push_back(p->inc);
            return n;
        }
        out->status = I_UNREADY;
        return nullptr;
    }
    Node* target(const std::string& key, bool sharedRoot) {
        auto f = nodes.find(key);
        if (f != nodes.end())
            return f->second;
        Node* n = add(key);
        out->targets.insert(key);
        std::string repo = key.substr(0, key.find('.'));
        n->name = key.substr(repo.size() + 1);
        n->isTarget = true;
        const ModFile* file = nullptr;
        n->m = w.mod(repo, n->name, &file);
        const Mod& m = *n->m;
        n->shared = inShared;
        std::string dir = dirOf(file->path);
        for (auto& d : m.incs) {
            n->incAll.push_back(normJoin(dir, d.name));
            if (d.pub)
                n->incPub.push_back(normJoin(dir, d.name));
        }
        for (auto& d : m.defs) {
            n->defAll.push_back(d.key + "=" + d.value);
            if (d.pub)
                n->defPub.push_back(d.key + "=" + d.value);
        }
        bool code = false;
        for (auto& sd : m.src) {
            std::string root = normJoin(dir, sd.dir);
            std::set<std::string> files(w.sources.begin(), w.sources.end());
            for (auto& r : w.repos)
                for (auto& mf : r.files)
                    files.insert(mf.path);
            for (auto& p : files) {
                if (p.compare(0, root.size() + 1, root + "/"))
                    continue;
                if (!sd.recursive && p.find('/', root.size() + 1) != std::string::npos)
                    continue;
                std::string ext;
                bool has = lowerExt(p, &ext);
                if (endsWith(p, ".modules.cpp") || (has && ext == ".natvis"))
                    n->nonPart.push_back(p);
                else if (has && (ext == ".cpp" || ext == ".c" || ext == ".h")) {
                    n->sources.push_back(p);
                    code |= ext != ".h";
                }
            }
        }
        if (m.exe)
            n->type = "exe";
        else if (sharedRoot)
            n->type = "shared";
        else if (inShared && m.prefix.size())
            n->type = "object";
        else
            n->type = "lib";
        if (!code) {
            if (n->type == "lib" || n->type == "object")
                n->type = "header";
            else
                n->sources.push_back("/ws/data/build/" + s.name + "/codegen/" + n->name + "/Null.cpp");
        }
        if (m.header)
            out->headers.insert(n->name);
        for (auto& d : m.targets) {
            std::string k = resolveTarget(repo, d.name);
            if (k.empty())
                continue;
            n->deps.push_back({d.pub, target(k, false)});
        }
        for (auto& d : m.externs) {
            std::vector<std::string> c = split(d.name);
            std::string ext = c.size() == 2 ? d.name : "";
            if (ext.empty()) // the repo's own one, or else the only one of that name
                for (auto& p : w.allProviders()) {
                    std::string e;
                    w.prov(p, &e, nullptr);
                    if (e.substr(e.find('.') + 1) == d.name && ext != repo + "." + d.name)
                        ext = e;
                }
            Node* x = external(ext);
            if (x)
                n->deps.push_back({d.pub, x});
        }
        return n;
    }
};
// Everything whose public properties are seen through n
static void seen(Node* n, std::set<Node*>& v) {
    if (!v.insert(n).second)
        return;
    for (auto& d : n->deps)
        if (d.first)
            seen(d.second, v);
}
static void closure(Node* n, std::set<Node*>& v) {
    for (auto& d : n->deps)
        if (v.insert(d.second).second)
            closure(d.second, v);
}
Inst instantiate(const World& w, const Settings& s) {
    Inst out;
    for (auto& sel : s.selectors)
        if (w.findProvider(sel).empty()) {
            out.status = I_INVALID;
            return out;
        }
    Instantiator it{w, s, &out, {}, {}};
    for (auto& r : s.roots) {
        std::string k = w.findTarget(r);
        if (k.empty()) {
            out.status = I_INVALID;
            return out;
        }
        bool sh = std::find(s.shared.begin(), s.shared.end(), r) != s.shared.end();
        it.inShared = sh;
        it.target(k, sh);
    }
    if (out.status != I_OK)
        return out;
    CMakeFile& c = out.cmake;
    c.project = s.solution;
    c.include = "/ws/repos/plywood/scripts/Helper.cmake";
    for (auto& n : it.own) {
        if (!n->isTarget)
            continue;
        CTarget t;
        t.type = n->type;
        t.sources = n->sources;
        t.nonPart = n->nonPart;
        std::set<Node*> deps;
        closure(n.get(), deps);
        for (Node* d : deps)
            if (d->isTarget)
                out.deps[n->name].insert(d->name);
        if (t.type != "header") {
            t.exceptions = "FALSE";
            std::set<std::string> inc(n->incAll.begin(), n->incAll.end()), def(n->defAll.begin(), n->defAll.end());
            std::set<Node*> vis{n.get()};
            for (auto& d : n->deps)
                seen(d.second, vis);
            for (Node* d : vis) {
                if (d != n.get()) {
                    inc.insert(d->incPub.begin(), d->incPub.end());
                    def.insert(d->defPub.begin(), d->defPub.end());
                }
                if (d->isTarget && d->shared && d->m->prefix.size())
                    def.insert(d->m->prefix + "_EXPORTING=1");
            }
            t.includes.assign(inc.begin(), inc.end());
            t.defines.assign(def.begin(), def.end());
        }
        if (t.type == "exe" || t.type == "shared") {
            t.exports = t.type == "exe";
            std::set<std::string> libs, objs;
            for (Node* d : deps) {
                if (!d->isTarget)
                    libs.insert(d->libs.begin(), d->libs.end());
                else if (d->type == "object")
                    objs.insert(d->name);
                else if (d->type != "header")
                    libs.insert(d->name);
            }
            t.libs.assign(libs.begin(), libs.end());
            t.objects.assign(objs.begin(), objs.end());
        }
        c.targets[n->name] = t;
        c.order.push_back(n->name);
    }
    return out;
}
bool linkOrderOk(const CMakeFile& c, const Inst& in, std::string* why) {
    for (auto& e : c.targets)
        for (size_t i = 0; i < e.second.libs.size(); i++)
            for (size_t j = i + 1; j < e.second.libs.size(); j++) {
                auto d = in.deps.find(e.second.libs[j]);
                if (d != in.deps.end() && d->second.count(e.second.libs[i])) {
                    *why = "target " + e.first + " links " + e.second.libs[i] + " before " + e.second.libs[j] + ", which depends on it";
                    return false;
                }
            }
    return true;
}
bool sharedOk(const World& w, const std::vector<std::string>& roots, const std::vector<std::string>& shared) {
    // at most one shared root, the last one, which has nothing in common with the others
    std::set<std::string> before;
    for (size_t i = 0; i < roots.size(); i++) {
        bool sh = std::find(shared.begin(), shared.end(), roots[i]) != shared.end();
        if (sh && i + 1 != roots.size())
            return false;
        Settings s;
        s.roots = {roots[i]};
        Inst in = instantiate(w, s);
        if (in.status == I_INVALID)
            return true;
        if (sh)
            for (auto& t : in.targets)
                if (before.count(t))
                    return false;
        before.insert(in.targets.begin(), in.targets.end());
    }
    return true;
}
} // namespace pt
