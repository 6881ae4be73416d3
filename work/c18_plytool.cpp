// C18: PlyTool's commands change exactly what they say they change, and what they build is current.
#include "plyworld.h"
#include <algorithm>
using namespace pt;

namespace {
struct Ws {
    std::string current, generator, platform, toolset, toolchainFile, defaultConfig, newLines;
    bool operator==(const Ws& o) const {
        auto nl = [](const std::string& s) { return s.empty() ? std::string("lf") : s; };
        return current == o.current && generator == o.generator && platform == o.platform && toolset == o.toolset && toolchainFile == o.toolchainFile &&
               defaultConfig == o.defaultConfig && nl(newLines) == nl(o.newLines);
    }
};
// Everything that is on the disk
struct State {
    Ws ws;
    std::map<std::string, Settings> folders;
};
struct Pred {
    bool ok = true;       // exit code 0
    int code = -1000;     // the exact exit code, if known
    State after;          // settings files, also if the command fails
    bool newFolder = false; // the last entry of after.folders with an empty name has to be matched
    std::string folder;   // build folder whose generated files may change
    bool generate = false, mayGenerate = false, build = false, run = false;
    std::string config, target; // "repo.module"
    std::vector<std::string> outLines; // expected in the output
    bool registry = false;
};
struct Cmd {
    std::vector<std::string> args;
    Pred p;
};

const char* wsPath = "/ws/workspace-settings.pylon";
std::string folderPath(const std::string& n) {
    return "/ws/data/build/" + n;
}
std::string infoPath(const std::string& n) {
    return folderPath(n) + "/info.pylon";
}
PNode strN(const std::string& s) {
    PNode n;
    n.s = s;
    return n;
}

struct Test {
    World w;
    State st;
    u32 version = 0; // of the modules and sources
    struct Snap {
        Settings s;
        u32 version;
    };
    std::map<std::pair<std::string, std::string>, Snap> gen; // (folder, config) -> what its build system was made from
    std::vector<std::string> configs, names;

    //------------------------------------------------------------ disk
    Ws readWs() {
        Ws r;
        std::string t;
        PNode n;
        if (!sim::k::readFile(wsPath, &t))
            return r;
        if (!parsePylon(t, &n) || n.t != PNode::Obj)
            sim::violate("settings-torn", "the workspace settings file is not readable: %s", sim::escape(t, 200).c_str());
        r.current = n.str("currentBuildFolder");
        if (const PNode* c = n.get("defaultCMakeOptions")) {
            r.generator = c->str("generator");
            r.platform = c->str("platform");
            r.toolset = c->str("toolset");
            r.toolchainFile = c->str("toolchainFile");
        }
        r.defaultConfig = n.str("defaultConfig");
        r.newLines = n.str("sourceNewLines");
        return r;
    }
    void writeWs(const Ws& v) {
        PNode n, c;
        n.t = c.t = PNode::Obj;
        c.kv = {{"generator", strN(v.generator)}, {"platform", strN(v.platform)}, {"toolset", strN(v.toolset)}, {"toolchainFile", strN(v.toolchainFile)}};
        n.kv = {{"currentBuildFolder", strN(v.current)}, {"defaultCMakeOptions", c}, {"defaultConfig", strN(v.defaultConfig)}, {"sourceNewLines", strN(v.newLines)}};
        sim::k::writeFile(wsPath, writePylon(n));
    }
    bool readFolder(const std::string& name, Settings* s, PNode* whole = nullptr) {
        std::string t;
        PNode n;
        if (!sim::k::readFile(infoPath(name), &t))
            return false;
        if (!parsePylon(t, &n) || !fromPylon(n, s))
            sim::violate("settings-torn", "%s is not readable: %s", infoPath(name).c_str(), sim::escape(t, 300).c_str());
        s->name = name;
        if (whole)
            *whole = n;
        return true;
    }
    std::set<std::string> listFolders() {
        std::set<std::string> r;
        sim::Inode* d = sim::k::lookup("/ws/data/build");
        if (d)
            for (auto& e : d->ents)
                if (sim::k::readFile(infoPath(e.first)))
                    r.insert(e.first);
        return r;
    }
    State readState() {
        State s;
        s.ws = readWs();
        for (auto& n : listFolders())
            readFolder(n, &s.folders[n]);
        return s;
    }
    // Files that only this folder's commands may change
    std::map<std::string, std::string> others(const std::string& folder) {
        std::map<std::string, std::string> t;
        for (auto& e : sim::k::tree("/ws")) {
            std::string p = e.first[0] == '/' ? e.first : "/ws/" + e.first;
            if (p == wsPath || p.compare(0, 25, "/ws/data/build/bootstrap/") == 0 || p == "/ws/data/build/bootstrap")
                continue;
            if (folder.size() && (p == folderPath(folder) || p.compare(0, folderPath(folder).size() + 1, folderPath(folder) + "/") == 0))
                continue;
            if (p.compare(0, 15, "/ws/data/build/") == 0 && p.find("/codegen") != std::string::npos)
                continue; // placeholders for targets without sources
            if (p == "/ws/data/build" || p == "/ws/data")
                continue;
            t[p] = e.second;
        }
        return t;
    }

    //------------------------------------------------------------ model
    Settings* current(State& s) {
        auto f = s.folders.find(s.ws.current);
        return f == s.folders.end() ? nullptr : &f->second;
    }
    bool contains(const std::vector<std::string>& v, const std::string& s) { return std::find(v.begin(), v.end(), s) != v.end(); }
    void fail(Pred& p, int code = -1000) {
        p.ok = false;
        p.code = code;
    }
    static bool addRoot(Settings& s, const std::string& t, bool shared, bool (*has)(const std::vector<std::string>&, const std::string&)) {
        bool ch = false;
        if (!has(s.roots, t))
            s.roots.push_back(t), ch = true;
        if (shared && !has(s.shared, t))
            s.shared.push_back(t), ch = true;
        if (s.activeTarget != t)
            s.activeTarget = t, ch = true;
        return ch;
    }
    static bool hasStr(const std::vector<std::string>& v, const std::string& s) { return std::find(v.begin(), v.end(), s) != v.end(); }

    std::string word(const char* full) { // a command, or a prefix of at least two characters
        std::string s = full;
        if (W.chance(0.8))
            return s;
        size_t n = 2 + W.below((u32) s.size() - 1);
        s.resize(n);
        if (s == "bo" || s == "co" || s == "cl" || s == "in") // of several commands
            return full;
        return s;
    }
    std::string typedTarget() {
        std::vector<std::string> all = w.allTargets();
        u32 k = W.below(16);
        if (k == 0) {
            const char* bad[] = {"nope", "alpha", "alpha.nope", "util", "x.y", "alpha.m0.z", ".m0", "m0."};
            return bad[W.below(8)];
        }
        std::string t;
        for (u32 i = 0; i < 8; i++) {
            t = all[W.below((u32) all.size())];
            std::string m = t.substr(t.find('.') + 1);
            if (m != "util" && (w.mod(t.substr(0, t.find('.')), m)->exe || W.chance(0.2)))
                break;
        }
        if (t.substr(t.find('.') + 1) == "util")
            return "nope";
        return W.chance(0.5) ? t : t.substr(t.find('.') + 1);
    }
    std::string typedProvider() {
        std::vector<std::string> all = w.allProviders();
        if (all.empty() || W.below(10) == 0) {
            const char* bad[] = {"nope", "alpha", "alpha.ext0", "ext0.nope", "ext0.provB", "alpha.ext0.provA.x", "beta.ext0.provA", "ext0.alpha", "ext0"};
            return bad[W.below(9)];
        }
        std::string t = all[W.below((u32) all.size())];
        if (W.chance(0.3))
            return t.substr(t.find('.') + 1);
        return t;
    }
    std::string someFolder(bool existing) {
        if (existing && st.folders.size() && W.chance(0.85)) {
            auto it = st.folders.begin();
            std::advance(it, W.below((u32) st.folders.size()));
            return it->first;
        }
        return names[W.below((u32) names.size())];
    }

    bool haveLast = false, lastAuto = false, again = false;
    std::string lastT, lastCfg;
    void predictBuild(Cmd& c, bool run) {
        Pred& p = c.p;
        std::string t = W.chance(0.75) ? typedTarget() : "";
        std::string cfg = W.chance(0.5) ? configs[W.below((u32) configs.size())] : "";
        bool aut = W.chance(0.2), add = W.chance(0.35), sh = (aut || add) ? W.chance(0.15) : W.chance(0.02), nob = run && W.chance(0.3);
        if (haveLast && (again || W.chance(0.4))) { // the same again
            t = lastT;
            aut = lastAuto;
            add = sh = false;
            if (again || W.chance(0.7))
                cfg = lastCfg;
        }
        again = false;
        haveLast = true;
        lastT = t;
        lastCfg = cfg;
        lastAuto = aut;
        std::vector<std::string> a;
        if (t.size())
            a.push_back(t);
        auto opt = [&](const std::string& o) { a.insert(a.begin() + W.below((u32) a.size() + 1), o); };
        if (cfg.size())
            opt("--config=" + cfg);
        if (aut)
            opt("--auto");
        if (add)
            opt("--add");
        if (sh)
            opt("--shared");
        if (nob)
            opt("--nobuild");
        c.args.insert(c.args.end(), a.begin(), a.end());
        p.run = run;
        if (sh && !aut && !add)
            return fail(p, 1);
        p.registry = true;
        State& s = p.after;
        Settings* f = nullptr;
        std::string k = w.findTarget(t);
        if (aut) {
            if (t.empty() || k.empty())
                return fail(p, 1);
            std::vector<Settings*> m;
            for (auto& e : s.folders)
                for (auto& r : e.second.roots)
                    if (w.findTarget(r) == k) {
                        m.push_back(&e.second);
                        break;
                    }
            if (m.size() > 1)
                return fail(p, 1);
            if (m.size() == 1) {
                f = m[0];
                s.ws.current = f->name;
            } else {
                p.newFolder = true;
                Settings n;
                n.name = n.solution = "\1" + t; // to be matched
                n.generator = s.ws.generator.size() ? s.ws.generator : "Unix Makefiles";
                if (s.ws.generator.size()) {
                    n.platform = s.ws.platform;
                    n.toolset = s.ws.toolset;
                    n.toolchainFile = s.ws.toolchainFile;
                }
                n.activeConfig = s.ws.defaultConfig.size() ? s.ws.defaultConfig : "Debug";
                addRoot(n, k, sh, hasStr);
                s.ws.current = n.name;
                f = &(s.folders[n.name] = n);
            }
        } else {
            f = current(s);
            if (!f)
                return fail(p, 1);
        }
        p.folder = f->name;
        Inst in = instantiate(w, *f);
        if (in.status == I_INVALID)
            return fail(p, 1);
        if (t.empty())
            k = w.findTarget(f->activeTarget);
        if (k.empty())
            return fail(p, 1);
        if (!in.targets.count(k)) {
            if (!add)
                return fail(p, 1);
            addRoot(*f, k, sh, hasStr);
            in = instantiate(w, *f);
            if (in.status == I_INVALID)
                return fail(p, 1);
        }
        std::string repo = k.substr(0, k.find('.')), m = k.substr(k.find('.') + 1);
        if (!w.mod(repo, m)->exe)
            return fail(p, 1);
        p.target = k;
        p.config = cfg.size() ? cfg : f->activeConfig;
        if (!nob) {
            auto g = gen.find({f->name, p.config});
            bool same = g != gen.end() && g->second.version == version && sameInputs(g->second.s, *f);
            p.mayGenerate = true;
            p.generate = !same;
            if (!same && in.status == I_UNREADY) {
                p.generate = p.mayGenerate = false;
                return fail(p, run ? 255 : 1);
            }
            p.build = true;
        }
        if (run) {
            std::string exe = folderPath(f->name) + "/build/" + p.config + "/" + m;
            sim::Inode* x = sim::k::lookup(exe);
            if (!p.build && !x)
                return fail(p, 1);
            if (!p.build && x->data.compare(0, 3, "EXE"))
                return fail(p); // incomplete
            p.code = exeCode[m];
            p.ok = p.code == 0;
        }
    }
    static bool sameInputs(const Settings& a, const Settings& b) {
        return a.solution == b.solution && a.generator == b.generator && a.platform == b.platform && a.toolset == b.toolset && a.toolchainFile == b.toolchainFile &&
               a.roots == b.roots && a.shared == b.shared && a.selectors == b.selectors;
    }
    Cmd randomCmd() {
        Cmd c;
        Pred& p = c.p;
        p.after = st;
        State& s = p.after;
        Settings* f = current(s);
        u32 kind = W.below(28);
        if (kind > 25 && W.chance(0.5))
            kind = 11;
        if (kind == 2 && W.chance(0.6))
            kind = 20;
        if (!f && W.chance(0.5))
            kind = W.chance(0.5) ? 1 : 0;
        if (again)
            kind = 20;
        switch (kind) {
            case 0: { // folder list, or no such folder to set
                if (W.chance(0.5)) {
                    c.args = {word("folder"), word("list")};
                    for (auto& e : st.folders)
                        p.outLines.push_back("    " + e.first + (e.first == st.ws.current ? " (active)" : ""));
                } else {
                    std::string n = someFolder(true);
                    c.args = {word("folder"), word("set"), n};
                    if (!s.folders.count(n))
                        fail(p, 1);
                    else
                        s.ws.current = n;
                }
                break;
            }
            case 1: {
                std::string n = someFolder(false);
                c.args = {word("folder"), word("create"), n};
                if (s.folders.count(n)) {
                    fail(p, 1);
                    break;
                }
                Settings x;
                x.name = x.solution = n;
                if (s.ws.generator.size()) {
                    x.platform = s.ws.platform;
                    x.toolset = s.ws.toolset;
                    x.toolchainFile = s.ws.toolchainFile;
                }
                x.activeConfig = s.ws.defaultConfig.size() ? s.ws.defaultConfig : "Debug";
                s.folders[n] = x;
                s.ws.current = n;
                p.folder = n;
                break;
            }
            case 2: {
                std::string n = someFolder(true);
                if (W.chance(0.5))
                    n = someFolder(false);
                c.args = {word("folder"), word("delete"), n};
                p.folder = n;
                if (!s.folders.count(n))
                    fail(p, 1);
                else
                    s.folders.erase(n);
                break;
            }
            case 3:
            case 4: {
                std::string t = typedTarget();
                bool sh = W.chance(0.15);
                c.args = {word("target"), word("add"), t};
                if (sh)
                    c.args.insert(c.args.begin() + W.below(4), "--shared");
                p.registry = true;
                std::string k = w.findTarget(t);
                if (!f || k.empty()) {
                    fail(p, 1);
                    break;
                }
                p.folder = f->name;
                addRoot(*f, k, sh, hasStr);
                break;
            }
            case 5: {
                std::string t = f && f->roots.size() && W.chance(0.8) ? f->roots[W.below((u32) f->roots.size())] : typedTarget();
                c.args = {word("target"), word("remove"), t};
                p.registry = true;
                std::string k = w.findTarget(t);
                if (!f || k.empty() || !hasStr(f->roots, k)) {
                    fail(p, 1);
                    break;
                }
                p.folder = f->name;
                f->roots.erase(std::find(f->roots.begin(), f->roots.end(), k));
                break;
            }
            case 6: {
                std::string t = typedTarget();
                c.args = {word("target"), word("set"), t};
                p.registry = true;
                std::string k = w.findTarget(t);
                Inst in;
                if (f)
                    in = instantiate(w, *f);
                if (!f || in.status == I_INVALID || k.empty() || !in.targets.count(k)) {
                    fail(p, 1);
                    break;
                }
                p.folder = f->name;
                f->activeTarget = k;
                break;
            }
            case 7: {
                if (W.chance(0.6)) {
                    c.args = {word("target"), word("list")};
                    p.registry = true;
                    if (!f) {
                        fail(p, 1);
                        break;
                    }
                    for (auto& r : f->roots) {
                        std::string k = w.findTarget(r);
                        p.outLines.push_back(k.empty() ? "    " + r + " (not found)" : "    " + k.substr(k.find('.') + 1) + (r == f->activeTarget ? " (active)" : ""));
                    }
                } else {
                    c.args = {word("target"), word("graph")};
                    p.registry = true;
                    if (!f)
                        fail(p, 1);
                }
                break;
            }
            case 8: {
                c.args = {word("extern"), W.chance(0.5) ? "selected" : word("list")};
                if (!f) {
                    fail(p, 1);
                    break;
                }
                if (c.args[1] == "selected")
                    for (auto& e : f->selectors)
                        p.outLines.push_back("    " + e);
                else
                    p.registry = true;
                break;
            }
            case 9: {
                std::string n = typedProvider();
                bool inst = W.chance(0.4);
                c.args = {word("extern"), word("select"), n};
                if (inst)
                    c.args.insert(c.args.begin() + W.below(4), "--install");
                p.registry = true;
                std::string q = w.findProvider(n);
                if (!f || q.empty()) {
                    fail(p, 1);
                    break;
                }
                std::string ext, key;
                const Prov* pr = w.prov(q, &ext, &key);
                if (inst && (!pr->supported || installFails[key])) {
                    fail(p, 1);
                    break;
                }
                p.folder = f->name;
                std::vector<std::string> keep;
                for (auto& e : f->selectors) {
                    std::string x = w.findProvider(e), xe;
                    if (x.size())
                        w.prov(x, &xe, nullptr);
                    if (x.empty() || xe != ext)
                        keep.push_back(e);
                }
                keep.push_back(q);
                f->selectors = keep;
                break;
            }
            case 10: {
                std::string n = typedProvider();
                c.args = {word("extern"), word("install"), n};
                p.registry = true;
                std::string q = w.findProvider(n), key;
                const Prov* pr = q.empty() ? nullptr : w.prov(q, nullptr, &key);
                if (!f || !pr || !pr->supported || installFails[key])
                    fail(p, 1);
                break;
            }
            case 11: {
                std::string cfg = W.chance(0.6) ? configs[W.below((u32) configs.size())] : "";
                c.args = {word("generate")};
                if (cfg.size())
                    c.args.push_back("--config=" + cfg);
                p.registry = true;
                if (!f || instantiate(w, *f).status != I_OK) {
                    fail(p, 1);
                    break;
                }
                p.folder = f->name;
                p.config = cfg.size() ? cfg : f->activeConfig;
                p.generate = p.mayGenerate = true;
                break;
            }
            case 12: {
                c.args = {word("module"), word("list")};
                p.registry = true;
                std::vector<std::string> l;
                std::vector<std::string> rs;
                for (auto& r : w.repos)
                    rs.push_back(r.name);
                std::sort(rs.begin(), rs.end());
                for (auto& rn : rs) {
                    bool any = w.repo(rn)->files.size() > 0;
                    if (any)
                        p.outLines.push_back("Modules in repo '" + rn + "':");
                    for (auto& mf : w.repo(rn)->files)
                        for (auto& m : mf.mods)
                            p.outLines.push_back("    " + m.name);
                }
                break;
            }
            case 13:
                if (W.chance(0.3)) { // not a command
                    const char* bad[][3] = {{"nope", "", ""}, {"folder", "nope", ""}, {"target", "add", ""}, {"target", "list", "more"}, {"extern", "list", "--x"},
                                            {"folder", "create", ""}, {"extern", "select", ""}, {"generate", "x", ""}, {"build", "a", "b"}, {"target", "t", "m0"},
                                            {"module", "list", "--force"}, {"run", "--x", ""}};
                    u32 b = W.below(12);
                    for (auto& e : bad[b])
                        if (*e)
                            c.args.push_back(e);
                    fail(p, 1);
                    p.registry = true;
                    break;
                } // fall through
            default: {
                bool run = W.chance(0.35);
                c.args = {word(run ? "run" : "build")};
                predictBuild(c, run);
            }
        }
        return c;
    }
    bool allSharedOk(const State& s) {
        for (auto& e : s.folders)
            if (!sharedOk(w, e.second.roots, e.second.shared))
                return false;
        return true;
    }

    //------------------------------------------------------------ running a command
    bool belongs(const std::string& dir, const std::string& folder) {
        return dir.compare(0, folderPath(folder).size() + 1, folderPath(folder) + "/") == 0;
    }
    void run(const Cmd& cmd, u32 crashAt = 0, bool killTools = false) {
        const Pred& p0 = cmd.p;
        std::string text;
        for (auto& a : cmd.args)
            text += " " + a;
        std::set<std::string> before = listFolders();
        auto rest = others(p0.folder);
        std::string oldLists;
        bool hadLists = p0.folder.size() && sim::k::readFile(folderPath(p0.folder) + "/CMakeLists.txt", &oldLists);
        std::map<std::string, std::string> oldInfo;
        for (auto& n : before)
            sim::k::readFile(infoPath(n), &oldInfo[n]);
        size_t tool0 = toolRuns.size();

        Result r = plytool(cmd.args, crashAt, killTools);

        // the folder that was created by --auto
        Pred p = p0;
        std::set<std::string> now = listFolders();
        std::string made;
        if (p.newFolder) {
            for (auto& n : now)
                if (!before.count(n))
                    made = n;
            std::string base = p.folder.substr(1);
            if (made.size()) {
                if (made.compare(0, base.size(), base))
                    sim::violate("wrong-folder", "plytool%s created the build folder %s", text.c_str(), made.c_str());
                Settings n = p.after.folders[p.folder];
                n.name = n.solution = made;
                p.after.folders.erase(p.folder);
                p.after.folders[made] = n;
                p.after.ws.current = made;
                p.folder = made;
            }
        }
        bool toolTrouble = false, folderTrouble = false, exeTrouble = false;
        u32 cmakes = 0, makes = 0, exes = 0, wrongDir = 0;
        const ToolRun* lastMake = nullptr;
        const ToolRun* lastExe = nullptr;
        std::string dir = folderPath(p.folder) + "/build/" + p.config;
        for (size_t i = tool0; i < toolRuns.size(); i++) {
            const ToolRun& t = toolRuns[i];
            bool exe = t.tool != "cmake" && t.tool != "make";
            if (exe) {
                exes++;
                lastExe = &toolRuns[i];
                exeTrouble |= !t.finished;
                continue;
            }
            bool bad = !t.finished || t.code != 0;
            if (bad && !r.crashed && !r.faults && cmakePlan == T_OK && makePlan == T_OK)
                sim::violate("tool-failed", "plytool%s ran %s in %s on something that it can't work with", text.c_str(), t.tool.c_str(), t.dir.c_str());
            toolTrouble |= bad;
            if (t.dir.compare(0, 24, "/ws/data/build/bootstrap") == 0)
                continue;
            folderTrouble |= bad;
            if (t.dir != dir || p.folder.empty()) {
                wrongDir++;
                continue;
            }
            if (t.tool == "cmake")
                cmakes++;
            else
                makes++, lastMake = &toolRuns[i];
        }
        bool excused = r.crashed || r.faults > 0 || toolTrouble || toolsMissing;
        bool success = r.code == 0 || (p.run && lastExe && lastExe->finished && r.code == lastExe->code);
        auto name = [&] { return sim::fmt("plytool%s", text.c_str()); };
        if (wrongDir)
            sim::violate("wrong-place", "%s ran a tool outside of %s", name().c_str(), dir.c_str());

        // exit code
        if (!r.crashed) {
            if (r.code < 0)
                sim::violate("crashed", "%s ended by signal %d", name().c_str(), -1 - r.code);
            if (folderTrouble && success)
                sim::violate("failure-hidden", "%s succeeded although %s failed", name().c_str(), "CMake or make");
            if (!excused) {
                if (p.ok ? r.code != 0 : r.code == 0)
                    sim::violate("wrong-exit-code", "%s: exit code %d instead of %s; output: %s", name().c_str(), r.code, p.ok ? "0" : "an error", sim::escape(r.out, 600).c_str());
                if (p.code != -1000 && r.code != p.code)
                    sim::violate("wrong-exit-code", "%s: exit code %d instead of %d; output: %s", name().c_str(), r.code, p.code, sim::escape(r.out, 600).c_str());
                sim::hit(p.ok ? "commands succeeded" : "commands refused");
            } else if (!p.ok && p.code == 1 && r.code == 0) {
                sim::violate("failure-hidden", "%s succeeded although it can't", name().c_str());
            } else {
                sim::hit("commands with failures");
            }
        }

        // settings
        bool full = !excused || (!r.crashed && success); // all effects must be there
        if (!excused && p.newFolder && made.empty())
            sim::violate("settings-lost", "%s didn't create a build folder", name().c_str());
        for (auto& n : now) {
            Settings s;
            readFolder(n, &s);
            auto o = st.folders.find(n), a = p.after.folders.find(n);
            bool isOld = o != st.folders.end() && o->second == s, isNew = a != p.after.folders.end() && a->second == s;
            if (full ? !isNew : !isOld && !isNew)
                sim::violate("wrong-settings", "%s: build folder %s has the settings %s", name().c_str(), n.c_str(), sim::escape(writePylon(toPylon(s)), 700).c_str());
            if (n != p.folder) {
                std::string t;
                sim::k::readFile(infoPath(n), &t);
                if (t != oldInfo[n])
                    sim::violate("wrong-folder", "%s changed the settings of build folder %s", name().c_str(), n.c_str());
            }
        }
        if (full)
            for (auto& e : p.after.folders)
                if (!now.count(e.first))
                    sim::violate("settings-lost", "%s: the settings of build folder %s are missing", name().c_str(), e.first.c_str());
        for (auto& e : st.folders)
            if (!now.count(e.first) && p.after.folders.count(e.first))
                sim::violate("settings-lost", "%s: the settings of build folder %s disappeared", name().c_str(), e.first.c_str());
        if (full && p.after.folders.size() < st.folders.size() && sim::k::lookup(folderPath(p.folder)))
            sim::violate("not-deleted", "%s left the build folder", name().c_str());
        Ws ws = readWs();
        if (full ? !(ws == p.after.ws) : !(ws == p.after.ws) && !(ws == st.ws))
            sim::violate("wrong-settings", "%s: wrong workspace settings (current build folder '%s')", name().c_str(), ws.current.c_str());
        auto rest2 = others(p.folder);
        if (!made.empty()) {
            for (auto it = rest.begin(); it != rest.end();)
                it = belongs(it->first, made) ? rest.erase(it) : ++it;
        }
        if (rest != rest2) {
            std::string d;
            for (auto& e : rest2)
                if (!rest.count(e.first) || rest[e.first] != e.second)
                    d = e.first;
            for (auto& e : rest)
                if (!rest2.count(e.first))
                    d = e.first;
            bool leftOver = excused && d.compare(0, 23, "/ws/workspace-settings.") == 0;
            if (!leftOver && !(p.newFolder && excused && made.empty()))
                sim::violate("side-effect", "%s changed %s", name().c_str(), d.c_str());
        }

        // output
        if (full && r.faults == 0 && !toolTrouble && !toolsMissing) {
            std::multiset<std::string> l;
            std::string cur;
            for (char ch : r.out) {
                if (ch == '\n') {
                    l.insert(cur);
                    cur.clear();
                } else {
                    cur += ch;
                }
            }
            for (auto& e : p.outLines) {
                auto it = l.find(e);
                if (it == l.end())
                    sim::violate("wrong-output", "%s didn't print the line '%s': %s", name().c_str(), e.c_str(), sim::escape(r.out, 800).c_str());
                l.erase(it);
            }
            if (p.outLines.size())
                for (auto& e : l)
                    if (e.compare(0, 4, "    ") == 0)
                        sim::violate("wrong-output", "%s printed the unexpected line '%s'", name().c_str(), e.c_str());
        }

        // the build system
        if (p.folder.size() && p.after.folders.count(p.folder)) {
            const Settings& s = p.after.folders[p.folder];
            Inst in = instantiate(w, s);
            std::string lists, why;
            bool has = sim::k::readFile(folderPath(p.folder) + "/CMakeLists.txt", &lists);
            if (hadLists && !has)
                sim::violate("build-system-lost", "%s: CMakeLists.txt disappeared", name().c_str());
            bool done = !r.crashed && success && p.mayGenerate;
            if (!p.mayGenerate && has && (!hadLists || lists != oldLists))
                sim::violate("side-effect", "%s changed CMakeLists.txt", name().c_str());
            if (has && (done || !hadLists || lists != oldLists) && in.status == I_OK) {
                CMakeFile c = parseCMake(lists);
                if (!sameCMake(c, in.cmake, &why))
                    sim::violate(done ? "outdated-build-system" : "wrong-build-system", "%s: CMakeLists.txt is wrong: %s", name().c_str(), why.c_str());
            } else if (done && !has) {
                sim::violate("no-build-system", "%s: there is no CMakeLists.txt", name().c_str());
            }
            if (done) {
                Makefile mf = readMakefile(dir + "/Makefile");
                if (!mf.complete)
                    sim::violate("incomplete-build-system", "%s succeeded, but CMake didn't complete the build system in %s", name().c_str(), dir.c_str());
                if (mf.args != cmakeArgs(s, p.config)) {
                    std::string a;
                    for (auto& e : mf.args)
                        a += " " + e;
                    sim::violate("outdated-build-system", "%s: the build system in %s was made by cmake%s", name().c_str(), dir.c_str(), a.c_str());
                }
                if (mf.cmakeLists != lists)
                    sim::violate("outdated-build-system", "%s: the build system in %s was made from another CMakeLists.txt", name().c_str(), dir.c_str());
                if (cmakes > 1)
                    sim::violate("repeated-work", "%s ran CMake %u times", name().c_str(), cmakes);
                if (p.generate && !p.build && !cmakes)
                    sim::violate("not-generated", "%s didn't run CMake", name().c_str());
                if (!p.generate && cmakes)
                    sim::violate("repeated-work", "%s ran CMake although nothing has changed", name().c_str());
                sim::hit(cmakes ? "build systems generated" : "build systems reused");
            }
            std::string m = p.target.substr(p.target.find('.') + 1);
            if (p.build && !r.crashed && success) {
                if (makes != 1 || !lastMake->finished || lastMake->code != 0)
                    sim::violate("not-built", "%s ran make %u times in %s", name().c_str(), makes, dir.c_str());
                if (lastMake->argv.empty() || lastMake->argv.back() != m)
                    sim::violate("wrong-target", "%s made the wrong target", name().c_str());
                sim::Inode* x = sim::k::lookup(dir + "/" + m);
                std::string want = "EXE " + m + "\n";
                if (in.status == I_OK)
                    for (auto& f : in.cmake.targets[m].sources)
                        want += f + "\n";
                std::multiset<std::string> a, b;
                auto cut = [](const std::string& t, std::multiset<std::string>& o) {
                    std::string c;
                    for (char ch : t)
                        if (ch == '\n')
                            o.insert(c), c.clear();
                        else
                            c += ch;
                };
                if (x) {
                    cut(x->data, a);
                    cut(want, b);
                }
                if (!x || (in.status == I_OK && a != b))
                    sim::violate("outdated-build", "%s: the executable is not the current one", name().c_str());
                sim::hit("targets built");
            }
            if (!p.build && makes)
                sim::violate("side-effect", "%s ran make", name().c_str());
            if (!p.mayGenerate && cmakes)
                sim::violate("side-effect", "%s ran CMake", name().c_str());
            if (p.run && exes) {
                if (exes != 1 || lastExe->tool != dir + "/" + m)
                    sim::violate("wrong-target", "%s ran %s", name().c_str(), lastExe->tool.c_str());
                sim::hit("targets run");
            }
            if (p.run && !r.crashed && success && !exes)
                sim::violate("not-run", "%s didn't run the target", name().c_str());
            if (p.run && exes && p.build && makes == 0)
                sim::violate("not-built", "%s ran an executable that wasn't brought up to date", name().c_str());

            // what is known about the build systems of this folder now
            if (done && r.faults == 0 && !toolTrouble) {
                for (auto it = gen.begin(); it != gen.end();)
                    it = it->first.first == p.folder && (it->second.version != version || !sameInputs(it->second.s, s)) && cmakes ? gen.erase(it) : ++it;
                gen[{p.folder, p.config}] = Snap{s, version};
            } else if (p.mayGenerate) {
                forget(p.folder);
            }
        } else if (p.folder.size()) {
            forget(p.folder);
            if (cmakes + makes + exes)
                sim::violate("side-effect", "%s ran a tool", name().c_str());
        }
        if (!excused && !p.registry && toolRuns.size() != tool0)
            sim::violate("side-effect", "%s ran a tool", name().c_str());
        if (excused && p.newFolder)
            forget(made);
        if (excused && p.folder.size())
            forget(p.folder);
        st = readState();
        if (excused && p.folder.size() && p.mayGenerate && p.folder == st.ws.current && W.chance(0.5)) { // next: try again
            again = haveLast = true;
            lastAuto = false;
            lastT = p.target;
            lastCfg = p.config;
        }
    }
    void forget(const std::string& folder) {
        for (auto it = gen.begin(); it != gen.end();)
            it = it->first.first == folder ? gen.erase(it) : ++it;
    }
    bool toolsMissing = false;

    //------------------------------------------------------------ what users do
    void saveFolder(const Settings& s, bool keepSig) {
        PNode whole, n = toPylon(s);
        Settings o;
        if (keepSig && readFolder(s.name, &o, &whole))
            if (const PNode* g = whole.get("buildSystemSignature"))
                n.kv.push_back({"buildSystemSignature", *g});
        sim::k::mkdirs(folderPath(s.name));
        sim::k::writeFile(infoPath(s.name), writePylon(n));
        if (!keepSig)
            forget(s.name);
        st.folders[s.name] = s;
    }
    static void moveChar(std::string& a, std::string& b) {
        if (a.size()) {
            b = a.back() + b;
            a.pop_back();
        } else {
            std::swap(a, b);
        }
    }
    void tryAgain(const std::string& folder) { // next: build what was built in this folder
        if (folder != st.ws.current || W.chance(0.5))
            return;
        for (auto& e : gen)
            if (e.first.first == folder) {
                again = haveLast = true;
                lastAuto = false;
                lastT = "";
                lastCfg = e.first.second;
            }
    }
    void editSettings() {
        if (st.folders.empty())
            return;
        auto it = st.folders.begin();
        std::advance(it, W.below((u32) st.folders.size()));
        Settings s = it->second;
        std::vector<std::string> exts = w.allProviders();
        std::vector<Settings> older;
        for (auto& e : gen)
            if (e.first.first == s.name && !(e.second.s == s))
                older.push_back(e.second.s);
        if (older.size() && W.chance(0.4)) { // back to what a build system was made from
            saveFolder(older[W.below((u32) older.size())], true);
            sim::log("edit: back to older settings of %s", s.name.c_str());
            tryAgain(s.name);
            return;
        }
        switch (W.below(9)) {
            case 0:
            case 1:
                switch (W.below(3)) {
                    case 0:
                        moveChar(s.platform, s.toolset);
                        break;
                    case 1:
                        moveChar(s.toolset, s.platform);
                        break;
                    case 2:
                        moveChar(s.toolset, s.toolchainFile);
                        break;
                }
                break;
            case 2:
                s.platform = W.chance(0.5) ? "ab" : "";
                s.toolset = W.chance(0.5) ? "xyz" : "";
                break;
            case 3:
                s.activeConfig = configs[W.below((u32) configs.size())];
                break;
            case 4:
                if (s.roots.size())
                    s.shared = W.chance(0.5) ? std::vector<std::string>{} : std::vector<std::string>{s.roots.back()};
                break;
            case 5:
                if (s.roots.size() > 1)
                    std::swap(s.roots[0], s.roots.back());
                break;
            case 6:
                s.solution += W.chance(0.5) && s.solution.size() < 40 ? "x" : "";
                if (W.chance(0.3) && s.solution.size() > 1)
                    s.solution.pop_back();
                break;
            case 7:
                if (W.chance(0.3)) {
                    s.roots.push_back("alpha.gone");
                } else if (W.chance(0.6)) { // the short name, too
                    if (s.roots.size()) {
                        std::string r = s.roots[W.below((u32) s.roots.size())];
                        s.roots.insert(s.roots.begin() + W.below((u32) s.roots.size() + 1), r.substr(r.find('.') + 1));
                    }
                } else
                    s.roots.clear(), s.shared.clear();
                break;
            case 8:
                s.selectors.clear();
                {
                    std::set<std::string> seen;
                    for (auto& e : exts) {
                        std::string x;
                        w.prov(e, &x, nullptr);
                        if (W.chance(0.6) && (seen.insert(x).second || W.chance(0.2)))
                            s.selectors.push_back(e);
                    }
                }
                if (W.chance(0.1))
                    s.selectors.push_back("ext0.gone");
                break;
        }
        if (!sharedOk(w, s.roots, s.shared))
            s.shared.clear();
        sim::log("edit: settings of %s", s.name.c_str());
        saveFolder(s, W.chance(0.9));
        tryAgain(s.name);
    }
    void fixShared() {
        for (auto& e : st.folders)
            if (!sharedOk(w, e.second.roots, e.second.shared)) {
                Settings s = e.second;
                s.shared.clear();
                saveFolder(s, true);
            }
    }
    void userAction() {
        switch (W.below(6)) {
            case 0:
            case 1:
                sim::sleepNs(2000000000ull);
                editWorld(w, 1 + W.below(3), true);
                version++;
                sim::sleepNs(2000000000ull);
                fixShared();
                break;
            case 2:
            case 3:
                editSettings();
                break;
            case 4: {
                st.ws.generator = W.chance(0.6) ? "Unix Makefiles" : "";
                st.ws.platform = W.chance(0.3) ? "plat" : "";
                st.ws.defaultConfig = W.chance(0.5) ? configs[W.below((u32) configs.size())] : "";
                st.ws.newLines = W.chance(0.3) ? "crlf" : W.chance(0.5) ? "lf" : "";
                writeWs(st.ws);
                break;
            }
            case 5:
                if (st.folders.size()) { // somebody cleans up
                    std::string n = someFolder(true);
                    if (!st.folders.count(n))
                        break;
                    sim::k::remove(folderPath(n) + "/build" + (W.chance(0.5) ? "" : "/" + configs[W.below((u32) configs.size())]));
                    if (W.chance(0.3))
                        sim::k::remove("/ws/data/build/bootstrap");
                    forget(n);
                }
                break;
        }
    }
    void unreadable() { // a settings file is not in order: PlyTool reports that, and leaves it alone
        std::string t, bad = "{ \"currentBuildFolder\": ";
        bool ws = W.chance(0.5) || st.folders.empty();
        if (ws) {
            sim::k::readFile(wsPath, &t);
            if (W.chance(0.3)) {
                sim::k::remove(wsPath);
                sim::k::mkdirs(wsPath);
            } else {
                sim::k::writeFile(wsPath, bad);
            }
            Cmd c;
            for (u32 i = 0; i < 20; i++) {
                c = randomCmd();
                if (allSharedOk(c.p.after))
                    break;
            }
            std::map<std::string, std::string> before = sim::k::tree("/ws");
            Result r = plytool(c.args);
            if (r.code != 1)
                sim::violate("wrong-exit-code", "plytool ended with code %d although the workspace settings are ill-formed", r.code);
            if (sim::k::tree("/ws") != before)
                sim::violate("side-effect", "plytool changed files although the workspace settings are ill-formed");
            sim::k::remove(wsPath);
            sim::k::writeFile(wsPath, t);
            sim::hit("ill-formed workspace settings");
        } else {
            std::string n = someFolder(true);
            if (!st.folders.count(n))
                return;
            sim::k::readFile(infoPath(n), &t);
            sim::k::writeFile(infoPath(n), t.substr(0, t.size() / 2));
            Result r = plytool({"folder", "list"});
            if (r.code != 0 || r.out.find("    " + n + "\n") != std::string::npos)
                sim::violate("wrong-output", "plytool folder list (exit code %d) listed a folder with ill-formed settings", r.code);
            r = plytool({"folder", "set", n});
            if (r.code != 1)
                sim::violate("wrong-exit-code", "plytool folder set: exit code %d for a folder with ill-formed settings", r.code);
            std::string u;
            sim::k::readFile(infoPath(n), &u);
            if (u != t.substr(0, t.size() / 2))
                sim::violate("side-effect", "plytool changed ill-formed settings");
            sim::k::writeFile(infoPath(n), t);
            sim::hit("ill-formed build folder settings");
        }
    }

    void main() {
        sim::randomSchedule(false);
        sim::k::shuffleDirs = W.chance(0.5);
        installTools();
        GenOpts o;
        o.maxMods = 2 + W.below(3);
        o.externs = W.chance(0.6);
        w = genWorld(o);
        for (auto& p : w.allProviders()) {
            std::string key;
            w.prov(p, nullptr, &key);
            installed[key] = W.chance(0.8);
            installFails[key] = W.chance(0.1);
        }
        for (auto& t : w.allTargets())
            exeCode[t.substr(t.find('.') + 1)] = W.chance(0.7) ? 0 : 1 + W.below(200);
        const char* pool[] = {"Debug", "Release", "RelWithDebInfo", "RelWithAsserts", "MinSizeRel", "A", "B", "Test", "Asan", "Prof", "x64", "Tsan"};
        u32 nc = 2 + W.below(5);
        while (configs.size() < nc) {
            std::string c = pool[W.below(12)];
            if (!contains(configs, c))
                configs.push_back(c);
        }
        names = {"one", "two", "sandbox"};
        toolPlanDir = "/";
        toolChatter = W.chance(0.2) ? W.below(W.chance(0.1) ? 70000 : 5000) : 0;
        u32 mode = W.below(4); // 0 none, 1 crashes, 2 failing calls, 3 failing tools
        if (mode == 2) {
            double r = 0.002 + F.below(40) / 1000.0;
            static const sim::Fault ks[] = {sim::FT_WRITE_ERR, sim::FT_META_ERR, sim::FT_FSYNC_ERR, sim::FT_OPEN_ERR, sim::FT_NOMEM, sim::FT_FD_LIMIT};
            for (sim::Fault f : ks)
                rates[f] = F.chance(0.5) ? r : 0;
        }
        double legal = F.chance(0.3) ? 0.1 : 0;
        sim::faultRate[sim::FT_EINTR] = sim::faultRate[sim::FT_SHORT_READ] = sim::faultRate[sim::FT_SHORT_WRITE] = legal;
        sim::k::openFaultOk = [](const std::string&, bool write) { return write; };
        if (W.chance(0.7)) { // start with a build folder
            Settings s;
            s.name = s.solution = "one";
            s.activeConfig = configs[0];
            if (W.chance(0.5))
                s.platform = "pl", s.toolset = "tool";
            for (auto& t : w.allTargets())
                if (t.find(".util") == std::string::npos && w.mod(t.substr(0, t.find('.')), t.substr(t.find('.') + 1))->exe && W.chance(0.5)) {
                    s.roots.push_back(t);
                    s.activeTarget = t;
                }
            std::set<std::string> seen;
            for (auto& e : w.allProviders()) {
                std::string x;
                w.prov(e, &x, nullptr);
                if (W.chance(0.9) && seen.insert(x).second)
                    s.selectors.push_back(e);
            }
            saveFolder(s, false);
            st.ws.current = "one";
            writeWs(st.ws);
        }
        u32 n = 6 + W.below(20);
        for (u32 i = 0; i < n && sim::numFibersEver() < 60; i++) {
            if (W.chance(0.25))
                userAction();
            if (W.chance(0.02) && sim::k::readFile(wsPath))
                unreadable();
            Cmd c = randomCmd();
            if (!allSharedOk(c.p.after))
                continue;
            u32 crashAt = 0;
            bool kt = false;
            if (mode == 1 && F.chance(0.5)) {
                crashAt = 1 + F.below(F.chance(0.5) ? 10 : 60);
                kt = F.chance(0.3);
            }
            if (mode == 3 && F.chance(0.4)) {
                static const ToolPlan plans[] = {T_OK, T_FAIL_EARLY, T_FAIL_LATE, T_DIE};
                cmakePlan = plans[F.below(4)];
                makePlan = plans[F.below(4)];
                toolPlanDir = F.chance(0.5) ? "/" : F.chance(0.7) && c.p.folder.size() ? folderPath(c.p.folder) : "/ws/data/build/bootstrap";
                if (F.chance(0.1)) {
                    removeTool(F.chance(0.5) ? "/usr/bin/cmake" : "/usr/bin/make");
                    toolsMissing = true;
                }
            }
            if (mode == 2 && F.chance(0.6))
                for (u32 k = 0; k < sim::FT_COUNT; k++)
                    if (rates[k] > 0)
                        sim::faultRate[k] = rates[k];
            if (mode == 2 && F.chance(0.1))
                sim::k::diskFree = F.below(F.chance(0.5) ? 500 : 8000);
            run(c, crashAt, kt);
            for (u32 k = 0; k < sim::FT_COUNT; k++)
                if (rates[k] > 0)
                    sim::faultRate[k] = 0;
            sim::k::diskFree = ~0ull;
            cmakePlan = makePlan = T_OK;
            if (toolsMissing)
                installTools();
            toolsMissing = false;
        }
        // the failures are over: everything works
        for (u32 i = 0; i < 2 + n / 8; i++) {
            Cmd c = randomCmd();
            if (allSharedOk(c.p.after))
                run(c);
        }
    }
    double rates[sim::FT_COUNT] = {};
};
void c18() {
    std::unique_ptr<Test> t{new Test};
    t->main();
}
SIM_PROP("C18", c18, "histories of PlyTool commands, edits, crashes and failing tools against a model of the settings files");
} // namespace
