// C19: the registry of modules always corresponds to the module definition files on the disk.
#include "plyworld.h"
#include <algorithm>
#include <ply-build-common/Core.h>
#include <ply-build-repo/Repo.h>
#include <ply-build-repo/RepoRegistry.h>
#include <ply-build-repo/BuildInstantiatorDLLs.h>
#include <ply-build-repo/ExternProvider.h>
using namespace pt;
using namespace ply::build;

namespace {
const char* dllDir = "/ws/data/build/bootstrap/DLLs/";
struct Stamp {
    std::string text;
    u64 mtime;
    bool operator==(const Stamp& o) const { return text == o.text && mtime == o.mtime; }
};
typedef std::map<std::string, Stamp> Snap;
struct Entry {
    std::string name, path, func;
    std::vector<std::string> childs;
};
struct Answer { // what the code under test said
    bool returned = false;
    std::vector<std::pair<std::string, std::string>> dlls;
    u64 hi = 0, lo = 0;
    std::map<std::string, std::string> targets;   // typed name -> "repo.module path"
    std::map<std::string, std::string> providers; // typed name -> full name
    std::map<std::string, std::vector<std::string>> childs;
    u32 modules = 0, provs = 0;
};

struct Test {
    World w;
    Snap good;             // what the DLLs were built from
    bool known = false;    // good is the state of the DLLs
    std::vector<RepoM> goodRepos;
    bool canUndo = false;
    std::set<std::string> goodBroken;
    std::map<std::string, std::pair<std::string, std::string>> sigs; // snapshot <-> signature
    u32 counter = 0;
    std::map<std::string, std::string> seen; // path, size and time -> text
    std::set<std::string> broken; // files with errors in them
    bool edited = false;

    static std::string repoOf(const std::string& path) {
        std::string r = path.substr(10); // "/ws/repos/"
        return r.substr(0, r.find('/'));
    }
    Snap snap() {
        Snap s;
        std::vector<std::string> todo{"/ws/repos"};
        for (size_t i = 0; i < todo.size(); i++) {
            sim::Inode* d = sim::k::lookup(todo[i]);
            std::string dir = todo[i];
            for (auto& e : d->ents) {
                std::string p = dir + "/" + e.first;
                if (e.second->type == sim::Inode::Dir)
                    todo.push_back(p);
                else if (e.first.size() >= 12 && e.first.compare(e.first.size() - 12, 12, ".modules.cpp") == 0 && dir != "/ws/repos")
                    s[p] = Stamp{e.second->data, e.second->mtime / 1000000000ull};
            }
        }
        return s;
    }
    static std::string key(const Snap& s) {
        std::string k;
        for (auto& e : s)
            k += e.first + " " + std::to_string(e.second.text.size()) + " " + std::to_string(e.second.mtime) + "\n";
        return k;
    }

    //------------------------------------------------------------ what developers do
    ModFile* someFile(RepoM** in = nullptr) {
        std::vector<std::pair<RepoM*, ModFile*>> v;
        for (auto& r : w.repos)
            for (auto& f : r.files)
                v.push_back({&r, &f});
        if (v.empty())
            return nullptr;
        auto& x = v[W.below((u32) v.size())];
        if (in)
            *in = x.first;
        return x.second;
    }
    void edit() {
        RepoM* r = nullptr;
        ModFile* f = someFile(&r);
        u32 kind = W.below(14);
        if (!f && kind != 3)
            return;
        std::string what;
        sim::Inode* was = f ? sim::k::lookup(f->path) : nullptr;
        std::string oldPath = f ? f->path : "";
        u64 oldTime = was ? was->mtime : 0;
        size_t oldSize = was ? was->data.size() : 0;
        switch (kind) {
            case 0: // same size
            case 1: {
                Mod* m = nullptr;
                for (auto& x : f->mods)
                    if (x.defs.size() && x.defs.back().value.size() == 1)
                        m = &x;
                if (!m) {
                    if (f->mods.empty())
                        break;
                    m = &f->mods[0];
                    m->defs.push_back({false, "F" + std::to_string(counter++), "1"});
                    what = "definition added";
                } else {
                    std::string& v = m->defs.back().value;
                    v = v == "7" ? "1" : std::string(1, (char) (v[0] < '7' ? v[0] + 1 : '1'));
                    what = "definition changed";
                }
                w.writeFile(*f);
                if (W.chance(0.3)) { // as of an older version
                    sim::Inode* n = sim::k::lookup(f->path);
                    if (n->mtime > 3600000000000ull)
                        n->mtime -= (1 + W.below(3000)) * 1000000000ull;
                    what += ", with an old time";
                }
                break;
            }
            case 2:
                f->salt = (f->salt + 1 + W.below(31)) % 32;
                w.writeFile(*f);
                what = "text changed";
                break;
            case 3: { // a new file, maybe in a new repo
                static const char* names[] = {"alpha", "beta", "gamma", "delta"};
                std::string rn = names[W.below(4)];
                if (!w.repo(rn)) {
                    w.repos.emplace_back();
                    w.repos.back().name = rn;
                }
                RepoM* q = w.repo(rn);
                ModFile n;
                n.path = "/ws/repos/" + rn + (W.chance(0.3) ? "/" : W.chance(0.5) ? "/src/more/" : "/src/d" + std::to_string(counter) + "/") + "n" + std::to_string(counter) + ".modules.cpp";
                n.salt = W.below(32);
                u32 c = W.below(3);
                for (u32 i = 0; i < c; i++) {
                    Mod m;
                    m.name = "new" + std::to_string(counter++);
                    m.exe = W.chance(0.3);
                    n.mods.push_back(m);
                }
                counter++;
                q->files.push_back(n);
                w.writeFile(q->files.back());
                sim::log("edit: %s: new file", q->files.back().path.c_str());
                edited = true;
                return;
            }
            case 4: { // removed
                sim::k::remove(f->path);
                broken.erase(f->path);
                std::string p = f->path;
                for (size_t i = 0; i < r->files.size(); i++)
                    if (r->files[i].path == p) {
                        r->files.erase(r->files.begin() + (long) i);
                        break;
                    }
                what = "file removed";
                sim::log("edit: %s: %s", p.c_str(), what.c_str());
                edited = true;
                return;
            }
            case 5: // moved, which keeps the time of modification
            case 6: {
                std::string to = dirOf(f->path) + (W.chance(0.5) ? "/mv" + std::to_string(counter++) + ".modules.cpp" : "/m" + std::to_string(counter++) + "/x.modules.cpp");
                sim::Inode* n = sim::k::lookup(f->path);
                u64 mt = n->mtime;
                std::string t = n->data;
                sim::k::remove(f->path);
                sim::k::mkdirs(dirOf(to));
                sim::k::writeFile(to, t);
                sim::k::lookup(to)->mtime = mt;
                if (broken.erase(f->path))
                    broken.insert(to);
                f->path = to;
                what = "file moved";
                break;
            }
            case 7: // a file that is none
                sim::k::writeFile(dirOf(f->path) + "/" + (W.chance(0.5) ? "x.modules.cpp.orig" : W.chance(0.5) ? "modules.cpp" : "y.modules.h"), render(*f));
                what = "other file written";
                break;
            case 8: { // errors in the file
                static const char* bad[] = {"\n// [ply module=nope]\nvoid nope(ModuleArgs* args) {\n}\n", "\n// [ply modul=\"nope\"]\n", "\n// [ply module \"nope\"]\nvoid nope(ModuleArgs* args) {\n}\n",
                                            "\n// [ply module=\"nope\"]\nint nope;\n", "\n// [ply module=\"a\"]\n// [ply module=\"b\"]\nvoid nope(ModuleArgs* args) {\n}\n",
                                            "\n// [ply extern=\"e\"]\nExternResult nope(ExternCommand cmd, ExternProviderArgs* args) {\n}\n", "\n// ply module nope\n",
                                            "\nnamespace x {\n// [ply module=\"nope\"]\nvoid nope(ModuleArgs* args) {\n}\n}\n", "\n// [ply module=\"nope\" more]\nvoid nope(ModuleArgs* args) {\n}\n"};
                if (W.chance(0.5))
                    break;
                sim::k::writeFile(f->path, render(*f) + bad[W.below(9)]);
                broken.insert(f->path);
                what = "errors added";
                break;
            }
            case 9: { // an extern provider more
                if (r->name != "alpha" || f->provs.empty())
                    break;
                f->provs.push_back({"ext0", "provN" + std::to_string(counter++), "l", "/i"});
                w.writeFile(*f);
                what = "provider added";
                break;
            }
            case 10:
                if (f->mods.size()) {
                    f->mods.erase(f->mods.begin() + W.below((u32) f->mods.size()));
                    w.writeFile(*f);
                    what = "module removed";
                }
                break;
            case 11:
                if (f->mods.size()) {
                    f->mods[W.below((u32) f->mods.size())].name = "ren" + std::to_string(counter++);
                    w.writeFile(*f);
                    what = "module renamed";
                }
                break;
            case 12: // two files of the same repo swap names
                if (r->files.size() >= 2) {
                    ModFile& g = r->files[W.below((u32) r->files.size())];
                    if (&g == f || broken.count(g.path) || broken.count(f->path))
                        break;
                    std::swap(g.path, f->path);
                    w.writeFile(g);
                    w.writeFile(*f);
                    what = "files swapped";
                }
                break;
            case 13: {
                sim::k::lookup(f->path)->mtime += 5000000000ull;
                what = "file touched";
                break;
            }
        }
        if (what.size()) {
            sim::Inode* is = sim::k::lookup(oldPath);
            if (is && kind != 13 && is->data.size() != oldSize && W.chance(0.3)) {
                is->mtime = oldTime; // the size has changed, the time hasn't
                what += ", with the same time";
            }
            edited = true;
            if (kind != 5 && kind != 6 && kind != 7 && kind != 8 && kind != 13)
                broken.erase(f->path);
            sim::log("edit: %s: %s", f->path.c_str(), what.c_str());
        }
    }
    void undo() { // everything as it was when the DLLs were last built
        if (good.empty() || !canUndo)
            return;
        for (auto& e : snap())
            if (!good.count(e.first))
                sim::k::remove(e.first);
        for (auto& e : good) {
            sim::k::mkdirs(dirOf(e.first));
            sim::k::writeFile(e.first, e.second.text);
            sim::k::lookup(e.first)->mtime = e.second.mtime * 1000000000ull;
        }
        w.repos = goodRepos;
        broken = goodBroken;
        edited = true;
        sim::log("edit: everything is as it was when the DLLs were built");
        sim::hit("edits undone");
    }
    void pause() { sim::sleepNs(2000000000ull + W.below(1000) * 1000000ull); }

    //------------------------------------------------------------ one command
    std::string typedName(bool prov) {
        std::vector<std::string> all = prov ? w.allProviders() : w.allTargets();
        if (all.empty() || W.chance(0.1)) {
            const char* bad[] = {"nope", "alpha", "alpha.nope", "beta.nope", "x.y", "alpha.m0.z", ".m0", "m0.", "ext0", "alpha.ext0", "ext0.nope", "alpha.ext0.provA.x", "delta.new0"};
            return bad[W.below(13)];
        }
        std::string t = all[W.below((u32) all.size())];
        return W.chance(0.5) ? t : t.substr(t.find('.') + 1);
    }
    bool registryOk() { // can the DLLs be loaded?
        for (auto& r : w.repos) {
            if (r.files.empty())
                continue;
            for (auto& d : r.dependsOn)
                if (!w.repo(d) || w.repo(d)->files.empty())
                    return false;
            for (auto& f : r.files)
                for (auto& p : f.provs) {
                    size_t dot = p.ext.find('.');
                    if (dot == std::string::npos || p.ext.substr(0, dot) == r.name)
                        continue;
                    bool has = false;
                    if (const RepoM* o = w.repo(p.ext.substr(0, dot)))
                        for (auto& g : o->files)
                            for (auto& q : g.provs)
                                has |= q.ext == p.ext.substr(dot + 1);
                    if (!has)
                        return false;
                }
        }
        return true;
    }
    void command(u32 crashAt, bool killTools, bool planned) {
        bool registry = W.chance(0.5), force = !registry && W.chance(0.15);
        for (auto& e : snap()) { // a change that leaves both size and time as they were can't be seen
            sim::Inode* n = sim::k::lookup(e.first);
            for (;; n->mtime += 1000000000ull) {
                auto i = seen.insert({e.first + " " + std::to_string(n->data.size()) + " " + std::to_string(n->mtime / 1000000000ull), n->data}).first;
                if (i->second == n->data)
                    break;
            }
        }
        Snap before = snap();
        std::vector<RepoM> beforeRepos = w.repos;
        std::set<std::string> beforeBroken = broken;
        edited = false;
        Answer a;
        std::vector<std::string> ts, ps;
        for (u32 i = 0; i < 6; i++) {
            ts.push_back(typedName(false));
            ps.push_back(typedName(true));
        }
        size_t tool0 = toolRuns.size();
        Result r = runProc(
            registry ? "registry" : force ? "build DLLs (forced)" : "build DLLs",
            [&]() -> int {
                if (!registry) {
                    InstantiatedDLLs d = buildInstantiatorDLLs(force);
                    for (auto& e : d.dlls)
                        a.dlls.push_back({str(e.repoName), str(e.dllPath)});
                    a.hi = d.signature.hi;
                    a.lo = d.signature.lo;
                    a.returned = true;
                    return a.hi || a.lo ? 0 : 1;
                }
                RepoRegistry::instance_ = RepoRegistry::create();
                const RepoRegistry* g = RepoRegistry::get();
                a.hi = g->moduleDefSignature.hi;
                a.lo = g->moduleDefSignature.lo;
                for (const Repo* p : g->repos) {
                    auto& c = a.childs[str(p->repoName)];
                    for (const Repo* q : p->childRepos)
                        c.push_back(str(q->repoName));
                    for (const TargetInstantiator* t : p->targetInstantiators) {
                        (void) t;
                        a.modules++;
                    }
                    a.provs += p->externProviders.numItems();
                }
                for (auto& t : ts) {
                    const TargetInstantiator* x = g->findTargetInstantiator(sv(t));
                    std::string path = x ? str(x->instantiatorPath) : "";
                    if (path.size() > 1 && path.back() == '/')
                        path.pop_back();
                    a.targets[t] = x ? str(x->repo->repoName) + "." + str(x->name) + " " + path : "";
                }
                for (auto& t : ps) {
                    const ExternProvider* x = g->getExternProvider(sv(t));
                    a.providers[t] = x ? str(x->getFullyQualifiedName()) : "";
                }
                a.returned = true;
                return a.hi || a.lo ? 0 : 1;
            },
            crashAt, killTools);
        u32 runs = 0;
        bool trouble = false;
        for (size_t i = tool0; i < toolRuns.size(); i++) {
            runs++;
            bool bad = !toolRuns[i].finished || toolRuns[i].code != 0;
            if (bad && !planned && !r.crashed && !r.faults && !edited && broken.empty())
                sim::violate("tool-failed", "%s was run in %s on something that it can't work with", toolRuns[i].tool.c_str(), toolRuns[i].dir.c_str());
            trouble |= bad;
            if (toolRuns[i].dir.compare(0, strlen(dllDir) - 1, dllDir, strlen(dllDir) - 1))
                sim::violate("wrong-place", "%s was run in %s", toolRuns[i].tool.c_str(), toolRuns[i].dir.c_str());
        }
        bool success = !r.crashed && r.code == 0;
        bool stale = force || !known || key(before) != key(good);
        bool midEdit = edited;
        bool excused = r.crashed || r.faults || planned;
        if (!r.crashed && r.code < 0)
            sim::violate("crashed", "the process ended by signal %d", -1 - r.code);
        bool canDo = (stale ? broken.empty() || midEdit : true) && (!registry || registryOk() || midEdit);
        if (!excused && !midEdit) {
            if (canDo && !success && known && !stale && registry && broken.size())
                ; // the repo of a broken file may not load
            else if (canDo != success)
                sim::violate(canDo ? "build-failed" : "errors-ignored", "%s (exit code %d), although the module definition files are %s: %s", success ? "the DLLs were built" : "the DLLs weren't built", r.code,
                             canDo ? "in order" : "not in order", sim::escape(r.out, 500).c_str());
        }
        if (success && trouble)
            sim::violate("failure-hidden", "the DLLs count as built although a tool failed");
        if (success && stale && !runs && known)
            sim::violate("outdated-dlls", "module definition files have changed, but no DLLs were built");
        if (!excused && !stale && runs)
            sim::violate("repeated-work", "%u tools were run although nothing has changed", runs);
        if (success) {
            // signature
            std::string k = key(before), sg = std::to_string(a.hi) + "." + std::to_string(a.lo);
            if (!r.faults) {
                auto o = sigs.find(k);
                if (o != sigs.end() && o->second.first != sg)
                    sim::violate("signature", "the same module definition files had different signatures");
                for (auto& e : sigs)
                    if (e.second.first == sg && e.first != k)
                        sim::violate("signature", "different module definition files had the same signature");
                sigs[k] = {sg, ""};
            }
            // contents
            std::set<std::string> repos, got;
            for (auto& e : before)
                repos.insert(repoOf(e.first));
            if (!registry) {
                for (auto& d : a.dlls) {
                    if (!got.insert(d.first).second)
                        sim::violate("wrong-dlls", "the DLL of the repo %s was returned twice", d.first.c_str());
                    if (d.second != std::string(dllDir) + "build/Debug/lib" + d.first + "_Instantiators.so")
                        sim::violate("wrong-dlls", "the DLL of the repo %s is %s", d.first.c_str(), d.second.c_str());
                }
            } else {
                for (auto& c : a.childs)
                    got.insert(c.first);
            }
            if (got != repos)
                sim::violate("wrong-dlls", "there are module definition files in %zu repos, but %zu repos were returned", repos.size(), got.size());
            if (!midEdit) {
                Snap now = snap();
                for (auto& rn : repos) {
                    SoFile so = readSo(std::string(dllDir) + "build/Debug/lib" + rn + "_Instantiators.so");
                    if (!so.exists || !so.complete)
                        sim::violate("incomplete-dll", "the DLL of the repo %s is %s", rn.c_str(), so.exists ? "incomplete" : "missing");
                    std::map<std::string, std::string> want;
                    for (auto& e : now)
                        if (repoOf(e.first) == rn)
                            want[e.first] = e.second.text;
                    if (so.files != want)
                        sim::violate("outdated-dlls", "the DLL of the repo %s wasn't built from its current module definition files", rn.c_str());
                    if (registrations(so.registrar) != expectedRegs(rn, w.repo(rn)->files))
                        sim::violate("wrong-dlls", "the DLL of the repo %s doesn't register exactly its modules and extern providers", rn.c_str());
                }
                if (registry) {
                    u32 nm = (u32) w.allTargets().size(), np = (u32) w.allProviders().size();
                    if (nm != a.modules || np != a.provs)
                        sim::violate("wrong-registry", "%u modules and %u providers were registered instead of %u and %u", a.modules, a.provs, nm, np);
                    for (auto& rn : repos)
                        if (a.childs[rn] != w.repo(rn)->dependsOn)
                            sim::violate("wrong-registry", "the repo %s has the wrong child repos", rn.c_str());
                    for (auto& t : a.targets) {
                        std::string e = find(t.first, false), want;
                        if (e.size()) {
                            const ModFile* f = nullptr;
                            w.mod(e.substr(0, e.find('.')), e.substr(e.find('.') + 1), &f);
                            want = e + " " + dirOf(f->path);
                        }
                        if (t.second != want)
                            sim::violate("wrong-registry", "the module '%s' is '%s' instead of '%s'", t.first.c_str(), t.second.c_str(), want.c_str());
                    }
                    for (auto& t : a.providers)
                        if (t.second != find(t.first, true))
                            sim::violate("wrong-registry", "the extern provider '%s' is '%s' instead of '%s'", t.first.c_str(), t.second.c_str(), find(t.first, true).c_str());
                    sim::hit("registries checked");
                }
                sim::hit(runs ? "DLLs built" : "DLLs reused");
            } else {
                sim::hit("files edited during the build");
            }
        } else if (!registry && a.returned && a.dlls.size()) {
            sim::violate("failure-hidden", "DLLs were returned although their build failed");
        }
        // what is known about the DLLs now
        if (success && !r.faults) {
            good = before;
            canUndo = !midEdit; // else a file's time could be put back to that of its first version, unnoticed
            goodRepos = beforeRepos;
            goodBroken = beforeBroken;
            known = true;
        } else if (excused || runs || stale) {
            canUndo &= !midEdit;
            known = false;
        }
    }
    std::string find(const std::string& t, bool prov) { // names of repos without module definition files mean nothing
        World v;
        for (auto& r : w.repos)
            if (r.files.size())
                v.repos.push_back(r);
        return prov ? v.findProvider(t) : v.findTarget(t);
    }
    void main() {
        sim::randomSchedule(false);
        sim::k::shuffleDirs = W.chance(0.7);
        installTools();
        GenOpts o;
        o.maxMods = 2 + W.below(4);
        o.rich = W.chance(0.3);
        o.externs = W.chance(0.7);
        w = genWorld(o);
        toolPlanDir = "/";
        toolChatter = W.chance(0.2) ? W.below(W.chance(0.1) ? 70000 : 5000) : 0;
        u32 mode = W.below(4); // 0 none, 1 crashes, 2 failing calls, 3 failing tools
        double rates[sim::FT_COUNT] = {};
        if (mode == 2) {
            double r = 0.002 + F.below(40) / 1000.0;
            static const sim::Fault ks[] = {sim::FT_WRITE_ERR, sim::FT_META_ERR, sim::FT_FSYNC_ERR, sim::FT_OPEN_ERR, sim::FT_NOMEM, sim::FT_FD_LIMIT, sim::FT_READ_ERR};
            for (sim::Fault f : ks)
                rates[f] = F.chance(0.5) ? r : 0;
        }
        double legal = F.chance(0.3) ? 0.1 : 0;
        sim::faultRate[sim::FT_EINTR] = sim::faultRate[sim::FT_SHORT_READ] = sim::faultRate[sim::FT_SHORT_WRITE] = legal;
        sim::faultRate[sim::FT_DTYPE_UNKNOWN] = F.chance(0.2) ? 0.3 : 0;
        sim::k::openFaultOk = [](const std::string& p, bool write) { return write || (p.size() > 12 && p.compare(p.size() - 12, 12, ".modules.cpp") == 0); };
        sim::k::pipeReadErrors = false;
        u32 n = 4 + W.below(14);
        for (u32 i = 0; i < n && sim::numFibersEver() < 70; i++) {
            if (W.chance(known ? 0.03 : 0.3))
                undo();
            else if (W.chance(0.65)) {
                pause();
                u32 k = 1 + W.below(3);
                for (u32 j = 0; j < k; j++)
                    edit();
            }
            if (W.chance(0.05)) { // somebody cleans up
                sim::k::remove(W.chance(0.5) ? "/ws/data/build/bootstrap" : W.chance(0.5) ? std::string(dllDir) + "signature.pylon" : std::string(dllDir) + "build");
                sim::k::remove(std::string(dllDir) + "signature.pylon");
                known = false;
            }
            if (broken.size() && W.chance(0.5)) // repaired
                for (auto& r : w.repos)
                    for (auto& f : r.files)
                        if (broken.erase(f.path)) {
                            pause();
                            w.writeFile(f);
                        }
            pause();
            u32 crashAt = 0;
            bool kt = false, planned = false;
            if (mode == 1 && F.chance(0.5)) {
                crashAt = 1 + F.below(F.chance(0.5) ? 10 : 30);
                kt = F.chance(0.3);
            }
            if (mode == 3 && F.chance(0.5)) {
                static const ToolPlan plans[] = {T_OK, T_FAIL_EARLY, T_FAIL_LATE, T_DIE};
                cmakePlan = plans[F.below(4)];
                makePlan = plans[F.below(4)];
                planned = cmakePlan != T_OK || makePlan != T_OK;
                if (F.chance(0.1)) {
                    removeTool(F.chance(0.5) ? "/usr/bin/cmake" : "/usr/bin/make");
                    planned = true;
                }
            }
            if (mode == 2 && F.chance(0.6)) {
                for (u32 k = 0; k < sim::FT_COUNT; k++)
                    if (rates[k] > 0)
                        sim::faultRate[k] = rates[k];
                if (F.chance(0.1))
                    sim::k::diskFree = F.below(F.chance(0.5) ? 500 : 8000);
            }
            if (W.chance(0.15)) { // somebody edits during the build
                u32 at = W.below(2);
                onTool = [this, at, c = (u32) 0]() mutable {
                    if (c++ == at)
                        edit();
                };
            }
            command(crashAt, kt, planned);
            onTool = nullptr;
            for (u32 k = 0; k < sim::FT_COUNT; k++)
                if (rates[k] > 0)
                    sim::faultRate[k] = 0;
            sim::k::diskFree = ~0ull;
            cmakePlan = makePlan = T_OK;
            installTools();
        }
        // the failures are over: everything works
        pause();
        for (u32 i = 0; i < 2; i++)
            command(0, false, false);
    }
};
void c19() {
    std::unique_ptr<Test> t{new Test};
    t->main();
}
SIM_PROP("C19", c19, "the registry of modules against the module definition files, with edits, crashes and failing tools");
} // namespace
