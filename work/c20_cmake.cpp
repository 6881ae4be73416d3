// C20: the generated CMakeLists.txt describes exactly the targets that the build folder's settings name.
#include "plyworld.h"
#include <algorithm>
using namespace pt;

namespace {
Settings randomSettings(World& w, const std::string& name) {
    Settings s;
    s.name = s.solution = name;
    s.activeConfig = "Debug";
    std::vector<std::string> all = w.allTargets();
    u32 n = W.below(8) ? 1 + W.below(4) : 0;
    for (u32 i = 0; i < n; i++) {
        std::string t = all[W.below((u32) all.size())];
        if (t.substr(t.find('.') + 1) == "util" || std::find(s.roots.begin(), s.roots.end(), t) != s.roots.end())
            continue;
        s.roots.push_back(t);
    }
    if (s.roots.size() && W.chance(0.35))
        s.shared.push_back(s.roots.back());
    if (!sharedOk(w, s.roots, s.shared)) {
        if (W.chance(0.5))
            s.roots = {s.roots.back()};
        else
            s.shared.clear();
    }
    std::vector<std::string> pr = w.allProviders();
    std::set<std::string> exts;
    for (size_t i = pr.size(); i > 1; i--)
        std::swap(pr[i - 1], pr[W.below((u32) i)]);
    for (auto& p : pr) {
        std::string ext, key;
        w.prov(p, &ext, &key);
        installed[key] = W.chance(0.93);
        if (W.chance(0.93) && exts.insert(ext).second)
            s.selectors.push_back(p);
    }
    return s;
}
void save(const Settings& s) {
    std::string d = "/ws/data/build/" + s.name;
    sim::k::mkdirs(d);
    sim::k::writeFile(d + "/info.pylon", writePylon(toPylon(s)));
    PNode ws;
    ws.t = PNode::Obj;
    PNode cur;
    cur.s = s.name;
    ws.kv = {{"currentBuildFolder", cur}};
    sim::k::writeFile("/ws/workspace-settings.pylon", writePylon(ws));
}
std::string cmakeLists(const Settings& s) {
    std::string t;
    sim::k::readFile("/ws/data/build/" + s.name + "/CMakeLists.txt", &t);
    return t;
}
void checkLists(World& w, const Settings& s, const std::string& text) {
    Inst in = instantiate(w, s);
    CMakeFile c = parseCMake(text);
    std::string why;
    if (!sameCMake(c, in.cmake, &why))
        sim::violate("wrong-build-system", "the CMakeLists.txt of build folder %s is wrong: %s", s.name.c_str(), why.c_str());
    if (!linkOrderOk(c, in, &why))
        sim::violate("link-order", "the CMakeLists.txt of build folder %s: %s", s.name.c_str(), why.c_str());
    for (auto& e : in.cmake.targets)
        for (auto& f : e.second.sources)
            if (f.find("/codegen/") != std::string::npos && !sim::k::lookup(f))
                sim::violate("no-source", "target %s needs %s, which does not exist", e.first.c_str(), f.c_str());
    for (auto& h : in.headers)
        if (!sim::k::lookup("/ws/data/build/" + s.name + "/codegen/" + h + "/Config.h"))
            sim::violate("no-header", "the module %s didn't get to write its header", h.c_str());
}
void c20() {
    sim::randomSchedule(false);
    sim::k::shuffleDirs = true;
    if (F.chance(0.3)) { // none of these is an error
        sim::faultRate[sim::FT_EINTR] = F.below(20) / 100.0;
        sim::faultRate[sim::FT_SHORT_READ] = F.below(30) / 100.0;
        sim::faultRate[sim::FT_SHORT_WRITE] = F.below(30) / 100.0;
        sim::faultRate[sim::FT_DTYPE_UNKNOWN] = F.chance(0.5) ? 0.5 : 0;
    }
    installTools();
    GenOpts o;
    o.rich = true;
    o.headers = true;
    o.maxMods = 3 + W.below(8);
    o.externs = W.chance(0.8);
    World w = genWorld(o);
    u32 rounds = 1 + W.below(4);
    std::set<std::string> had; // build folders with a CMakeLists.txt
    Settings s;
    for (u32 i = 0; i < rounds; i++) {
        if (i == 0 || W.chance(0.5)) {
            s = randomSettings(w, W.chance(0.5) ? "two" : "one");
            save(s);
        }
        Inst in = instantiate(w, s);
        Result r = plytool({"generate"});
        std::string text = cmakeLists(s);
        if (in.status == I_OK) {
            if (r.code != 0)
                sim::violate("generate-failed", "generate failed (exit code %d): %s", r.code, sim::escape(r.out).c_str());
            sim::hit("generated");
            if (s.shared.size())
                sim::hit("shared root");
            checkLists(w, s, text);
            had.insert(s.name);
            if (W.chance(0.5)) { // again, with the files in another order
                sim::k::remove("/ws/data/build/" + s.name + "/CMakeLists.txt");
                if (W.chance(0.3))
                    sim::k::remove("/ws/data/build/bootstrap/DLLs/signature.pylon");
                r = plytool({"generate"});
                if (r.code != 0)
                    sim::violate("generate-failed", "generate failed the second time (exit code %d): %s", r.code, sim::escape(r.out).c_str());
                if (cmakeLists(s) != text)
                    sim::violate("not-reproducible", "the same settings and modules gave two different CMakeLists.txt files");
            }
        } else {
            sim::hit(in.status == I_UNREADY ? "externs not ready" : "invalid");
            if (r.code == 0)
                sim::violate("generate-succeeded", "generate succeeded although %s", in.status == I_UNREADY ? "a needed extern is not selected or not installed" : "a root target is invalid");
            if (text.size() && !had.count(s.name))
                sim::violate("generate-succeeded", "generate failed, but wrote CMakeLists.txt");
        }
        sim::sleepNs(2000000000ull);
        if (W.chance(0.7))
            editWorld(w, 1 + W.below(4));
        if (!sharedOk(w, s.roots, s.shared))
            s.shared.clear(), save(s);
    }
}
SIM_PROP("C20", c20, "the generated CMakeLists.txt against a model of modules and their dependencies");
} // namespace
