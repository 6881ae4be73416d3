// Random PlyTool workspaces and a reference model of what a build folder's settings mean: which
// targets they name, whether they can be instantiated, and the CMakeLists.txt that describes them.
#pragma once
#include "plytool.h"

namespace pt {
struct World {
    std::vector<RepoM> repos;
    std::set<std::string> sources; // absolute paths of the files in the modules' source folders
    std::string error;
    RepoM* repo(const std::string& n) {
        for (RepoM& r : repos)
            if (r.name == n)
                return &r;
        return nullptr;
    }
    const RepoM* repo(const std::string& n) const { return const_cast<World*>(this)->repo(n); }
    const Mod* mod(const std::string& repo, const std::string& name, const ModFile** file = nullptr) const;
    // Names as a user types them; empty: no such target (or provider), or the name is ambiguous
    std::string findTarget(const std::string& typed) const;   // -> "repo.module"
    std::string findProvider(const std::string& typed) const; // -> the fully qualified name
    std::vector<std::string> allTargets() const;              // "repo.module"
    std::vector<std::string> allProviders() const;            // fully qualified names
    const Prov* prov(const std::string& fqn, std::string* ext, std::string* key) const; // ext: "repo.extern"
    void writeFile(const ModFile& f) const;
    void writeAll() const;
    void addSource(const std::string& path, const std::string& text = "int x;\n");
    void removeSource(const std::string& path);
};
struct GenOpts {
    u32 maxMods = 5;     // per repo
    bool rich = false;   // all kinds of source folders
    bool externs = true;
    bool headers = false;
};
World genWorld(const GenOpts& o);
void editWorld(World& w, u32 count, bool touchModules = false); // changes module definitions and sources, as a user does between builds
std::string dirOf(const std::string& path);
std::string normJoin(const std::string& dir, const std::string& rel);

struct Settings {
    std::string name;
    std::string solution, generator = "Unix Makefiles", platform, toolset, toolchainFile;
    std::vector<std::string> roots, shared, selectors;
    std::string activeConfig, activeTarget;
    bool operator==(const Settings& o) const {
        return name == o.name && solution == o.solution && generator == o.generator && platform == o.platform && toolset == o.toolset &&
               toolchainFile == o.toolchainFile && roots == o.roots && shared == o.shared && selectors == o.selectors && activeConfig == o.activeConfig &&
               activeTarget == o.activeTarget;
    }
};
PNode toPylon(const Settings& s); // without the signature
bool fromPylon(const PNode& n, Settings* s);

enum InstStatus { I_OK, I_INVALID, I_UNREADY };
struct Inst {
    InstStatus status = I_OK;
    std::set<std::string> targets;                        // "repo.module"
    CMakeFile cmake;                                      // complete if status is I_OK
    std::map<std::string, std::set<std::string>> deps;    // static closure, by CMake target name
    std::set<std::string> headers;                        // modules that write headers
};
Inst instantiate(const World& w, const Settings& s);
std::vector<std::string> cmakeArgs(const Settings& s, const std::string& config);
bool linkOrderOk(const CMakeFile& c, const Inst& i, std::string* why);
// Can root be added as a shared root after the other roots?
bool sharedOk(const World& w, const std::vector<std::string>& roots, const std::vector<std::string>& shared);
} // namespace pt
