// A workspace for PlyTool: repos with module definition files and sources, stand-ins for CMake, make
// and the compiled instantiator DLLs, and readers for the files PlyTool writes that share nothing
// with the code under test.
#pragma once
#include "common.h"
#include <map>
#include <set>
#include <memory>

int plytool_main(int argc, char** argv);

namespace pt {
using namespace wl;

//---------------------------------------------------------------- workspace
struct Dep {
    bool pub;
    std::string name; // as written in the module definition
};
struct Def {
    bool pub;
    std::string key, value;
};
struct SrcDir {
    std::string dir; // relative to the module definition file
    bool recursive = true;
};
struct Mod {
    std::string name;
    bool exe = false;
    std::vector<SrcDir> src;
    std::vector<Dep> incs;
    std::vector<Dep> targets, externs;
    std::vector<Def> defs;
    std::string prefix;  // dynamicLinkPrefix
    bool header = false; // writes a header when a build system is generated
};
struct Prov {
    std::string ext, name; // extern name as written
    std::string libs, inc;
    bool supported = true;
};
struct ModFile {
    std::string path; // absolute
    std::vector<Mod> mods;
    std::vector<Prov> provs;
    u32 salt = 0;
};
struct RepoM {
    std::string name;
    std::vector<ModFile> files;
    std::vector<std::string> dependsOn;
};
std::string render(const ModFile& f);
std::string funcName(const std::string& repo, const ModFile& f, const Mod& m);

// What a module function does, read back from the source text.
struct Body {
    std::string text; // the lines between the braces
};

//---------------------------------------------------------------- CMakeLists.txt
struct CTarget {
    std::string type; // exe, lib, object, shared, header
    std::vector<std::string> sources, nonPart, objects;
    std::vector<std::string> includes, defines, libs;
    std::string exceptions;
    bool exports = false;
};
struct CMakeFile {
    std::string project, include;
    std::map<std::string, CTarget> targets;
    std::vector<std::string> order;
};
CMakeFile parseCMake(const std::string& text); // violates if it is not of the documented form
bool sameCMake(const CMakeFile& got, const CMakeFile& want, std::string* why);

//---------------------------------------------------------------- Pylon
struct PNode {
    enum T { Obj, Arr, Str } t = Str;
    std::string s;
    std::vector<std::pair<std::string, PNode>> kv;
    std::vector<PNode> items;
    const PNode* get(const std::string& k) const {
        for (auto& e : kv)
            if (e.first == k)
                return &e.second;
        return nullptr;
    }
    std::string str(const std::string& k) const {
        const PNode* n = get(k);
        return n && n->t == Str ? n->s : std::string();
    }
    std::vector<std::string> arr(const std::string& k) const {
        std::vector<std::string> r;
        const PNode* n = get(k);
        if (n && n->t == Arr)
            for (auto& i : n->items)
                r.push_back(i.s);
        return r;
    }
};
bool parsePylon(const std::string& text, PNode* out);
std::string writePylon(const PNode& n, u32 indent = 0);
std::string quote(const std::string& s);

//---------------------------------------------------------------- tools
enum ToolPlan { T_OK, T_FAIL_EARLY, T_FAIL_LATE, T_DIE, T_GARBLED_OK };
struct ToolRun {
    std::string tool;              // "cmake", "make", or the path of an executable
    std::vector<std::string> argv; // without the program
    std::string dir;
    bool finished = false;         // it ended normally
    int code = -1;
};
extern std::vector<ToolRun> toolRuns; // in the order they were started
extern ToolPlan cmakePlan, makePlan;
extern std::string toolPlanDir;       // the plans hold for runs below this folder only
extern u32 toolChatter;               // bytes of output
extern std::function<void()> onTool;  // called while a tool is running
extern std::map<std::string, int> exeCode; // exit codes of built executables (by target name)
extern std::map<std::string, bool> installed; // extern providers: "repo/extern/provider"
extern std::map<std::string, bool> installFails;
extern std::set<std::string> headerWritten; // module names whose header was written
void installTools(bool cmake = true, bool make = true);
void removeTool(const char* path);
// The build system made by the stand-in for CMake
struct Makefile {
    bool exists = false, complete = false;
    std::vector<std::string> args;
    std::string cmakeLists;
};
Makefile readMakefile(const std::string& path);
// The DLL made by the stand-in for make
struct SoFile {
    bool exists = false, complete = false;
    std::string registrar;                    // the generated source
    std::map<std::string, std::string> files; // module definition files: path -> text when compiled
};
SoFile readSo(const std::string& path);
struct Reg {
    bool module;
    std::string name, path, func, ext;
    bool operator<(const Reg& o) const {
        return std::tie(module, name, path, func, ext) < std::tie(o.module, o.name, o.path, o.func, o.ext);
    }
    bool operator==(const Reg& o) const {
        return std::tie(module, name, path, func, ext) == std::tie(o.module, o.name, o.path, o.func, o.ext);
    }
};
std::vector<Reg> registrations(const std::string& registrar); // what the generated source registers
std::vector<Reg> expectedRegs(const std::string& repo, const std::vector<ModFile>& files);

//---------------------------------------------------------------- processes
struct Result {
    bool crashed = false; // killed at the crash point
    int code = -1;        // exit code
    std::string out;      // standard output and error
    u32 faults = 0;       // errors injected while it was running
};
// Runs fn in a process of its own (and waits for everything it started). crashAt > 0: the process is
// killed before that modification of the file system; killTools: together with its children.
extern bool soundOutput; // failing calls don't affect the messages
Result runProc(const char* name, std::function<int()> fn, u32 crashAt = 0, bool killTools = false);
Result plytool(const std::vector<std::string>& args, u32 crashAt = 0, bool killTools = false);
} // namespace pt
