#include "plytool.h"
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <ply-build-common/Core.h>
#include <ply-build-repo/Repo.h>
#include <ply-build-repo/RepoRegistry.h>
#include <ply-build-repo/ModuleArgs.h>
#include <ply-build-repo/ProjectInstantiationEnv.h>
#include <ply-build-repo/ProjectInstantiator.h>
#include <ply-build-repo/ErrorHandler.h>
#include <ply-build-provider/ExternFolderRegistry.h>
#include <ply-build-provider/HostTools.h>
#include <ply-runtime/filesystem/FileSystem.h>

namespace pt {
using namespace ply::build;

//================================================================ module definition files
std::string funcName(const std::string&, const ModFile& f, const Mod& m) {
    std::string s = "module_";
    for (char c : m.name)
        s += isalnum((u8) c) ? c : '_';
    return s + (f.salt & 1 ? "_inst" : "");
}
static std::string provFunc(const Prov& p) {
    std::string s = "extern_";
    for (char c : p.ext + "_" + p.name)
        s += isalnum((u8) c) ? c : '_';
    return s;
}
static const char* vis(bool pub) {
    return pub ? "Visibility::Public" : "Visibility::Private";
}
std::string render(const ModFile& f) {
    std::string s;
    u32 z = f.salt;
    if (z & 2)
        s += "/*------------------------------------\n  ///\\  Some header\n------------------------------------*/\n";
    s += "#include <ply-build-repo/Module.h>\n#include <ply-runtime/algorithm/Find.h>\n";
    if (z & 4)
        s += "\n// An ordinary comment about [ply module] things\nstatic const char* text_" + std::to_string(z) + " = \"// [ply module=\\\"no\\\"]\";\n";
    if (z & 8)
        s += "\nstatic int helper_" + std::to_string(z) + "(int a, int b) {\n    if (a) {\n        return b;\n    }\n    return a;\n}\n";
    for (const Mod& m : f.mods) {
        s += "\n// [ply module=\"" + m.name + "\"]\nvoid " + funcName("", f, m) + "(ModuleArgs* args) {\n";
        if (m.exe)
            s += "    args->buildTarget->targetType = BuildTargetType::EXE;\n";
        if (m.prefix.size())
            s += "    args->buildTarget->dynamicLinkPrefix = \"" + m.prefix + "\";\n";
        for (auto& d : m.src)
            s += "    args->addSourceFiles(\"" + d.dir + "\"" + (d.recursive ? "" : ", false") + ");\n";
        for (auto& d : m.incs)
            s += std::string("    args->addIncludeDir(") + vis(d.pub) + ", \"" + d.name + "\");\n";
        for (auto& d : m.targets)
            s += std::string("    args->addTarget(") + vis(d.pub) + ", \"" + d.name + "\");\n";
        for (auto& d : m.externs)
            s += std::string("    args->addExtern(") + vis(d.pub) + ", \"" + d.name + "\");\n";
        for (auto& d : m.defs)
            s += std::string("    args->setPreprocessorDefinition(") + vis(d.pub) + ", \"" + d.key + "\", \"" + d.value + "\");\n";
        if (m.header)
            s += "    writeHeader(args);\n";
        s += "}\n";
    }
    for (const Prov& p : f.provs) {
        s += "\n// [ply extern=\"" + p.ext + "\" provider=\"" + p.name + "\"]\nExternResult " + provFunc(p) + "(ExternCommand cmd, ExternProviderArgs* args) {\n";
        s += "    lib \"" + p.libs + "\";\n    inc \"" + p.inc + "\";\n";
        if (!p.supported)
            s += "    unsupported;\n";
        s += "}\n";
    }
    if (z & 16)
        s += "\n// The end";
    return s;
}
std::vector<Reg> expectedRegs(const std::string& repo, const std::vector<ModFile>& files) {
    (void) repo;
    std::vector<Reg> r;
    for (auto& f : files) {
        for (auto& m : f.mods)
            r.push_back(Reg{true, m.name, f.path.substr(0, f.path.rfind('/') + 1), funcName("", f, m), ""});
        for (auto& p : f.provs)
            r.push_back(Reg{false, p.name, "", provFunc(p), p.ext});
    }
    for (Reg& g : r) // paths without the trailing separator
        if (g.path.size() > 1 && g.path.back() == '/')
            g.path.pop_back();
    std::sort(r.begin(), r.end());
    return r;
}

//================================================================ small readers
static std::vector<std::string> lines(const std::string& s) {
    std::vector<std::string> r;
    size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p);
        if (e == std::string::npos)
            e = s.size();
        r.push_back(s.substr(p, e - p));
        p = e + 1;
    }
    return r;
}
// The strings in double quotes of a line
static std::vector<std::string> quoted(const std::string& l) {
    std::vector<std::string> r;
    size_t p = 0;
    while ((p = l.find('"', p)) != std::string::npos) {
        std::string s;
        for (p++; p < l.size() && l[p] != '"'; p++) {
            if (l[p] == '\\' && p + 1 < l.size())
                p++;
            s += l[p];
        }
        p++;
        r.push_back(s);
    }
    return r;
}
static bool has(const std::string& s, const char* t) {
    return s.find(t) != std::string::npos;
}
std::vector<Reg> registrations(const std::string& text) {
    std::vector<Reg> r;
    for (const std::string& l : lines(text)) {
        std::vector<std::string> q = quoted(l);
        if (has(l, "addTargetInstantiator(")) {
            if (q.size() != 2)
                sim::violate("registrar", "unexpected line in the generated source: %s", l.c_str());
            std::string f = l.substr(l.rfind("repo, ") + 6);
            f = f.substr(0, f.find('}'));
            std::string path = q[1];
            if (path.size() > 1 && path.back() == '/')
                path.pop_back();
            r.push_back(Reg{true, q[0], path, f, ""});
        } else if (has(l, "addExternProvider(")) {
            if (q.size() != 2)
                sim::violate("registrar", "unexpected line in the generated source: %s", l.c_str());
            std::string f = l.substr(l.rfind(", ") + 2);
            f = f.substr(0, f.find(')'));
            r.push_back(Reg{false, q[1], "", f, q[0]});
        }
    }
    std::sort(r.begin(), r.end());
    return r;
}

//---------------------------------------------------------------- CMakeLists.txt
CMakeFile parseCMake(const std::string& text) {
    CMakeFile c;
    struct Cmd {
        std::string name;
        std::vector<std::string> args;
    };
    std::vector<Cmd> cmds;
    size_t p = 0, n = text.size();
    while (p < n) {
        if (isspace((u8) text[p])) {
            p++;
        } else if (text[p] == '#') {
            while (p < n && text[p] != '\n')
                p++;
        } else {
            Cmd k;
            while (p < n && (isalnum((u8) text[p]) || text[p] == '_'))
                k.name += text[p++];
            if (k.name.empty() || p >= n || text[p] != '(')
                sim::violate("cmakelists-syntax", "CMakeLists.txt is not well-formed at offset %zu: %s", p, sim::escape(text.substr(p)).c_str());
            p++;
            for (;;) {
                while (p < n && isspace((u8) text[p]))
                    p++;
                if (p >= n)
                    sim::violate("cmakelists-syntax", "CMakeLists.txt ends within the command %s", k.name.c_str());
                if (text[p] == ')') {
                    p++;
                    break;
                }
                std::string a;
                if (text[p] == '"') {
                    for (p++; p < n && text[p] != '"'; p++) {
                        if (text[p] == '\\' && p + 1 < n)
                            p++;
                        a += text[p];
                    }
                    p++;
                } else {
                    while (p < n && !isspace((u8) text[p]) && text[p] != ')')
                        a += text[p++];
                }
                k.args.push_back(a);
            }
            cmds.push_back(k);
        }
    }
    struct Src {
        std::vector<std::string> part, non;
    };
    std::map<std::string, Src> vars;
    auto target = [&](const std::string& t) -> CTarget& {
        auto f = c.targets.find(t);
        if (f == c.targets.end())
            sim::violate("cmakelists-order", "CMakeLists.txt uses the target %s before it is defined", t.c_str());
        return f->second;
    };
    for (Cmd& k : cmds) {
        auto arg = [&](size_t i) { return i < k.args.size() ? k.args[i] : std::string(); };
        if (k.name == "project") {
            c.project = arg(0);
        } else if (k.name == "include") {
            c.include = arg(0);
        } else if (k.name == "SetSourceFolders" || k.name == "SetNonParticipatingFiles") {
            Src& s = vars[arg(0)];
            std::string root = arg(1);
            if (root.size() && root.back() == '/')
                root.pop_back();
            for (size_t i = 2; i < k.args.size(); i++)
                (k.name == "SetSourceFolders" ? s.part : s.non).push_back(root + "/" + k.args[i]);
        } else if (k.name == "add_library" || k.name == "add_executable" || k.name == "add_custom_target") {
            std::string t = arg(0);
            if (c.targets.count(t))
                sim::violate("cmakelists-twice", "CMakeLists.txt defines the target %s twice", t.c_str());
            CTarget& ct = c.targets[t];
            c.order.push_back(t);
            ct.type = k.name == "add_executable" ? "exe" : k.name == "add_custom_target" ? "header" : "lib";
            std::set<std::string> used;
            for (size_t i = 1; i < k.args.size(); i++) {
                const std::string& a = k.args[i];
                if (a == "OBJECT")
                    ct.type = "object";
                else if (a == "SHARED")
                    ct.type = "shared";
                else if (a == "SOURCES") {
                } else if (a.compare(0, 2, "${") == 0) {
                    std::string v = a.substr(2, a.size() - 3);
                    if (!vars.count(v))
                        sim::violate("cmakelists-order", "CMakeLists.txt uses the variable %s before it is set", v.c_str());
                    if (used.insert(v).second) {
                        ct.sources = vars[v].part;
                        ct.nonPart = vars[v].non;
                    }
                } else if (a.compare(0, 17, "$<TARGET_OBJECTS:") == 0) {
                    ct.objects.push_back(a.substr(17, a.size() - 18));
                } else {
                    sim::violate("cmakelists-syntax", "unexpected argument %s of %s", a.c_str(), k.name.c_str());
                }
            }
        } else if (k.name == "set_property") {
            target(arg(1)).exports = arg(3) == "ENABLE_EXPORTS" && arg(4) == "TRUE";
        } else if (k.name == "EnableCppExceptions") {
            target(arg(0)).exceptions = arg(1);
        } else if (k.name == "target_include_directories" || k.name == "target_compile_definitions" || k.name == "target_link_libraries") {
            CTarget& t = target(arg(0));
            auto& v = k.name == "target_include_directories" ? t.includes : k.name == "target_compile_definitions" ? t.defines : t.libs;
            for (size_t i = 2; i < k.args.size(); i++) {
                if (std::find(v.begin(), v.end(), k.args[i]) != v.end())
                    sim::violate("cmakelists-twice", "%s: %s is listed twice for the target %s", k.name.c_str(), k.args[i].c_str(), arg(0).c_str());
                v.push_back(k.args[i]);
            }
        }
    }
    return c;
}
static std::string diff(std::vector<std::string> got, std::vector<std::string> want) {
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    for (auto& g : got)
        if (!std::binary_search(want.begin(), want.end(), g))
            return "unexpected " + g;
    for (auto& w : want)
        if (!std::binary_search(got.begin(), got.end(), w))
            return "missing " + w;
    if (got.size() != want.size())
        return "something is listed twice";
    return "";
}
bool sameCMake(const CMakeFile& g, const CMakeFile& w, std::string* why) {
    std::string d;
    if (g.project != w.project)
        return *why = "the project is called " + g.project + ", not " + w.project, false;
    if (g.include != w.include)
        return *why = "it includes " + g.include, false;
    if ((d = diff(g.order, w.order)).size())
        return *why = "targets: " + d, false;
    for (auto& e : w.targets) {
        const CTarget& b = e.second;
        const CTarget& a = g.targets.at(e.first);
        std::string t = "target " + e.first + ": ";
        if (a.type != b.type)
            return *why = t + "its type is " + a.type + ", not " + b.type, false;
        if ((d = diff(a.sources, b.sources)).size())
            return *why = t + "sources: " + d, false;
        if ((d = diff(a.nonPart, b.nonPart)).size())
            return *why = t + "other files: " + d, false;
        if ((d = diff(a.objects, b.objects)).size())
            return *why = t + "objects: " + d, false;
        if ((d = diff(a.includes, b.includes)).size())
            return *why = t + "include directories: " + d, false;
        if ((d = diff(a.defines, b.defines)).size())
            return *why = t + "definitions: " + d, false;
        if ((d = diff(a.libs, b.libs)).size())
            return *why = t + "libraries: " + d, false;
        if (a.exceptions != b.exceptions || a.exports != b.exports)
            return *why = t + "other properties", false;
    }
    return true;
}

//---------------------------------------------------------------- Pylon
static bool pyWs(const std::string& t, size_t& p) {
    while (p < t.size()) {
        if (isspace((u8) t[p]))
            p++;
        else if (t[p] == '/' && p + 1 < t.size() && t[p + 1] == '/') {
            while (p < t.size() && t[p] != '\n')
                p++;
        } else
            break;
    }
    return p < t.size();
}
static bool pyVal(const std::string& t, size_t& p, PNode* out);
static bool pyStr(const std::string& t, size_t& p, std::string* out) {
    if (t[p] == '"') {
        for (p++; p < t.size() && t[p] != '"'; p++) {
            if (t[p] != '\\') {
                *out += t[p];
                continue;
            }
            if (++p >= t.size())
                return false;
            switch (t[p]) {
                case 'n':
                    *out += '\n';
                    break;
                case 'r':
                    *out += '\r';
                    break;
                case 't':
                    *out += '\t';
                    break;
                default:
                    *out += t[p];
            }
        }
        if (p >= t.size())
            return false;
        p++;
        return true;
    }
    while (p < t.size() && (isalnum((u8) t[p]) || strchr("_$.-", t[p])))
        *out += t[p++];
    return out->size() > 0;
}
static bool pyVal(const std::string& t, size_t& p, PNode* out) {
    if (!pyWs(t, p))
        return false;
    if (t[p] == '{' || t[p] == '[') {
        bool obj = t[p] == '{';
        out->t = obj ? PNode::Obj : PNode::Arr;
        p++;
        for (;;) {
            if (!pyWs(t, p))
                return false;
            if (t[p] == ',') {
                p++;
                continue;
            }
            if (t[p] == (obj ? '}' : ']')) {
                p++;
                return true;
            }
            if (obj) {
                std::string k;
                if (!pyStr(t, p, &k) || !pyWs(t, p) || (t[p] != ':' && t[p] != '='))
                    return false;
                p++;
                out->kv.push_back({k, PNode{}});
                if (!pyVal(t, p, &out->kv.back().second))
                    return false;
            } else {
                out->items.push_back(PNode{});
                if (!pyVal(t, p, &out->items.back()))
                    return false;
            }
        }
    }
    out->t = PNode::Str;
    return pyStr(t, p, &out->s);
}
bool parsePylon(const std::string& text, PNode* out) {
    size_t p = 0;
    *out = PNode{};
    if (!pyVal(text, p, out))
        return false;
    return !pyWs(text, p);
}
std::string quote(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\')
            r += '\\';
        r += c;
    }
    return r + "\"";
}
std::string writePylon(const PNode& n, u32 ind) {
    std::string pad(ind + 2, ' '), end(ind, ' ');
    if (n.t == PNode::Str)
        return quote(n.s);
    if (n.t == PNode::Obj) {
        std::string s = "{\n";
        for (size_t i = 0; i < n.kv.size(); i++)
            s += pad + quote(n.kv[i].first) + ": " + writePylon(n.kv[i].second, ind + 2) + (i + 1 < n.kv.size() ? "," : "") + "\n";
        return s + end + "}" + (ind ? "" : "\n");
    }
    std::string s = "[\n";
    for (size_t i = 0; i < n.items.size(); i++)
        s += pad + writePylon(n.items[i], ind + 2) + (i + 1 < n.items.size() ? "," : "") + "\n";
    return s + end + "]";
}

//================================================================ tools
std::vector<ToolRun> toolRuns;
ToolPlan cmakePlan = T_OK, makePlan = T_OK;
std::string toolPlanDir = "/";
u32 toolChatter = 0;
std::function<void()> onTool;
std::map<std::string, int> exeCode;
std::map<std::string, bool> installed;
std::map<std::string, bool> installFails;
std::set<std::string> headerWritten;

static bool put(const std::string& path, const std::string& data, const std::string& first) {
    // as a program that writes in place does: there is a moment at which the file is incomplete
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0)
        return false;
    write(fd, first.data(), first.size());
    sim::yield();
    if (onTool)
        onTool();
    ftruncate(fd, 0);
    lseek(fd, 0, SEEK_SET);
    size_t p = 0;
    while (p < data.size()) {
        ssize_t r = write(fd, data.data() + p, data.size() - p);
        if (r <= 0)
            break;
        p += (size_t) r;
    }
    close(fd);
    return p == data.size();
}
static void chatter() {
    std::string s;
    s.reserve(toolChatter + 100);
    for (u32 i = 0; i < toolChatter; i += 62)
        s += "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghi\n";
    s += "-- done\n";
    size_t p = 0;
    while (p < s.size()) {
        ssize_t r = write(1, s.data() + p, s.size() - p);
        if (r <= 0)
            break;
        p += (size_t) r;
    }
}
static std::string parentDir(std::string d) {
    size_t s = d.rfind('/');
    return s == 0 || s == std::string::npos ? "/" : d.substr(0, s);
}
static std::string makefileText(const std::vector<std::string>& args, const std::string& cm) {
    std::string s = "# Makefile\n";
    for (auto& a : args)
        s += "# " + a + "\n";
    return s + "#--\n" + cm + "#END\n";
}
Makefile readMakefile(const std::string& path) {
    Makefile m;
    std::string t;
    m.exists = sim::k::readFile(path, &t);
    if (!m.exists || t.compare(0, 11, "# Makefile\n") || t.size() < 16 || t.substr(t.size() - 5) != "#END\n")
        return m;
    size_t p = 11;
    while (t.compare(p, 4, "#--\n")) {
        size_t e = t.find('\n', p);
        m.args.push_back(t.substr(p + 2, e - p - 2));
        p = e + 1;
    }
    p += 4;
    m.cmakeLists = t.substr(p, t.size() - 5 - p);
    m.complete = true;
    return m;
}
static size_t begin(const char* tool, const std::vector<std::string>& argv) {
    sim::exemptFiber();
    sim::Quiet q;
    ToolRun r;
    r.tool = tool;
    r.argv.assign(argv.begin() + 1, argv.end());
    r.dir = sim::cur->proc->cwdAtExec;
    if (r.dir.size() > 1 && r.dir.back() == '/')
        r.dir.pop_back();
    toolRuns.push_back(r);
    return toolRuns.size() - 1;
}
static int finish(size_t i, int code) {
    sim::Quiet q;
    toolRuns[i].finished = true;
    toolRuns[i].code = code;
    return code;
}
static bool below(const std::string& d, const std::string& root) {
    return root == "/" || d.compare(0, root.size(), root) == 0;
}
static int cmakeMain(const std::vector<std::string>& argv) {
    size_t me = begin("cmake", argv);
    std::string dir = toolRuns[me].dir;
    std::vector<std::string> args = toolRuns[me].argv;
    ToolPlan plan = below(dir, toolPlanDir) ? cmakePlan : T_OK;
    if (args.empty() || args[0].find_first_not_of("./") != std::string::npos)
        sim::violate("cmake-arguments", "CMake was started with the unexpected argument %s", args.size() ? args[0].c_str() : "(none)");
    std::string src = dir;
    for (size_t p = 0; p < args[0].size(); p += 3)
        src = parentDir(src);
    std::string cm;
    if (!sim::k::readFile(src + "/CMakeLists.txt", &cm)) {
        const char m[] = "CMake Error: The source directory does not appear to contain CMakeLists.txt.\n";
        write(1, m, sizeof(m) - 1);
        return finish(me, 1);
    }
    if (toolChatter)
        chatter();
    if (plan == T_FAIL_EARLY)
        return finish(me, 1);
    if (plan == T_FAIL_LATE || plan == T_DIE) {
        int fd = open((dir + "/Makefile").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        write(fd, "# Makefile\n# incom", 18);
        close(fd);
        sim::yield();
        if (plan == T_DIE)
            sim::k::killProc(sim::cur->proc, 9);
        return finish(me, 1);
    }
    std::string t = makefileText(args, cm);
    if (!put(dir + "/Makefile", t, t.substr(0, t.size() / 2)))
        return finish(me, 1);
    return finish(me, 0);
}

//---------------------------------------------------------------- make
static std::string pack(const std::vector<std::pair<std::string, std::string>>& v) {
    std::string s = "SO\n";
    for (auto& e : v)
        s += std::to_string(e.first.size()) + " " + std::to_string(e.second.size()) + "\n" + e.first + e.second;
    return s + "END\n";
}
static bool unpack(const std::string& s, std::vector<std::pair<std::string, std::string>>* v) {
    if (s.compare(0, 3, "SO\n"))
        return false;
    size_t p = 3;
    while (p < s.size()) {
        if (s.compare(p, std::string::npos, "END\n") == 0)
            return true;
        size_t a = 0, b = 0;
        size_t e = s.find('\n', p);
        if (e == std::string::npos || sscanf(s.c_str() + p, "%zu %zu", &a, &b) != 2 || e + 1 + a + b > s.size())
            return false;
        v->push_back({s.substr(e + 1, a), s.substr(e + 1 + a, b)});
        p = e + 1 + a + b;
    }
    return false;
}
SoFile readSo(const std::string& path) {
    SoFile so;
    std::string t;
    so.exists = sim::k::readFile(path, &t);
    std::vector<std::pair<std::string, std::string>> v;
    if (!so.exists || !unpack(t, &v))
        return so;
    so.complete = true;
    for (auto& e : v) {
        if (e.first.size() > 18 && e.first.compare(e.first.size() - 18, 18, "_Instantiators.cpp") == 0)
            so.registrar = e.second;
        else
            so.files[e.first] = e.second;
    }
    return so;
}
static int exeMain(const std::vector<std::string>& argv) {
    size_t me = begin("exe", argv);
    std::string path = sim::cur->proc->execPath;
    {
        sim::Quiet q;
        toolRuns[me].tool = path;
    }
    auto f = exeCode.find(path.substr(path.rfind('/') + 1));
    return finish(me, f == exeCode.end() ? 0 : f->second);
}
static int makeMain(const std::vector<std::string>& argv) {
    size_t me = begin("make", argv);
    std::string dir = toolRuns[me].dir;
    std::vector<std::string> args = toolRuns[me].argv;
    ToolPlan plan = below(dir, toolPlanDir) ? makePlan : T_OK;
    std::string goal;
    for (size_t i = 0; i < args.size(); i++) {
        if (args[i] == "-j" && i + 1 < args.size() && atoi(args[i + 1].c_str()) > 0)
            i++;
        else if (args[i][0] != '-' && goal.empty())
            goal = args[i];
        else
            sim::violate("make-arguments", "make was started with the unexpected argument %s", sim::escape(args[i]).c_str());
    }
    Makefile mf = readMakefile(dir + "/Makefile");
    if (toolChatter)
        chatter();
    if (!mf.complete)
        return finish(me, 2);
    std::string src = dir;
    for (size_t p = 0; p < mf.args[0].size(); p += 3)
        src = parentDir(src);
    std::string cm;
    if (!sim::k::readFile(src + "/CMakeLists.txt", &cm))
        return finish(me, 2);
    if (plan == T_FAIL_EARLY)
        return finish(me, 2);
    if (cm != mf.cmakeLists) { // CMake's Makefiles run CMake again when CMakeLists.txt has changed
        mf.cmakeLists = cm;
        if (!put(dir + "/Makefile", makefileText(mf.args, cm), "# Makefile\n"))
            return finish(me, 2);
    }
    CMakeFile c = parseCMake(cm);
    if (goal.size() && !c.targets.count(goal))
        return finish(me, 2);
    for (const std::string& t : c.order) {
        const CTarget& ct = c.targets[t];
        if (goal.size() ? t != goal : ct.type != "shared" && ct.type != "exe")
            continue;
        if (ct.type == "shared") {
            std::vector<std::pair<std::string, std::string>> v;
            std::string all, reg;
            for (const std::string& s : ct.sources) {
                std::string text;
                if (s.size() > 17 && s.compare(s.size() - 16, 16, "/memory/Heap.cpp") == 0)
                    continue;
                if (!sim::k::readFile(s, &text)) {
                    const char m[] = "make: *** No rule to make target. Stop.\n";
                    write(1, m, sizeof(m) - 1);
                    return finish(me, 2);
                }
                v.push_back({s, text});
                if (has(s, "_Instantiators.cpp"))
                    reg = text;
                else
                    all += text;
                sim::yield();
                if (onTool)
                    onTool();
            }
            for (const Reg& r : registrations(reg)) // compile and link
                if (!has(all, (" " + r.func + "(").c_str()) || !has(reg, (" " + r.func + "(").c_str()))
                    return finish(me, 2);
            std::string so = pack(v);
            std::string path = dir + "/lib" + t + ".so";
            if (plan == T_FAIL_LATE || plan == T_DIE) {
                put(path, so.substr(0, so.size() / 2), "SO");
                if (plan == T_DIE)
                    sim::k::killProc(sim::cur->proc, 9);
                return finish(me, 2);
            }
            if (!put(path, so, "SO\n"))
                return finish(me, 2);
        } else if (ct.type == "exe") {
            std::string path = dir + "/" + t;
            if (plan == T_FAIL_LATE || plan == T_DIE) {
                sim::k::remove(path);
                put(path, "half", "x");
                if (plan == T_DIE)
                    sim::k::killProc(sim::cur->proc, 9);
                return finish(me, 2);
            }
            sim::k::remove(path);
            if (!put(path, "x", "x"))
                return finish(me, 2);
            std::string text = "EXE " + t + "\n";
            for (const std::string& s : ct.sources)
                text += s + "\n";
            sim::k::installProgram(path, exeMain);
            sim::k::lookup(path)->data = text;
        }
    }
    return finish(me, 0);
}
void installTools(bool cmake, bool make) {
    if (cmake)
        sim::k::installProgram("/usr/bin/cmake", cmakeMain);
    if (make)
        sim::k::installProgram("/usr/bin/make", makeMain);
}
void removeTool(const char* path) {
    sim::k::remove(path);
}

//================================================================ instantiator DLLs
struct Lib {
    std::string repo;
    std::vector<Reg> regs;
    std::map<std::string, std::vector<std::string>> bodies; // function -> lines
};
static std::map<std::string, Lib*> libs; // by repo
static std::vector<std::string> readBody(const std::map<std::string, std::string>& files, const std::string& func) {
    for (auto& f : files) {
        bool in = false;
        std::vector<std::string> r;
        for (const std::string& l : lines(f.second)) {
            if (in) {
                if (l == "}")
                    return r;
                r.push_back(l);
            } else if (has(l, (" " + func + "(").c_str()) && l.back() == '{') {
                in = true;
            }
        }
    }
    return {};
}
static void moduleFunc(Lib* lib, const std::string& func, ModuleArgs* args) {
    for (const std::string& l : lib->bodies[func]) {
        std::vector<std::string> q = quoted(l);
        Visibility v = has(l, "Visibility::Public") ? Visibility::Public : Visibility::Private;
        if (has(l, "BuildTargetType::EXE"))
            args->buildTarget->targetType = BuildTargetType::EXE;
        else if (has(l, "dynamicLinkPrefix"))
            args->buildTarget->dynamicLinkPrefix = sv(q[0]);
        else if (has(l, "addSourceFiles("))
            args->addSourceFiles(sv(q[0]), !has(l, ", false)"));
        else if (has(l, "addIncludeDir("))
            args->addIncludeDir(v, sv(q[0]));
        else if (has(l, "addTarget("))
            args->addTarget(v, sv(q[0]));
        else if (has(l, "addExtern("))
            args->addExtern(v, sv(q[0]));
        else if (has(l, "setPreprocessorDefinition("))
            args->setPreprocessorDefinition(v, sv(q[0]), sv(q[1]));
        else if (has(l, "writeHeader(")) {
            if (args->projInst->env->isGenerating) {
                std::string path = str(NativePath::join(args->projInst->env->buildFolderPath, "codegen", args->targetInst->name, "Config.h"));
                FileSystem::native()->makeDirsAndSaveTextIfDifferent(sv(path), "#define A 1\n", TextFormat::unixUTF8());
                headerWritten.insert(str(args->targetInst->name));
            }
        }
    }
}
static std::string provKey(const ExternProvider* p) {
    return str(p->repo->repoName) + "/" + str(p->extern_->name) + "/" + str(p->providerName);
}
static ExternResult externFunc(ExternCommand cmd, ExternProviderArgs* args) {
    const ExternProvider* p = args->provider;
    Lib* lib = libs[str(p->repo->repoName)];
    std::vector<std::string>* body = nullptr;
    for (Reg& r : lib->regs)
        if (!r.module && r.name == str(p->providerName) && (r.ext == str(p->extern_->name) || has(r.ext, ("." + str(p->extern_->name)).c_str())))
            body = &lib->bodies[r.func];
    if (!body)
        sim::violate("extern-provider", "a provider that isn't registered was called");
    std::string key = provKey(p);
    for (auto& l : *body)
        if (has(l, "unsupported"))
            return {ExternResult::UnsupportedToolchain, ""};
    if (cmd == ExternCommand::Install) {
        if (installFails[key])
            return {ExternResult::InstallFailed, "no luck"};
        installed[key] = true;
        return {ExternResult::Installed, ""};
    }
    if (!installed[key])
        return {ExternResult::SupportedButNotInstalled, ""};
    if (cmd == ExternCommand::Status)
        return {ExternResult::Installed, ""};
    for (auto& l : *body) {
        std::vector<std::string> q = quoted(l);
        if (has(l, "lib ") && q[0].size())
            args->dep->libs.append(sv(q[0]));
        if (has(l, "inc ") && q[0].size())
            args->dep->includeDirs.append(sv(q[0]));
    }
    return {ExternResult::Instantiated, ""};
}
static void registerInstantiators(Repo* repo) {
    Lib* lib = libs[str(repo->repoName)];
    if (!lib)
        sim::violate("wrong-dll", "the entry point of a DLL was called for the repo %s", str(repo->repoName).c_str());
    for (Reg& r : lib->regs) {
        if (r.module) {
            TargetInstantiator* t = new TargetInstantiator;
            t->name = sv(r.name);
            t->instantiatorPath = sv(r.path);
            t->repo = repo;
            std::string* fn = &r.func;
            t->moduleFunc = [lib, fn](ModuleArgs* args) { moduleFunc(lib, *fn, args); };
            repo->addTargetInstantiator(Owned<TargetInstantiator>{t});
        } else {
            repo->addExternProvider(sv(r.ext), sv(r.name), externFunc);
        }
    }
}
static void installLoader() {
    sim::k::dlLoad = [](const std::string& path, const std::string& contents) -> void* {
        std::vector<std::pair<std::string, std::string>> v;
        if (!unpack(contents, &v))
            return nullptr;
        SoFile so = readSo(path);
        std::string leaf = path.substr(path.rfind('/') + 1);
        if (leaf.compare(0, 3, "lib") || leaf.size() < 21)
            return nullptr;
        Lib* lib = new Lib;
        lib->repo = leaf.substr(3, leaf.size() - 3 - 17);
        lib->regs = registrations(so.registrar);
        for (Reg& r : lib->regs)
            lib->bodies[r.func] = readBody(so.files, r.func);
        libs[lib->repo] = lib;
        return lib;
    };
    sim::k::dlFind = [](void*, const std::string& sym) -> void* {
        return sym == "registerInstantiators" ? (void*) registerInstantiators : nullptr;
    };
}

//================================================================ processes
static const sim::Fault errKinds[] = {sim::FT_READ_ERR, sim::FT_WRITE_ERR, sim::FT_DISK_FULL, sim::FT_OPEN_ERR, sim::FT_STAT_ERR, sim::FT_META_ERR,
                                      sim::FT_READDIR_ERR, sim::FT_FSYNC_ERR, sim::FT_FD_LIMIT, sim::FT_NOMEM, sim::FT_CLOSE_ERR};
static u32 totalFaults() {
    u32 n = 0;
    for (sim::Fault f : errKinds)
        n += sim::faultCount(f);
    return n;
}
bool soundOutput = false;
Result runProc(const char* name, std::function<int()> fn, u32 crashAt, bool killTools) {
    installLoader();
    libs.clear();
    Result res;
    sim::Proc* p = sim::k::newProc(name, sim::rootProc);
    sim::k::attachNull(p);
    sim::k::remove("/out.txt");
    sim::k::writeFile("/out.txt", "");
    sim::k::lookup("/out.txt")->sound = soundOutput;
    u32 faults0 = totalFaults();
    u32 seen = 0;
    auto prev = sim::k::onModify;
    if (crashAt)
        sim::k::onModify = [&, prev](const char* what) {
            if (prev)
                prev(what);
            if (++seen != crashAt)
                return;
            res.crashed = true;
            sim::log("crash point %u (before %s)", seen, what);
            sim::faultFired(sim::FT_CRASH);
            if (killTools)
                for (size_t i = 0; i < sim::allProcs.size(); i++) {
                    sim::Proc* q = sim::allProcs[i];
                    if (q != p && !q->isRoot && q != sim::cur->proc && sim::k::procAlive(q))
                        sim::k::killProc(q, 9);
                }
            bool self = killTools && sim::cur->proc != p && !sim::cur->proc->isRoot;
            if (sim::k::procAlive(p) && (sim::cur->proc != p || !self))
                sim::k::killProc(p, 9);
            if (self)
                sim::k::killProc(sim::cur->proc, 9);
        };
    sim::k::spawnIn(p, name, [&] {
        double keep[sim::FT_COUNT];
        for (u32 i = 0; i < sim::FT_COUNT; i++) {
            keep[i] = sim::faultRate[i];
            sim::faultRate[i] = 0;
        }
        int fd = open("/out.txt", O_WRONLY | O_APPEND);
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
        for (u32 i = 0; i < sim::FT_COUNT; i++)
            sim::faultRate[i] = keep[i];
        exit(fn());
    });
    auto idle = [] {
        for (sim::Proc* q : sim::allProcs)
            if (!q->isRoot && sim::k::procAlive(q))
                return false;
        return true;
    };
    sim::waitUntil(idle);
    sim::k::onModify = prev;
    if (p->zombie && !res.crashed) {
        res.code = (p->status & 127) ? -1 - (p->status & 127) : p->status >> 8;
    }
    p->reaped = true;
    sim::k::readFile("/out.txt", &res.out);
    res.faults = totalFaults() - faults0;
    {
        // the process is gone, and with it its memory
        sim::Quiet q;
        RepoRegistry::instance_.release();
        ExternFolderRegistry::instance_.release();
        HostTools::instance_.release();
    }
    sim::log("%s: %s, exit code %d, %zu bytes of output", name, res.crashed ? "killed" : "ended", res.code, res.out.size());
    return res;
}
Result plytool(const std::vector<std::string>& args, u32 crashAt, bool killTools) {
    std::string all = "plytool";
    for (auto& a : args)
        all += " " + a;
    sim::log("%s", all.c_str());
    return runProc(
        "plytool",
        [&]() -> int {
            std::vector<std::string> keep{"/ws/plytool"};
            keep.insert(keep.end(), args.begin(), args.end());
            std::vector<char*> argv;
            for (auto& a : keep)
                argv.push_back(&a[0]);
            argv.push_back(nullptr);
            return plytool_main((int) keep.size(), argv.data());
        },
        crashAt, killTools);
}
} // namespace pt
