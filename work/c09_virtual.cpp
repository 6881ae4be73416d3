// C09: a virtual file system acts entirely within its root directory, whatever path it is given,
// and maps every other path to the right file.
#include "common.h"
#include <map>
#include <set>
#include <unistd.h>
#include <ply-runtime/filesystem/FileSystem.h>
#include <ply-runtime/io/Pipe.h>
using namespace wl;

namespace {
const char* rname(FSResult r) {
    static const char* n[] = {"Unknown", "NotFound", "Locked", "AccessDenied", "OK", "AlreadyExists", "Unchanged"};
    return (u32) r < 7 ? n[(u32) r] : "?";
}
// Lexical normalisation; false if the path is absolute or climbs above its start
bool norm(const std::string& p, std::string* out) {
    if (p.size() && p[0] == '/')
        return false;
    std::vector<std::string> c;
    size_t i = 0;
    while (i <= p.size()) {
        size_t j = p.find('/', i);
        if (j == std::string::npos)
            j = p.size();
        std::string s = p.substr(i, j - i);
        if (s == "..") {
            if (c.empty())
                return false;
            c.pop_back();
        } else if (s != "" && s != ".")
            c.push_back(s);
        i = j + 1;
    }
    out->clear();
    for (auto& s : c)
        *out += "/" + s;
    return true;
}
std::string genPath() {
    static const char* const comps[] = {"a", "b", "f.txt", "..", "..", "..", ".", "", "...", "..a", "sec", "other", "root", "w"};
    std::string p;
    u32 n = 1 + W.below(6);
    if (W.below(8) == 7)
        p = "/";
    for (u32 i = 0; i < n; i++) {
        if (i)
            p += "/";
        p += comps[W.below(14)];
    }
    if (W.below(8) == 7)
        p += "/";
    return p;
}

struct Ctx {
    std::string root; // absolute path of the root directory
    FileSystem* fs;
    bool mayWrite;
};

std::map<std::string, std::string> snap() {
    sim::Quiet q;
    std::map<std::string, std::string> a;
    for (auto& e : sim::k::tree("/"))
        a[e.first[0] == '/' ? e.first : "/" + e.first] = e.second;
    return a;
}

void oneOp(const Ctx& c, const std::string& cwd) {
    std::string p = genPath(), rel;
    bool inside = norm(p, &rel);
    std::string target = c.root + rel;
    bool wasDir = inside && sim::k::isDir(target);
    std::string before;
    bool wasFile = inside && !wasDir && sim::k::readFile(target, &before);
    bool trailing = p.size() && p.back() == '/';
    StringView v = sv(p);
    u32 ef = sim::errFaults();
    auto injected = [&] { return sim::errFaults() != ef; };
    FSResult r = FSResult::OK;
    bool okay = false;
    std::string what;
    u32 op = W.below(c.mayWrite ? 11 : 6);
    {
        sim::Quiet q;
        sim::k::fsOps.clear();
        sim::k::recordFs = true;
    }
    switch (op) {
        case 0: {
            what = "exists";
            ExistsResult e = c.fs->exists(v);
            okay = e != ExistsResult::NotFound;
            if (inside && !injected())
                SIM_CHECK(e == (wasDir ? ExistsResult::Directory : wasFile && !trailing ? ExistsResult::File : ExistsResult::NotFound), "wrong-file", "exists(%s) = %d", p.c_str(), (int) e);
            break;
        }
        case 1: {
            what = "openPipeForRead";
            auto in = c.fs->openPipeForRead(v);
            r = c.fs->lastResult();
            okay = !!in;
            if (okay && !wasDir) {
                char buf[100];
                std::string got;
                for (;;) {
                    u32 n = in->readSome({buf, 100});
                    if (!n)
                        break;
                    got.append(buf, n);
                }
                if (inside && !injected())
                    SIM_CHECK(wasFile && got == before, "wrong-file", "openPipeForRead(%s) delivered other contents than those of %s", p.c_str(), target.c_str());
            } else if (inside && wasFile && !trailing)
                SIM_CHECK(injected(), "wrong-file", "openPipeForRead(%s) failed: %s", p.c_str(), rname(r));
            break;
        }
        case 2: {
            what = "loadBinary";
            String s = c.fs->loadBinary(v);
            r = c.fs->lastResult();
            okay = !s.isEmpty();
            if (inside && wasFile && !trailing && !injected())
                SIM_CHECK(str(s) == before, "wrong-file", "loadBinary(%s) delivered other contents than those of %s", p.c_str(), target.c_str());
            break;
        }
        case 3: {
            what = "listDir";
            u32 n = 0;
            {
                Directory d = c.fs->listDir(v, W.below(4));
                for (DirectoryEntry& e : d) {
                    n++;
                    if (inside)
                        SIM_CHECK(sim::k::lookup(target + "/" + str(e.name), false), "wrong-file", "listDir(%s) delivered %s, which is not in %s", p.c_str(), str(e.name).c_str(), target.c_str());
                }
            }
            r = c.fs->lastResult();
            okay = n > 0 || r == FSResult::OK;
            break;
        }
        case 4: {
            what = "getFileStatus";
            FileStatus st = c.fs->getFileStatus(v);
            r = c.fs->lastResult();
            okay = st.result == FSResult::OK || st.fileSize;
            if (inside && wasFile && !trailing && !injected())
                SIM_CHECK(st.result == FSResult::OK && st.fileSize == before.size(), "wrong-file", "getFileStatus(%s) is not that of %s", p.c_str(), target.c_str());
            break;
        }
        case 5: {
            what = "walk";
            u32 n = 0;
            for (WalkTriple& t : c.fs->walk(v, 0)) {
                for (u32 i = 0; i < t.dirNames.numItems(); i++)
                    n++;
                for (u32 i = 0; i < t.files.numItems(); i++)
                    n++;
            }
            okay = n > 0;
            if (!inside)
                r = FSResult::Unknown;
            break;
        }
        case 6: {
            what = "openPipeForWrite";
            std::string data = patternBytes(W.below(200), op);
            {
                auto out = c.fs->openPipeForWrite(v);
                r = c.fs->lastResult();
                okay = !!out;
                if (out)
                    SIM_CHECK(out->write(sv(data)) || injected(), "wrong-file", "write() failed");
            }
            std::string got;
            if (okay && inside && !injected())
                SIM_CHECK(sim::k::readFile(target, &got) && got == data, "wrong-file", "openPipeForWrite(%s) did not write %s", p.c_str(), target.c_str());
            break;
        }
        case 7: {
            what = W.below(2) ? "makeDir" : "makeDirs";
            r = what == "makeDir" ? c.fs->makeDir(v) : c.fs->makeDirs(v);
            okay = r == FSResult::OK || r == FSResult::AlreadyExists;
            if (p == "") // nothing to be done
                okay = inside;
            if (okay && inside && p != "" && !injected() && r == FSResult::OK)
                SIM_CHECK(sim::k::isDir(target), "wrong-file", "%s(%s) did not create %s", what.c_str(), p.c_str(), target.c_str());
            break;
        }
        case 8: {
            what = "deleteFile";
            r = c.fs->deleteFile(v);
            okay = r == FSResult::OK;
            if (okay && inside)
                SIM_CHECK(!sim::k::lookup(target, false), "wrong-file", "deleteFile(%s) did not delete %s", p.c_str(), target.c_str());
            break;
        }
        case 9: {
            if (inside && rel.empty())
                return; // the root itself
            what = "removeDirTree";
            r = c.fs->removeDirTree(v);
            okay = r == FSResult::OK;
            if (okay && inside)
                SIM_CHECK(!sim::k::lookup(target, false), "wrong-file", "removeDirTree(%s) did not remove %s", p.c_str(), target.c_str());
            break;
        }
        default: {
            std::string q = genPath(), rel2;
            bool inside2 = norm(q, &rel2);
            if ((inside && rel.empty()) || (inside2 && rel2.empty()))
                return;
            if (W.below(2)) { // at least one of them is fine
                p = "f.txt";
                v = sv(p);
                inside = norm(p, &rel);
                wasFile = sim::k::readFile(c.root + rel, &before);
            }
            what = "moveFile";
            bool swap = W.below(2);
            auto& from = swap ? q : p;
            auto& to = swap ? p : q;
            if (swap)
                wasFile = inside2 && sim::k::readFile(c.root + rel2, &before);
            r = c.fs->moveFile(sv(from), sv(to));
            okay = r == FSResult::OK;
            std::string got;
            if (inside && inside2 && okay && wasFile && rel != rel2 && !injected())
                SIM_CHECK(sim::k::readFile(c.root + (swap ? rel : rel2), &got) && got == before, "wrong-file", "moveFile(%s, %s) moved something else", from.c_str(), to.c_str());
            inside = inside && inside2;
            p = from + ", " + to;
        }
    }
    sim::log("%s(%s) -> %s", what.c_str(), p.c_str(), rname(r));
    sim::hit(inside ? "paths inside" : "paths outside");
    if (!inside) {
        SIM_CHECK(!okay, "escaped", "%s(%s) had an effect or delivered something although the path leads out of the root", what.c_str(), p.c_str());
        if (op != 0)
            SIM_CHECK(r != FSResult::OK && (c.fs->lastResult() == r || op == 5), "wrong-result", "%s(%s): result %s, lastResult() %s", what.c_str(), p.c_str(), rname(r), rname(c.fs->lastResult()));
    }
    {
        sim::Quiet q;
        sim::k::recordFs = false;
        for (auto& o : sim::k::fsOps) {
            std::string path = o.path;
            if (path[0] == '?' || path[0] == '!') { // could not be resolved: judge the text
                path = path.substr(1);
                if (path.empty() || path[0] != '/')
                    path = cwd + "/" + path;
                std::string n;
                if (!norm(path.substr(1), &n))
                    n = "(above /)";
                path = n;
            }
            SIM_CHECK(path == c.root || path.compare(0, c.root.size() + 1, c.root + "/") == 0, "escaped", "%s(%s) accessed %s (%s), which is not in %s", what.c_str(), p.c_str(), path.c_str(), o.op.c_str(), c.root.c_str());
        }
        sim::hit("file accesses checked", sim::k::fsOps.size());
    }
}

void c09() {
    // the secret is in plain sight next to the root
    sim::k::mkdirs("/w/root/a/b");
    sim::k::mkdirs("/w/root/sec");
    sim::k::mkdirs("/w/root/a/root");
    sim::k::mkdirs("/w/other/a");
    sim::k::mkdirs("/a/b");
    sim::k::writeFile("/f.txt", "top");
    sim::k::writeFile("/a/f.txt", "top a");
    sim::k::writeFile("/w/f.txt", "secret 1");
    sim::k::writeFile("/w/sec", "secret 2");
    sim::k::writeFile("/w/other/f.txt", "secret 3");
    sim::k::writeFile("/w/other/a/f.txt", "secret 4");
    sim::k::writeFile("/w/root/f.txt", "inside 1");
    sim::k::writeFile("/w/root/a/f.txt", "inside 2");
    sim::k::writeFile("/w/root/a/b/f.txt", "inside 3");
    sim::k::writeFile("/w/root/sec/f.txt", "inside 4");
    FileSystem* nat = FileSystem::native();
    std::string cwd = "/";
    std::string rootArg, root = "/w/root";
    switch (W.below(8)) {
        case 0:
        case 1:
            rootArg = "/w/root";
            break;
        case 2:
            rootArg = "/w/root/";
            break;
        case 3:
            rootArg = "w/root";
            break;
        case 4:
            rootArg = "/w/root/a/../../root";
            break;
        case 5:
            cwd = "/w/other/a";
            rootArg = "../../root";
            break;
        case 6:
            cwd = "/w/root";
            rootArg = ".";
            break;
        default:
            cwd = "/w/other";
            rootArg = "../root/./a";
            root = "/w/root/a";
    }
    if (chdir(cwd.c_str()))
        sim::discard("chdir");
    Owned<FileSystem> v1 = nat->createVirtual(sv(rootArg)), v2;
    Ctx c{root, v1.get(), true};
    if (W.below(4) == 3) { // within another one
        v2 = v1->createVirtual(root == "/w/root/a" ? "b" : "a/b/..");
        c.fs = v2.get();
        c.root = root == "/w/root/a" ? "/w/root/a/b" : "/w/root/a";
    }
    sim::faultRate[sim::FT_DTYPE_UNKNOWN] = W.below(2) ? 0.5 : 0;
    sim::faultRate[sim::FT_EINTR] = W.below(3) == 2 ? 0.1 : 0;
    if (W.below(3) == 2) {
        sim::faultRate[sim::FT_OPEN_ERR] = 0.1;
        sim::faultRate[sim::FT_META_ERR] = 0.1;
        sim::faultRate[sim::FT_STAT_ERR] = 0.1;
        sim::faultRate[sim::FT_READDIR_ERR] = 0.1;
    }
    auto all = snap();
    u32 nops = 1 + W.below(16);
    for (u32 i = 0; i < nops; i++)
        oneOp(c, cwd == "/" ? "" : cwd);
    auto now = snap();
    for (auto& e : all)
        if (e.first.compare(0, c.root.size() + 1, c.root + "/") != 0)
            SIM_CHECK(now.count(e.first) && now[e.first] == e.second, "escaped", "%s was changed", e.first.c_str());
    for (auto& e : now)
        if (e.first.compare(0, c.root.size() + 1, c.root + "/") != 0)
            SIM_CHECK(all.count(e.first), "escaped", "%s was created", e.first.c_str());
    SIM_CHECK(sim::k::numFds(sim::rootProc) == 3 && sim::k::numOpenDirs() == 0, "fd-leak", "descriptors still open: %s(%u directories)", sim::k::fdSummary(sim::rootProc).c_str(), sim::k::numOpenDirs());
}
SIM_PROP("C09", c09, "virtual file system containment");
} // namespace
