// C07: file system operations against a model, with failing system calls, in several threads.
#include "common.h"
#include <memory>
#include <algorithm>
#include <map>
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <ply-runtime/filesystem/FileSystem.h>
#include <ply-runtime/io/Pipe.h>
using namespace wl;

namespace {
typedef std::map<std::string, std::string> Model; // absolute path -> "d" or "f:contents"

std::string parentOf(const std::string& p) {
    return p.substr(0, p.rfind('/'));
}
const char* rname(FSResult r) {
    static const char* n[] = {"Unknown", "NotFound", "Locked", "AccessDenied", "OK", "AlreadyExists", "Unchanged"};
    return (u32) r < 7 ? n[(u32) r] : "?";
}

struct User {
    std::string root;
    Model m;
    FileSystem* nat = FileSystem::native();
    Owned<FileSystem> virt;
    bool locked(const std::string& p) { // a component on the way is a file
        for (std::string q = parentOf(p); q.size() > root.size(); q = parentOf(q)) {
            auto i = m.find(q);
            if (i != m.end() && i->second != "d")
                return true;
        }
        return false;
    }
    bool has(const std::string& p) { return p == root || m.count(p); }
    bool isDir(const std::string& p) { return p == root || (m.count(p) && m[p] == "d"); }
    bool isFile(const std::string& p) { return m.count(p) && m[p] != "d"; }
    std::string pickPath() {
        static const char* names[] = {"a", "b", "c.txt", "a b", ".x", "..y"};
        std::string p = root;
        u32 d = 1 + W.below(3);
        for (u32 i = 0; i < d; i++)
            p += std::string("/") + names[W.below(6)];
        if (m.size() && W.below(2)) {
            auto it = m.begin();
            std::advance(it, W.below((u32) m.size()));
            p = it->first;
        }
        return p;
    }
    Model actual() {
        Model a;
        for (auto& e : sim::k::tree(root))
            a[e.first[0] == '/' ? e.first : root + "/" + e.first] = e.second;
        return a;
    }
    void compare(const char* after) {
        sim::Quiet q;
        Model a = actual();
        if (a != m) {
            std::string d;
            for (auto& e : m)
                if (!a.count(e.first))
                    d += "\n missing: " + e.first;
                else if (a[e.first] != e.second)
                    d += "\n differs: " + e.first + " is " + sim::escape(a[e.first]) + ", expected " + sim::escape(e.second);
            for (auto& e : a)
                if (!m.count(e.first))
                    d += "\n unexpected: " + e.first;
            sim::violate("wrong-effect", "after %s:%s", after, d.c_str());
        }
    }
};

void drive(User& u, u32 nops, bool cwdOps) {
    std::string cwd = "/";
    for (u32 i = 0; i < nops; i++) {
        u32 op = W.below(cwdOps ? 15 : 13);
        std::string p = u.pickPath();
        bool v = W.chance(0.3);
        FileSystem* fs = v ? u.virt.get() : u.nat;
        auto arg = [&](const std::string& x) { return v ? (x.size() > u.root.size() ? x.substr(u.root.size() + 1) : std::string(".")) : x; };
        std::string a = arg(p);
        u32 ef = sim::errFaults();
        auto injected = [&] { return sim::errFaults() != ef; };
        FSResult marker = (FSResult) W.below(7);
        FileSystem::setLastResult(marker);
        FSResult r = FSResult::OK;
        bool returned = true; // the operation delivered r directly
        std::string what;
        auto expect = [&](FSResult want) {
            SIM_CHECK(r == want || injected(), "wrong-result", "%s: result %s, expected %s", what.c_str(), rname(r), rname(want));
        };
        auto expectFail = [&] {
            SIM_CHECK(r != FSResult::OK && r != FSResult::Unchanged, "wrong-result", "%s: result %s although it cannot have worked", what.c_str(), rname(r));
        };
        switch (op) {
            case 0:
            case 1: { // exists, isDir
                what = "exists(" + p + ")";
                ExistsResult e = fs->exists(sv(a));
                ExistsResult want = u.isDir(p) ? ExistsResult::Directory : u.isFile(p) ? ExistsResult::File : ExistsResult::NotFound;
                SIM_CHECK(e == want || injected(), "wrong-result", "%s = %d, expected %d", what.c_str(), (int) e, (int) want);
                SIM_CHECK(fs->isDir(sv(a)) == u.isDir(p) || injected(), "wrong-result", "isDir(%s) is wrong", p.c_str());
                SIM_CHECK(fs->lastResult() == marker, "last-result", "%s changed the last result code", what.c_str());
                continue;
            }
            case 2:
            case 3: {
                what = "makeDir(" + p + ")";
                r = fs->makeDir(sv(a));
                if (u.has(p))
                    expect(FSResult::AlreadyExists);
                else if (!u.isDir(parentOf(p)))
                    expectFail();
                else {
                    expect(FSResult::OK);
                    if (r == FSResult::OK)
                        u.m[p] = "d";
                }
                break;
            }
            case 4: {
                what = "makeDirs(" + p + ")";
                r = fs->makeDirs(sv(a));
                bool okay = r == FSResult::OK || r == FSResult::AlreadyExists;
                if (u.isFile(p) || u.locked(p)) {
                    if (!u.isFile(p) || !injected())
                        SIM_CHECK(!okay, "wrong-result", "%s: result %s although a file is in the way", what.c_str(), rname(r));
                    okay = false;
                } else {
                    SIM_CHECK(okay || injected(), "wrong-result", "%s: result %s", what.c_str(), rname(r));
                }
                if (okay || !u.locked(p)) {
                    for (std::string q = p; q.size() > u.root.size(); q = parentOf(q))
                        if (!u.has(q) && (okay || sim::k::isDir(q))) // (a failure may leave the upper part)
                            u.m[q] = "d";
                }
                break;
            }
            case 5: {
                std::string q = u.pickPath();
                if (u.isDir(p))
                    continue;
                what = "moveFile(" + p + ", " + q + ")";
                r = fs->moveFile(sv(a), sv(arg(q)));
                if (!u.isFile(p) || u.isDir(q) || !u.isDir(parentOf(q)))
                    expectFail();
                else {
                    expect(FSResult::OK);
                    if (r == FSResult::OK && p != q) {
                        u.m[q] = u.m[p];
                        u.m.erase(p);
                    }
                }
                break;
            }
            case 6: {
                what = "deleteFile(" + p + ")";
                r = fs->deleteFile(sv(a));
                if (!u.isFile(p))
                    expectFail();
                else {
                    expect(FSResult::OK);
                    if (r == FSResult::OK)
                        u.m.erase(p);
                }
                break;
            }
            case 7: {
                what = "getFileStatus(" + p + ")";
                FileStatus s = fs->getFileStatus(sv(a));
                r = s.result;
                if (u.isFile(p)) {
                    expect(FSResult::OK);
                    if (r == FSResult::OK) {
                        sim::Inode* n = sim::k::lookup(p);
                        SIM_CHECK(s.fileSize == u.m[p].size() - 2, "wrong-status", "%s: size %llu, expected %zu", what.c_str(), (unsigned long long) s.fileSize, u.m[p].size() - 2);
                        SIM_CHECK((u64) s.modificationTime == n->mtime / 1000000000, "wrong-status", "%s: modification time %f", what.c_str(), s.modificationTime);
                        SIM_CHECK((u64) s.accessTime == n->atime / 1000000000 && (u64) s.creationTime == n->ctime / 1000000000, "wrong-status", "%s: access or creation time", what.c_str());
                    }
                } else if (u.isDir(p))
                    expect(FSResult::OK);
                else if (!u.locked(p))
                    expect(FSResult::NotFound);
                else
                    expectFail();
                SIM_CHECK(r == FSResult::OK || s.fileSize == 0, "wrong-status", "%s failed but has a size", what.c_str());
                break;
            }
            case 8: {
                what = "openPipeForWrite(" + p + ")";
                std::string d = patternBytes(W.below(300), W.next());
                Owned<OutPipe> o = fs->openPipeForWrite(sv(a));
                r = fs->lastResult();
                SIM_CHECK((bool) o == (r == FSResult::OK), "wrong-result", "%s: pipe %d, result %s", what.c_str(), (bool) o, rname(r));
                if (u.isDir(p))
                    expectFail();
                else if (!u.isDir(parentOf(p))) {
                    if (u.locked(p))
                        expectFail();
                    else
                        expect(FSResult::NotFound);
                } else {
                    expect(FSResult::OK);
                    if (o) {
                        u32 ef2 = sim::errFaults();
                        bool ok = o->write(sv(d));
                        SIM_CHECK(ok || sim::errFaults() != ef2, "wrong-result", "write() failed");
                        if (ok)
                            u.m[p] = "f:" + d;
                        else {
                            std::string now;
                            sim::k::readFile(p, &now);
                            SIM_CHECK(d.compare(0, now.size(), now) == 0, "wrong-effect", "a failed write left something else in the file");
                            u.m[p] = "f:" + now;
                        }
                    }
                }
                break;
            }
            case 9: {
                u32 how = W.below(3);
                static const char* names[] = {"loadBinary(", "loadText(", "loadTextAutodetect("};
                what = names[how] + p + ")";
                String s = how == 0 ? fs->loadBinary(sv(a)) : how == 1 ? fs->loadText(sv(a), TextFormat::unixUTF8()) : fs->loadTextAutodetect(sv(a)).first;
                r = fs->lastResult();
                if (u.isFile(p)) {
                    expect(FSResult::OK);
                    std::string want = u.m[p];
                    if (how == 1)
                        want.erase(std::remove(want.begin(), want.end(), '\r'), want.end());
                    if (r == FSResult::OK && how < 2)
                        SIM_CHECK("f:" + str(s) == want, "wrong-contents", "%s returned other contents than the file has", what.c_str());
                } else if (u.isDir(p) || u.locked(p))
                    expectFail();
                else
                    expect(FSResult::NotFound);
                SIM_CHECK(r == FSResult::OK || s.isEmpty(), "wrong-contents", "%s failed (%s) but returned %u bytes", what.c_str(), rname(r), s.numBytes);
                break;
            }
            case 10: {
                what = "openStreamForRead(" + p + ")";
                Owned<InStream> s = fs->openStreamForRead(sv(a));
                r = fs->lastResult();
                SIM_CHECK((bool) s == (r == FSResult::OK), "wrong-result", "%s: stream %d, result %s", what.c_str(), (bool) s, rname(r));
                if (u.isFile(p)) {
                    expect(FSResult::OK);
                    if (s) {
                        u32 ef2 = sim::errFaults();
                        String c = s->readRemainingContents();
                        std::string want = u.m[p].substr(2);
                        SIM_CHECK(sv(want).startsWith(c) && (c.numBytes == want.size() || sim::errFaults() != ef2), "wrong-contents", "%s delivered other contents", what.c_str());
                    }
                } else if (!u.isDir(p)) {
                    if (u.locked(p))
                        expectFail();
                    else
                        expect(FSResult::NotFound);
                }
                break;
            }
            case 11:
            case 12: {
                if (W.below(2))
                    p = parentOf(p), a = arg(p);
                u32 flags = W.below(4);
                what = "listDir(" + p + ")";
                std::map<std::string, bool> got;
                bool brk = W.chance(0.15), broke = false;
                u32 before = sim::k::numOpenDirs();
                (void) before;
                {
                    Directory dir = fs->listDir(sv(a), flags);
                    r = fs->lastResult();
                    for (DirectoryEntry& e : dir) {
                        std::string n = str(e.name);
                        SIM_CHECK(fs->lastResult() == FSResult::OK || injected(), "last-result", "%s: result %s while entries are delivered", what.c_str(), rname(fs->lastResult()));
                        SIM_CHECK(n != "." && n != "..", "dot-entry", "%s lists \"%s\"", what.c_str(), n.c_str());
                        SIM_CHECK(!got.count(n), "duplicate-entry", "%s lists \"%s\" twice", what.c_str(), n.c_str());
                        std::string full = p + "/" + n;
                        SIM_CHECK(u.has(full), "phantom-entry", "%s lists \"%s\", which does not exist", what.c_str(), n.c_str());
                        SIM_CHECK(e.isDir == u.isDir(full) || injected(), "wrong-type", "%s says \"%s\" is %sa directory", what.c_str(), n.c_str(), e.isDir ? "" : "not ");
                        if ((flags & FileSystem::WithSizes) && u.isFile(full))
                            SIM_CHECK(e.fileSize == u.m[full].size() - 2 || injected(), "wrong-status", "%s: size %llu for %s, expected %zu", what.c_str(), (unsigned long long) e.fileSize, n.c_str(), u.m[full].size() - 2);
                        if (flags & FileSystem::WithTimes)
                            SIM_CHECK((u64) e.modificationTime == sim::k::lookup(full)->mtime / 1000000000 || injected(), "wrong-status", "%s: modification time of %s", what.c_str(), n.c_str());
                        got[n] = e.isDir;
                        if (brk && W.below(2)) {
                            broke = true;
                            break;
                        }
                    }
                    if (!broke)
                        r = fs->lastResult();
                }
                if (u.isDir(p)) {
                    if (!broke) {
                        expect(FSResult::OK);
                        if (r == FSResult::OK && !injected()) {
                            u32 want = 0;
                            for (auto& e : u.m)
                                want += parentOf(e.first) == p;
                            SIM_CHECK(got.size() == want, "missing-entry", "%s delivered %zu of %u entries and result OK", what.c_str(), got.size(), want);
                        }
                    }
                } else {
                    SIM_CHECK(got.empty(), "phantom-entry", "%s delivered entries", what.c_str());
                    if (u.isFile(p) || u.locked(p))
                        expectFail();
                    else
                        expect(FSResult::NotFound);
                }
                r = fs->lastResult();
                break;
            }
            case 13: {
                what = "setWorkingDirectory(" + p + ")";
                r = u.nat->setWorkingDirectory(sv(p));
                fs = u.nat;
                if (u.isDir(p)) {
                    expect(FSResult::OK);
                    if (r == FSResult::OK)
                        cwd = p;
                } else if (u.isFile(p) || u.locked(p))
                    expectFail();
                else
                    expect(FSResult::NotFound);
                break;
            }
            case 14: {
                what = "getWorkingDirectory()";
                fs = u.nat;
                if (cwd != "/" && !u.isDir(cwd))
                    continue;
                String c = u.nat->getWorkingDirectory();
                r = u.nat->lastResult();
                expect(FSResult::OK);
                if (r == FSResult::OK)
                    SIM_CHECK(str(c) == cwd, "wrong-result", "getWorkingDirectory() = %s, expected %s", str(c).c_str(), cwd.c_str());
                break;
            }
        }
        (void) returned;
        if (injected()) {
            sim::hit("operations with an injected error");
            if (op == 2 || op == 3 || op == 5 || op == 6 || op == 7 || op == 13)
                SIM_CHECK(r != FSResult::OK, "error-hidden", "%s returned OK although the system call failed", what.c_str());
        } else {
            sim::hit(r == FSResult::OK ? "operations that returned OK" : "operations that were refused");
        }
        sim::log("%s -> %s", what.c_str(), rname(r));
        SIM_CHECK(fs->lastResult() == r, "last-result", "%s returned %s, but lastResult() is %s", what.c_str(), rname(r), rname(fs->lastResult()));
        u.compare(what.c_str());
        if (W.below(2)) { // what other threads do does not show up in this thread's result code
            sim::yield();
            SIM_CHECK(fs->lastResult() == r, "last-result", "the result code of this thread changed from %s to %s without an operation by this thread", rname(r), rname(fs->lastResult()));
        }
    }
}

void permissionCase() {
    // a file and a directory without permissions
    FileSystem* fs = FileSystem::native();
    sim::k::mkdirs("/p/ro");
    sim::k::mkdirs("/p/none");
    sim::k::writeFile("/p/f", "secret");
    sim::k::writeFile("/p/none/x", "1");
    sim::k::lookup("/p/f")->mode = 0;
    sim::k::lookup("/p/ro")->mode = 0555;
    sim::k::lookup("/p/none")->mode = 0;
    sim::faultFired(sim::FT_OPEN_ERR);
    auto is = [&](FSResult r, FSResult want, const char* what) {
        SIM_CHECK(r == want && fs->lastResult() == want, "wrong-result", "%s: result %s (lastResult() %s), expected %s", what, rname(r), rname(fs->lastResult()), rname(want));
    };
    switch (W.below(6)) {
        case 0: {
            String s = fs->loadBinary("/p/f");
            is(fs->lastResult(), FSResult::AccessDenied, "loadBinary() without permission");
            SIM_CHECK(s.isEmpty(), "wrong-contents", "contents in spite of missing permission");
            break;
        }
        case 1:
            SIM_CHECK(!fs->openPipeForRead("/p/f"), "wrong-result", "opened without permission");
            is(fs->lastResult(), FSResult::AccessDenied, "openPipeForRead() without permission");
            break;
        case 2:
            SIM_CHECK(!fs->openPipeForWrite(W.below(2) ? "/p/f" : "/p/ro/new"), "wrong-result", "opened without permission");
            is(fs->lastResult(), FSResult::AccessDenied, "openPipeForWrite() without permission");
            break;
        case 3: {
            FSResult r = W.below(2) ? fs->makeDir("/p/ro/new") : fs->makeDirs("/p/ro/new/deep");
            is(r, FSResult::AccessDenied, "makeDir()/makeDirs() without permission");
            break;
        }
        case 4: {
            u32 n = 0;
            {
                Directory d = fs->listDir("/p/none", W.below(4));
                for (DirectoryEntry& e : d) {
                    (void) e;
                    n++;
                }
            }
            SIM_CHECK(n == 0, "wrong-result", "listed a directory without permission");
            is(fs->lastResult(), FSResult::AccessDenied, "listDir() without permission");
            break;
        }
        default: {
            FSResult r = fs->deleteFile("/p/ro/zz");
            SIM_CHECK(r != FSResult::OK, "wrong-result", "deleteFile() of nothing returned OK");
        }
    }
}

void c07() {
    if (W.below(12) == 11)
        return permissionCase();
    sim::k::shuffleDirs = W.below(2);
    u32 nThreads = W.below(3) == 2 ? 2 + W.below(2) : 1;
    if (nThreads > 1)
        sim::randomSchedule(false);
    std::vector<User> us(nThreads);
    for (u32 i = 0; i < nThreads; i++) {
        us[i].root = sim::fmt("/t%u", i);
        sim::k::mkdirs(us[i].root);
        us[i].virt = FileSystem::native()->createVirtual(sv(us[i].root));
        u32 pre = W.below(6);
        for (u32 k = 0; k < pre; k++) {
            std::string p = us[i].pickPath();
            if (us[i].has(p) || us[i].locked(p))
                continue;
            for (std::string q = parentOf(p); q != us[i].root; q = parentOf(q))
                us[i].m[q] = "d";
            if (W.below(2)) {
                std::string d = patternBytes(W.below(5000), k);
                us[i].m[p] = "f:" + d;
                sim::k::mkdirs(parentOf(p));
                sim::k::writeFile(p, d);
            } else {
                us[i].m[p] = "d";
                sim::k::mkdirs(p);
            }
        }
    }
    sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0.1 : 0;
    sim::faultRate[sim::FT_SHORT_READ] = W.below(2) ? 0.3 : 0;
    sim::faultRate[sim::FT_SHORT_WRITE] = W.below(2) ? 0.3 : 0;
    sim::faultRate[sim::FT_DTYPE_UNKNOWN] = W.below(2) ? 0.5 : 0;
    if (W.below(2)) {
        sim::faultRate[sim::FT_OPEN_ERR] = 0.06;
        sim::faultRate[sim::FT_META_ERR] = 0.06;
        sim::faultRate[sim::FT_STAT_ERR] = 0.06;
        sim::faultRate[sim::FT_READDIR_ERR] = 0.06;
        sim::faultRate[sim::FT_READ_ERR] = 0.04;
        sim::faultRate[sim::FT_WRITE_ERR] = 0.04;
        sim::faultRate[sim::FT_FD_LIMIT] = 0.03;
    }
    u32 nops = 2 + W.below(25);
    if (nThreads == 1) {
        drive(us[0], nops, true);
    } else {
        std::vector<u32> f;
        for (u32 i = 0; i < nThreads; i++)
            f.push_back(sim::spawn("user", [&, i] { drive(us[i], nops / 2 + 1, false); }));
        for (u32 x : f)
            sim::joinFiber(x);
    }
    SIM_CHECK(sim::k::numFds(sim::rootProc) == 3 && sim::k::numOpenDirs() == 0, "fd-leak", "descriptors still open: %s(%u directories)", sim::k::fdSummary(sim::rootProc).c_str(), sim::k::numOpenDirs());
}
SIM_PROP("C07", c07, "file system operations against a model");
} // namespace
