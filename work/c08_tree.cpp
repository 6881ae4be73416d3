// C08: directory trees: removeDirTree(), walk(), listDir() and makeDirs() with symbolic links,
// failing system calls, file systems without d_type, and other threads working on the same tree.
#include "common.h"
#include <memory>
#include <algorithm>
#include <map>
#include <set>
#include <ply-runtime/filesystem/FileSystem.h>
#include <ply-runtime/io/Pipe.h>
using namespace wl;

namespace {
typedef std::map<std::string, std::string> Snap; // absolute path -> kind and contents

Snap snap(const std::string& root) {
    sim::Quiet q;
    Snap a;
    for (auto& e : sim::k::tree(root))
        a[e.first[0] == '/' ? e.first : root + "/" + e.first] = e.second;
    return a;
}
std::string parentOf(const std::string& p) {
    return p.substr(0, p.rfind('/'));
}
std::string baseOf(const std::string& p) {
    return p.substr(p.rfind('/') + 1);
}
bool under(const std::string& p, const std::string& d) {
    return p.size() > d.size() && p.compare(0, d.size(), d) == 0 && p[d.size()] == '/';
}
std::string diff(const Snap& want, const Snap& got) {
    std::string d;
    for (auto& e : want)
        if (!got.count(e.first))
            d += "\n missing: " + e.first;
        else if (got.at(e.first) != e.second)
            d += "\n differs: " + e.first;
    for (auto& e : got)
        if (!want.count(e.first))
            d += "\n unexpected: " + e.first;
    return d;
}

const char* const names[] = {"a", "b", "c", "d d", ".h", "..x", "e.txt"};
std::vector<std::string> dirs; // of the generated tree

void genTree(const std::string& root, u32 maxNodes) {
    dirs.assign(1, root);
    sim::k::mkdirs(root);
    u32 n = W.below(maxNodes);
    for (u32 i = 0; i < n; i++) {
        std::string d = dirs[W.below((u32) dirs.size())];
        std::string p = d + "/" + names[W.below(7)];
        if (W.below(4) == 3)
            p += sim::fmt("%u", i);
        if (sim::k::lookup(p, false))
            continue;
        switch (W.below(8)) {
            case 0:
            case 1:
            case 2:
                sim::k::mkdirs(p);
                dirs.push_back(p);
                break;
            case 3:
            case 4:
            case 5:
                sim::k::writeFile(p, patternBytes(W.below(300), i));
                break;
            case 6: { // a link leading out of the tree
                static const char* const t[] = {"/out", "/out/dir", "/out/file", "../../out/dir", "/keep/sub", "/"};
                sim::k::symlink(t[W.below(6)], p);
                break;
            }
            default: { // dangling, looping, or inside the tree
                static const char* const t[] = {"nowhere", "/nowhere/x", ".", "..", "a"};
                sim::k::symlink(t[W.below(5)], p);
            }
        }
    }
}

const char* rname(FSResult r) {
    static const char* n[] = {"Unknown", "NotFound", "Locked", "AccessDenied", "OK", "AlreadyExists", "Unchanged"};
    return (u32) r < 7 ? n[(u32) r] : "?";
}

struct Fs {
    FileSystem* fs;
    std::string prefix; // of the virtual file system's root
    std::string arg(const std::string& p) const {
        if (prefix.empty())
            return p;
        return p.size() > prefix.size() ? p.substr(prefix.size() + 1) : std::string(".");
    }
};

void doWalk(const Fs& f, const std::string& top, bool mayChange, const std::set<std::string>* always, const std::set<std::string>* ever) {
    u32 flags = W.below(4);
    Snap s = snap(top);
    bool topIsDir = sim::k::isDir(top);
    std::set<std::string> expectDirs; // still to be visited
    if (topIsDir)
        expectDirs.insert(top);
    u32 ef0 = sim::errFaults();
    u32 stop = W.below(4) == 3 ? 1 + W.below(4) : 1000000;
    bool anyBad = false;
    u32 n = 0;
    std::string topArg = f.arg(top);
    {
        u32 ef = sim::errFaults();
        auto walk = f.fs->walk(sv(topArg), flags);
        if (!topIsDir && !mayChange && sim::errFaults() == ef) {
            FSResult r = f.fs->lastResult();
            SIM_CHECK(r != FSResult::OK, "wrong-result", "walk(%s): OK although there is no such directory", top.c_str());
        }
        for (WalkTriple& t : walk) {
            FSResult r = f.fs->lastResult();
            bool faulted = sim::errFaults() != ef;
            std::string dp = str(t.dirPath);
            // back to a native path
            std::string dir;
            if (dp == topArg)
                dir = top;
            else if (topArg == ".")
                dir = top + "/" + (dp.compare(0, 2, "./") == 0 ? dp.substr(2) : dp);
            else
                dir = top + dp.substr(std::min(dp.size(), topArg.size()));
            sim::log("walk: %s (%u dirs, %u files) %s", dir.c_str(), t.dirNames.numItems(), t.files.numItems(), rname(r));
            std::vector<std::string> chosen;
            {
                sim::Quiet q;
                if (!mayChange || !always) {
                    SIM_CHECK(expectDirs.count(dir) || !topIsDir, "walk-wrong", "walk(%s) visited %s, which is not expected (again)", top.c_str(), dir.c_str());
                }
                expectDirs.erase(dir);
            }
            std::set<std::string> gotD, gotF;
            for (u32 i = 0; i < t.dirNames.numItems(); i++)
                SIM_CHECK(gotD.insert(str(t.dirNames[i])).second, "walk-wrong", "duplicate directory %s in %s", str(t.dirNames[i]).c_str(), dir.c_str());
            for (u32 i = 0; i < t.files.numItems(); i++) {
                auto& fi = t.files[i];
                std::string nm = str(fi.name);
                SIM_CHECK(gotF.insert(nm).second && !gotD.count(nm), "walk-wrong", "duplicate entry %s in %s", nm.c_str(), dir.c_str());
                auto it = s.find(dir + "/" + nm);
                if (!mayChange && !faulted && it != s.end() && it->second[0] == 'f' && (flags & FileSystem::WithSizes))
                    SIM_CHECK(fi.fileSize == it->second.size() - 2, "walk-wrong", "size of %s/%s: %llu, expected %zu", dir.c_str(), nm.c_str(), (unsigned long long) fi.fileSize, it->second.size() - 2);
            }
            if (!mayChange) {
                if (topIsDir)
                    for (auto& e : s) {
                        if (parentOf(e.first) != dir)
                            continue;
                        std::string nm = baseOf(e.first);
                        bool isDir = e.second == "d";
                        if (isDir ? gotD.erase(nm) : gotF.erase(nm))
                            continue;
                        bool wrongKind = isDir ? gotF.count(nm) : gotD.count(nm);
                        bool dangling = e.second[0] == 'l' && !sim::k::lookup(e.first);
                        SIM_CHECK(!wrongKind || (faulted && isDir), "walk-wrong", "%s was delivered as a %s", e.first.c_str(), isDir ? "file" : "directory");
                        if (wrongKind) {
                            gotF.erase(nm);
                            anyBad = true;
                            continue;
                        }
                        if (dangling && flags)
                            continue;
                        if (r == FSResult::OK && !faulted)
                            sim::violate("walk-wrong", "walk(%s) did not deliver %s", top.c_str(), e.first.c_str());
                        SIM_CHECK(faulted, "walk-wrong", "walk(%s): incomplete listing of %s", top.c_str(), dir.c_str());
                        SIM_CHECK(r != FSResult::OK || isDir || flags, "error-hidden", "walk(%s): %s is missing from an incomplete listing with result OK", top.c_str(), e.first.c_str());
                        anyBad = true;
                    }
                SIM_CHECK(gotD.empty() && gotF.empty(), "walk-wrong", "walk(%s) delivered nonexistent %s/%s", top.c_str(), dir.c_str(), (gotD.empty() ? *gotF.begin() : *gotD.begin()).c_str());
            } else if (always) {
                sim::Quiet q;
                for (auto& e : *always)
                    if (parentOf(e) == dir && !faulted) {
                        bool d = gotD.count(baseOf(e)), fl = gotF.count(baseOf(e));
                        SIM_CHECK(d || fl, "walk-wrong", "walk(%s) did not deliver %s, which existed all the time", top.c_str(), e.c_str());
                    }
                for (auto& x : gotD)
                    SIM_CHECK(ever->count(dir + "/" + x), "walk-wrong", "walk(%s) delivered %s/%s, which never existed", top.c_str(), dir.c_str(), x.c_str());
                for (auto& x : gotF)
                    SIM_CHECK(ever->count(dir + "/" + x), "walk-wrong", "walk(%s) delivered %s/%s, which never existed", top.c_str(), dir.c_str(), x.c_str());
            }
            // prune and reorder
            Array<String> keep;
            for (u32 i = 0; i < t.dirNames.numItems(); i++)
                if (W.below(5) != 4 || always)
                    keep.append(t.dirNames[i]);
            if (keep.numItems() > 1 && W.below(2))
                std::swap(keep[0], keep[keep.numItems() - 1]);
            t.dirNames = std::move(keep);
            {
                sim::Quiet q;
                for (u32 i = 0; i < t.dirNames.numItems(); i++)
                    expectDirs.insert(dir + "/" + str(t.dirNames[i]));
            }
            if (++n >= stop)
                break;
            ef = sim::errFaults();
        }
    }
    sim::hit("directories walked", n);
    if (n < stop && !mayChange)
        SIM_CHECK(expectDirs.empty(), "walk-wrong", "walk(%s) ended without visiting %s", top.c_str(), expectDirs.begin()->c_str());
    (void) ef0;
    (void) anyBad;
}

void setFaults() {
    sim::faultRate[sim::FT_DTYPE_UNKNOWN] = W.below(2) ? 0.5 : 0;
    sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0.1 : 0;
    if (W.below(2)) {
        sim::faultRate[sim::FT_OPEN_ERR] = 0.05;
        sim::faultRate[sim::FT_META_ERR] = 0.05;
        sim::faultRate[sim::FT_STAT_ERR] = 0.05;
        sim::faultRate[sim::FT_READDIR_ERR] = 0.05;
        sim::faultRate[sim::FT_FD_LIMIT] = 0.03;
    }
}

void sequential() {
    genTree("/w/t", 30);
    std::vector<std::string> ds = dirs;
    FileSystem* nat = FileSystem::native();
    Owned<FileSystem> virt = nat->createVirtual("/w/t");
    setFaults();
    u32 nops = 1 + W.below(5);
    for (u32 i = 0; i < nops; i++) {
        bool v = W.below(4) == 3 && sim::k::isDir("/w/t");
        Fs f{v ? virt.get() : nat, v ? "/w/t" : ""};
        std::string d = ds[W.below((u32) ds.size())];
        if (i == 0 && W.below(2))
            d = "/w/t";
        u64 heap0 = sim::heapLive();
        switch (W.below(5)) {
            case 0:
            case 1:
                doWalk(f, d, false, nullptr, nullptr);
                break;
            case 2:
            case 3: {
                if (v && d == "/w/t")
                    break;
                Snap all = snap("/");
                bool isDir = sim::k::isDir(d);
                u32 ef = sim::errFaults();
                FSResult r = f.fs->removeDirTree(sv(f.arg(d)));
                bool faulted = ef != sim::errFaults();
                sim::log("removeDirTree(%s) = %s", d.c_str(), rname(r));
                SIM_CHECK(f.fs->lastResult() == r, "last-result", "removeDirTree() returned %s, lastResult() is %s", rname(r), rname(f.fs->lastResult()));
                Snap now = snap("/");
                for (auto& e : all)
                    if (e.first != d && !under(e.first, d))
                        SIM_CHECK(now.count(e.first) && now[e.first] == e.second, "outside-touched", "removeDirTree(%s) changed %s", d.c_str(), e.first.c_str());
                for (auto& e : now)
                    SIM_CHECK(all.count(e.first), "outside-touched", "removeDirTree(%s) created %s", d.c_str(), e.first.c_str());
                if (r == FSResult::OK)
                    SIM_CHECK(!sim::k::lookup(d, false), "not-removed", "removeDirTree(%s) = OK, but it still exists", d.c_str());
                if (isDir)
                    SIM_CHECK(r == FSResult::OK || faulted, "wrong-result", "removeDirTree(%s) failed although no system call did", d.c_str());
                else
                    SIM_CHECK(r != FSResult::OK, "wrong-result", "removeDirTree(%s) = OK, but there was no such directory", d.c_str());
                if (isDir && r != FSResult::OK && W.below(2)) { // once the errors stop, trying again works
                    double save[sim::FT_COUNT];
                    memcpy(save, sim::faultRate, sizeof(save));
                    sim::noFaults();
                    SIM_CHECK(sim::k::isDir(d), "not-removed", "removeDirTree(%s) failed after removing it", d.c_str());
                    r = f.fs->removeDirTree(sv(f.arg(d)));
                    SIM_CHECK(r == FSResult::OK && !sim::k::lookup(d, false), "not-removed", "removeDirTree(%s) does not work when tried again: %s", d.c_str(), rname(r));
                    memcpy(sim::faultRate, save, sizeof(save));
                    sim::hit("removals repeated after a failure");
                }
                break;
            }
            default: {
                std::string p = d;
                u32 k = 1 + W.below(4);
                for (u32 j = 0; j < k; j++)
                    p += std::string("/") + names[W.below(7)];
                // what is in the way?
                std::string q = p;
                bool blocked = false, links = false, existed = sim::k::isDir(p);
                for (; q != "/w"; q = parentOf(q)) {
                    Snap::iterator it;
                    sim::Inode* ino = sim::k::lookup(q, false);
                    if (ino && ino->type == sim::Inode::Link)
                        links = true;
                    if (ino && ino->type == sim::Inode::File)
                        blocked = true;
                }
                if (links)
                    break;
                Snap all = snap("/");
                u32 ef = sim::errFaults();
                std::string a = f.arg(p);
                if (!v && W.below(3) == 2)
                    a = a.substr(1); // relative to the working directory, which is /
                FSResult r = f.fs->makeDirs(sv(a));
                bool faulted = ef != sim::errFaults();
                sim::log("makeDirs(%s) = %s", p.c_str(), rname(r));
                SIM_CHECK(f.fs->lastResult() == r, "last-result", "makeDirs() returned %s, lastResult() is %s", rname(r), rname(f.fs->lastResult()));
                bool okay = r == FSResult::OK || r == FSResult::AlreadyExists;
                if (okay && !faulted)
                    SIM_CHECK(sim::k::isDir(p), "not-created", "makeDirs(%s) = %s, but it is not there", p.c_str(), rname(r));
                if (blocked)
                    SIM_CHECK(!okay || faulted, "wrong-result", "makeDirs(%s) = %s although a file is in the way", p.c_str(), rname(r));
                else
                    SIM_CHECK(faulted || (existed ? r == FSResult::AlreadyExists : r == FSResult::OK), "wrong-result", "makeDirs(%s) = %s although no system call failed", p.c_str(), rname(r));
                Snap now = snap("/");
                for (auto& e : all)
                    SIM_CHECK(now.count(e.first) && now[e.first] == e.second, "outside-touched", "makeDirs(%s) changed %s", p.c_str(), e.first.c_str());
                for (auto& e : now)
                    SIM_CHECK(all.count(e.first) || e.first == p || under(p, e.first), "outside-touched", "makeDirs(%s) created %s", p.c_str(), e.first.c_str());
            }
        }
        SIM_CHECK(sim::k::numFds(sim::rootProc) == 3 && sim::k::numOpenDirs() == 0, "fd-leak", "descriptors still open: %s(%u directories)", sim::k::fdSummary(sim::rootProc).c_str(), sim::k::numOpenDirs());
        (void) heap0;
    }
}

// Nothing is left behind: neither memory nor descriptors, even if the iteration is abandoned.
void leaks() {
    genTree("/w/t", 12);
    FileSystem* nat = FileSystem::native();
    setFaults();
    nat->exists("/w/t");
    FileSystem::setLastResult(FSResult::OK);
    u32 flags = W.below(4), stop = W.below(8), n = 0;
    u32 what = W.below(3);
    std::string d = W.below(4) == 3 ? "/w/none" : dirs[W.below((u32) dirs.size())];
    StringView dv = sv(d);
    u64 h0 = sim::heapLive();
    if (what == 0) {
        for (DirectoryEntry& e : nat->listDir(dv, flags)) {
            (void) e;
            if (++n > stop)
                break;
        }
    } else if (what == 1) {
        for (WalkTriple& t : nat->walk(dv, flags)) {
            (void) t;
            if (++n > stop)
                break;
        }
    } else {
        nat->makeDirs("/w/t/q/r/s");
        nat->removeDirTree(dv);
    }
    u64 h1 = sim::heapLive();
    SIM_CHECK(h1 == h0, "memory-leak", "%s of %s left %lld memory blocks behind", what == 0 ? "listDir()" : what == 1 ? "walk()" : "removeDirTree()", d.c_str(), (long long) (h1 - h0));
    SIM_CHECK(sim::k::numFds(sim::rootProc) == 3 && sim::k::numOpenDirs() == 0, "fd-leak", "descriptors still open: %s(%u directories)", sim::k::fdSummary(sim::rootProc).c_str(), sim::k::numOpenDirs());
}

void concurrent() {
    sim::randomSchedule(false);
    FileSystem* fs = FileSystem::native();
    sim::faultRate[sim::FT_DTYPE_UNKNOWN] = W.below(2) ? 0.5 : 0;
    u32 kind = W.below(4);
    std::vector<u32> fib;
    u32 nt = 2 + W.below(3);
    if (kind == 0) { // creating overlapping directories
        std::vector<std::string> made;
        for (u32 t = 0; t < nt; t++) {
            std::string p = "/w/m";
            u32 k = 1 + W.below(4);
            for (u32 j = 0; j < k; j++)
                p += std::string("/") + names[W.below(2)];
            made.push_back(p);
        }
        for (u32 t = 0; t < nt; t++)
            fib.push_back(sim::spawn("mk", [&, t] {
                FSResult r = fs->makeDirs(sv(made[t]));
                SIM_CHECK(r == FSResult::OK || r == FSResult::AlreadyExists, "wrong-result", "makeDirs(%s) = %s while others create directories, too", made[t].c_str(), rname(r));
                SIM_CHECK(r == fs->lastResult(), "last-result", "last result differs");
                SIM_CHECK(sim::k::isDir(made[t]), "not-created", "makeDirs(%s) = %s, but it is not there", made[t].c_str(), rname(r));
            }));
        for (u32 f : fib)
            sim::joinFiber(f);
    } else if (kind == 1) { // walking while others create and delete files
        genTree("/w/t", 15);
        std::set<std::string> always, ever;
        for (auto& e : snap("/w/t"))
            if (e.second[0] != 'l') {
                always.insert(e.first);
                ever.insert(e.first);
            } else
                ever.insert(e.first);
        std::vector<std::string> ds = dirs;
        std::vector<std::vector<std::string>> targets(nt);
        for (u32 t = 0; t < nt; t++)
            for (u32 i = 0; i < 4; i++) {
                std::string p = ds[W.below((u32) ds.size())] + sim::fmt("/n%u_%u", t, i);
                targets[t].push_back(p);
                ever.insert(p);
            }
        for (u32 t = 0; t < nt; t++)
            fib.push_back(sim::spawn("w", [&, t] {
                if (t == 0)
                    return doWalk(Fs{fs, ""}, "/w/t", true, &always, &ever);
                for (u32 i = 0; i < 4; i++) {
                    auto& p = targets[t][i];
                    if (i & 1) {
                        SIM_CHECK(fs->makeDir(sv(p)) == FSResult::OK, "wrong-result", "makeDir(%s) failed", p.c_str());
                        SIM_CHECK(fs->removeDirTree(sv(p)) == FSResult::OK, "wrong-result", "removeDirTree(%s) failed", p.c_str());
                    } else {
                        {
                            auto o = fs->openPipeForWrite(sv(p));
                            SIM_CHECK(!!o, "wrong-result", "cannot create %s", p.c_str());
                        }
                        SIM_CHECK(fs->deleteFile(sv(p)) == FSResult::OK, "wrong-result", "deleteFile(%s) failed", p.c_str());
                    }
                }
            }));
        for (u32 f : fib)
            sim::joinFiber(f);
    } else { // removing: the same tree twice, or sibling trees, while another tree is being filled
        genTree("/w/t", 15);
        std::vector<std::string> ds = dirs;
        std::string d1 = ds[W.below((u32) ds.size())], d2 = kind == 2 ? d1 : ds[W.below((u32) ds.size())];
        Snap all = snap("/");
        u32 oks = 0;
        auto rem = [&](const std::string& d) {
            FSResult r = fs->removeDirTree(sv(d));
            SIM_CHECK(r == fs->lastResult(), "last-result", "last result differs");
            if (r == FSResult::OK) {
                oks++;
                SIM_CHECK(!sim::k::lookup(d, false), "not-removed", "removeDirTree(%s) = OK, but it still exists", d.c_str());
            } else {
                // only the competing removal can be the reason
                SIM_CHECK(d1 == d2 || under(d1, d2) || under(d2, d1), "wrong-result", "removeDirTree(%s) = %s although nothing else works on it", d.c_str(), rname(r));
            }
        };
        u32 a = sim::spawn("r1", [&] { rem(d1); });
        u32 b = sim::spawn("r2", [&] { rem(d2); });
        u32 c = sim::spawn("fill", [&] {
            for (u32 i = 0; i < 3; i++)
                SIM_CHECK(fs->makeDirs(sv(sim::fmt("/w/u/%u/x", i))) == FSResult::OK, "wrong-result", "makeDirs() in an unrelated tree failed");
        });
        sim::joinFiber(a);
        sim::joinFiber(b);
        sim::joinFiber(c);
        Snap now = snap("/");
        for (auto& e : all)
            if (e.first != d1 && !under(e.first, d1) && e.first != d2 && !under(e.first, d2))
                SIM_CHECK(now.count(e.first) && now[e.first] == e.second, "outside-touched", "removing %s and %s changed %s", d1.c_str(), d2.c_str(), e.first.c_str());
        for (u32 i = 0; i < 3; i++)
            SIM_CHECK(sim::k::isDir(sim::fmt("/w/u/%u/x", i)), "not-created", "directory missing in an unrelated tree");
        for (auto& d : {d1, d2})
            if (sim::k::isDir(d)) {
                FSResult r = fs->removeDirTree(sv(d));
                SIM_CHECK(r == FSResult::OK && !sim::k::lookup(d, false), "not-removed", "removeDirTree(%s) does not work when tried again: %s", d.c_str(), rname(r));
            }
    }
    SIM_CHECK(sim::k::numFds(sim::rootProc) == 3 && sim::k::numOpenDirs() == 0, "fd-leak", "descriptors still open: %s(%u directories)", sim::k::fdSummary(sim::rootProc).c_str(), sim::k::numOpenDirs());
}

void c08() {
    sim::k::shuffleDirs = W.below(2);
    sim::k::mkdirs("/out/dir/deep");
    sim::k::writeFile("/out/file", "outside");
    sim::k::writeFile("/out/dir/f1", "outside 1");
    sim::k::writeFile("/out/dir/deep/f2", "outside 2");
    sim::k::mkdirs("/keep/sub");
    sim::k::writeFile("/keep/sub/k", "kept");
    sim::k::mkdirs("/w");
    u32 kind = W.below(7);
    if (kind >= 5)
        concurrent();
    else if (kind == 4)
        leaks();
    else
        sequential();
    {
        sim::Quiet q;
        std::string s;
        SIM_CHECK(sim::k::readFile("/out/dir/deep/f2", &s) && s == "outside 2" && sim::k::readFile("/out/file", &s) && s == "outside" && sim::k::readFile("/keep/sub/k", &s) && s == "kept",
                  "outside-touched", "files outside of the tree were changed");
    }
}
SIM_PROP("C08", c08, "directory trees");
} // namespace
