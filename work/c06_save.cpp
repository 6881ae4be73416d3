// C06: makeDirsAndSave*IfDifferent replaces a file as a whole or not at all: at every instant, after
// every crash and every power loss, the file holds one complete version; results tell the truth.
#include "common.h"
#include <memory>
#include <algorithm>
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <ply-runtime/filesystem/FileSystem.h>
using namespace wl;

namespace {
struct Target {
    std::string path;    // absolute
    std::string arg;     // what is passed to the function
    bool virt = false;
    std::set<std::string> allowed; // complete versions that may be seen
    bool mayBeAbsent = true;
    std::string last;    // contents after the last completed save (single writer)
    bool exists = false;
};

std::string version(u32 salt) {
    u32 n;
    switch (W.below(6)) {
        case 0:
            n = W.below(3);
            break;
        case 1:
            n = 4000 + W.below(400);
            break;
        case 2:
            n = W.below(20000);
            break;
        default:
            n = 1 + W.below(300);
    }
    std::string s = patternBytes(n, salt);
    for (char& c : s) // text without control characters, so that the text variant applies too
        c = (char) ('a' + (u8) c % 26);
    return s;
}

void observe(const std::vector<Target>& ts, const char* when) {
    for (const Target& t : ts) {
        std::string now;
        bool there = sim::k::readFile(t.path, &now);
        if (!there) {
            if (!t.mayBeAbsent)
                sim::violate("file-vanished", "%s: %s does not exist", when, t.path.c_str());
        } else if (!t.allowed.count(now)) {
            sim::violate("partial-contents", "%s: %s holds %zu bytes that are not any complete version: %s", when, t.path.c_str(), now.size(), sim::escape(now).c_str());
        }
    }
}

void c06() {
    u32 nt = 1 + W.below(3);
    std::vector<Target> ts(nt);
    static const char* dirs[] = {"/w", "/w/a", "/w/a/b", "/w/x y/z"};
    sim::k::mkdirs("/w");
    for (u32 i = 0; i < nt; i++) {
        Target& t = ts[i];
        std::string d = dirs[W.below(4)];
        std::string leaf = sim::fmt(W.below(4) ? "f%u.txt" : "g%u", i);
        t.path = d + "/" + leaf;
        switch (W.below(3)) {
            case 0:
                t.arg = t.path;
                break;
            case 1:
                t.arg = t.path.substr(3); // relative to the working directory /w
                break;
            default:
                t.virt = true;
                t.arg = t.path.substr(3);
        }
        if (W.below(2)) {
            std::string v = version(i * 100);
            sim::k::mkdirs(d);
            sim::k::writeFile(t.path, v);
            t.allowed.insert(v);
            t.mayBeAbsent = false;
            t.last = v;
            t.exists = true;
        }
    }
    sim::k::sync();
    u32 mode = W.below(6); // 0,1 faults; 2 kill; 3 power loss; 4 concurrent threads; 5 concurrent processes
    if (W.below(2))
        sim::faultRate[sim::FT_EINTR] = 0.1;
    if (W.below(2))
        sim::faultRate[sim::FT_SHORT_WRITE] = 0.4;
    if (W.below(2))
        sim::faultRate[sim::FT_SHORT_READ] = 0.4;
    if (mode <= 1) {
        if (W.below(2))
            sim::faultRate[sim::FT_WRITE_ERR] = 0.1;
        if (W.below(3) == 0)
            sim::faultRate[sim::FT_META_ERR] = 0.08;
        if (W.below(3) == 0)
            sim::faultRate[sim::FT_OPEN_ERR] = 0.08;
        if (W.below(3) == 0)
            sim::faultRate[sim::FT_FSYNC_ERR] = 0.2;
        if (W.below(4) == 0)
            sim::faultRate[sim::FT_READ_ERR] = 0.1;
        if (W.below(4) == 0)
            sim::faultRate[sim::FT_STAT_ERR] = 0.05;
        if (W.below(3) == 0)
            sim::k::diskFree = W.below(30000);
    }
    sim::k::onModify = [&](const char*) { observe(ts, "while saving"); };
    FileSystem* nat = FileSystem::native();
    u32 nops = 1 + W.below(6);

    auto saver = [&](u32 who, u32 ops, bool single) {
        double keep = sim::faultRate[sim::FT_META_ERR];
        sim::faultRate[sim::FT_META_ERR] = 0;
        SIM_CHECK(nat->setWorkingDirectory("/w") == FSResult::OK, "chdir", "setWorkingDirectory() failed");
        sim::faultRate[sim::FT_META_ERR] = keep;
        Owned<FileSystem> vfs = nat->createVirtual(W.below(2) ? "/w" : ".");
        for (u32 i = 0; i < ops; i++) {
            u32 ti = W.below(nt);
            Target& t = ts[ti];
            std::string want;
            bool repeat = W.chance(0.3);
            u32 text = W.below(3); // 0 binary, 1 text LF, 2 text CRLF+BOM
            std::string in;
            {
                sim::Quiet q;
                if (repeat && t.allowed.size())
                    in = want = t.last, text = 0;
                else if (W.chance(0.2) && t.last.size()) { // a near miss: same size, or a prefix
                    in = t.last;
                    if (W.below(2))
                        in[W.below((u32) in.size())] ^= 1;
                    else
                        in.resize(in.size() - 1);
                    want = in;
                    text = 0;
                } else {
                    in = version(who * 1000 + i + 7);
                    if (text == 2) {
                        for (u32 k = 0; k < in.size(); k++)
                            if (in[k] == 'q')
                                in[k] = '\n';
                        want = "\xef\xbb\xbf";
                        for (char c : in) {
                            if (c == '\n')
                                want.push_back('\r');
                            want.push_back(c);
                        }
                    } else {
                        want = in;
                    }
                }
                t.allowed.insert(want);
            }
            std::string before = t.last;
            bool existed = t.exists;
            FileSystem* fs = t.virt ? vfs.get() : nat;
            u32 ef = sim::errFaults();
            u32 writes = sim::k::numFsWrites;
            sim::log("save %s: %zu bytes", t.path.c_str(), want.size());
            FSResult r;
            if (text == 0)
                r = fs->makeDirsAndSaveBinaryIfDifferent(sv(t.arg), sv(in));
            else
                r = fs->makeDirsAndSaveTextIfDifferent(sv(t.arg), sv(in), text == 1 ? TextFormat::unixUTF8() : TextFormat{TextFormat::Encoding::UTF8, TextFormat::NewLine::CRLF, true});
            sim::log("save returned %d", (int) r);
            bool injected = sim::errFaults() != ef;
            SIM_CHECK(fs->lastResult() == r, "last-result", "the function returned %d but lastResult() is %d", (int) r, (int) fs->lastResult());
            std::string now;
            bool there = sim::k::readFile(t.path, &now);
            bool okay = r == FSResult::OK || r == FSResult::Unchanged;
            SIM_CHECK(okay || injected, "spurious-failure", "saving %s returned %d although no call underneath failed", t.path.c_str(), (int) r);
            if (single) {
                if (okay)
                    SIM_CHECK(there && now == want, "lost-save", "saving %s returned %s, but the file %s", t.path.c_str(), r == FSResult::OK ? "OK" : "Unchanged", there ? "has other contents" : "does not exist");
                else
                    SIM_CHECK(there == existed && (!there || now == before), "changed-on-failure", "saving %s failed (result %d), but the file is not what it was before", t.path.c_str(), (int) r);
                if (r == FSResult::Unchanged) {
                    SIM_CHECK(existed && before == want, "false-unchanged", "saving %s returned Unchanged although the contents were different", t.path.c_str());
                    SIM_CHECK(sim::k::numFsWrites == writes, "write-when-unchanged", "saving identical contents to %s modified the disk", t.path.c_str());
                    sim::hit("unchanged saves");
                } else if (okay) {
                    SIM_CHECK(injected || !existed || before != want, "false-ok", "saving identical contents to %s returned OK, not Unchanged", t.path.c_str());
                    sim::hit("changed saves");
                } else {
                    sim::hit("failed saves");
                }
                if (okay) {
                    t.last = want;
                    t.exists = true;
                    if (mode != 3) // (the new directory entry need not be durable yet)
                        t.mayBeAbsent = false;
                    // (earlier versions must not come back while the system is up)
                    if (mode != 3) {
                        t.allowed.clear();
                        t.allowed.insert(want);
                    }
                } else if (mode != 3) {
                    t.allowed.clear();
                    if (existed)
                        t.allowed.insert(before);
                }
            } else {
                sim::Quiet q;
                if (okay) {
                    SIM_CHECK(there, "lost-save", "%s does not exist after a successful save", t.path.c_str());
                    t.mayBeAbsent = false;
                    t.last = want;
                }
            }
        }
    };

    if (mode <= 1) {
        saver(0, nops, true);
        if (sim::errFaults() == 0) {
            // nothing but the saved files (and directories) is left
            for (auto& e : sim::k::tree("/w"))
                if (e.second[0] == 'f') {
                    bool known = false;
                    for (Target& t : ts)
                        known |= t.path == e.first || t.path == "/w/" + e.first;
                    SIM_CHECK(known, "left-over-file", "%s is left behind although nothing failed", e.first.c_str());
                }
        }
    } else if (mode == 2 || mode == 3) {
        sim::Proc* p = sim::k::newProc("saver", sim::rootProc);
        sim::k::attachNull(p);
        u32 at = 1 + W.below(24);
        u32 seen = 0;
        bool crashed = false;
        sim::k::onModify = [&](const char* what) {
            observe(ts, "while saving");
            if (++seen == at) {
                crashed = true;
                sim::log("crash point %u (before %s)", seen, what);
                if (mode == 2)
                    sim::faultFired(sim::FT_CRASH);
                sim::k::killProc(p, 9);
            }
        };
        u32 f = sim::k::spawnIn(p, "saver", [&] { saver(0, nops, true); });
        (void) f;
        sim::waitUntil([&] { return crashed || sim::fiberDone(f); });
        sim::k::onModify = nullptr;
        if (mode == 3) {
            // nothing that was complete and durable before may get lost: the initial versions are
            sim::k::powerLoss();
            sim::hit("power losses");
            observe(ts, "after a power loss");
        } else {
            observe(ts, "after a crash");
        }
        // the next start works: saving succeeds and the right contents are there
        sim::noFaults();
        for (Target& t : ts) {
            std::string v = version(99);
            if (mode == 3)
                sim::k::mkdirs("/w");
            FSResult r = nat->makeDirsAndSaveBinaryIfDifferent(sv(t.path), sv(v));
            std::string now;
            bool there = sim::k::readFile(t.path, &now);
            SIM_CHECK((r == FSResult::OK || r == FSResult::Unchanged) && there && now == v, "no-recovery", "after a crash, saving %s again returned %d", t.path.c_str(), (int) r);
        }
    } else {
        sim::randomSchedule(false);
        u32 k = 2 + W.below(2);
        for (Target& t : ts) {
            (void) t;
        }
        std::vector<u32> fs;
        for (u32 i = 0; i < k; i++) {
            auto fn = [&, i] { saver(i + 1, 1 + nops / 2, false); };
            if (mode == 4) {
                fs.push_back(sim::spawn("saver", fn));
            } else {
                sim::Proc* p = sim::k::newProc("saver", sim::rootProc);
                sim::k::attachNull(p);
                fs.push_back(sim::k::spawnIn(p, "saver", fn));
            }
        }
        // a reader in the middle of it all
        u32 rd = sim::spawn("reader", [&] {
            for (u32 i = 0; i < 12; i++) {
                const Target& t = ts[W.below(nt)];
                bool must = !t.mayBeAbsent;
                String s = nat->loadBinary(sv(t.path));
                FSResult r = nat->lastResult();
                sim::Quiet q;
                if (r == FSResult::OK)
                    SIM_CHECK(t.allowed.count(str(s)), "partial-contents", "a reader of %s got %u bytes that are not any complete version", t.path.c_str(), s.numBytes);
                else
                    SIM_CHECK(r == FSResult::NotFound && !must, "file-vanished", "a reader of %s got result %d", t.path.c_str(), (int) r);
            }
        });
        for (u32 f : fs)
            sim::joinFiber(f);
        sim::joinFiber(rd);
        observe(ts, "at the end");
        sim::hit("concurrent saves");
    }
}
SIM_PROP("C06", c06, "saving a file is all or nothing");
} // namespace
