// C23: what is logged and traced is recorded: every line whole and once, in the order of the thread that
// logged it, with its thread, channel and time; every trace event once; every count exact.
#include "common.h"
#include <map>
#include <set>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <ply-runtime/thread/Thread.h>
#include <ply-runtime/thread/Mutex.h>
#include <ply-runtime/log/Log.h>
#include <ply-runtime/filesystem/FileSystem.h>
#include <ply-runtime/thread/impl/Trace_MemLog.h>
#undef PLY_TRACE_DECLARE
#undef PLY_TRACE_DEFINE_BEGIN
#undef PLY_TRACE_DEFINE
#undef PLY_TRACE_DEFINE_END
#undef PLY_TRACE
#include <ply-runtime/thread/impl/Trace_Counters.h>
using namespace wl;

namespace {
void pause() {
    switch (W.below(8)) {
        case 0:
            sim::yield();
            break;
        case 1:
            sim::sleepNs(W.below(5000));
            break;
        default:
            break;
    }
}
template <typename Fn> void runThreads(u32 n, Fn&& fn) {
    Array<Thread> threads;
    for (u32 t = 0; t < n; t++)
        threads.append([&fn, t] { fn(t); });
    for (Thread& t : threads)
        t.join();
}

//---------------------------------------------------------------- standard output of the run
struct Out {
    bool pipe = false;
    int fds[2];
    std::string got;
    u32 reader = 0;
    void open() {
        got.clear();
        pipe = W.below(2);
        if (pipe) {
            sim::k::net.pipeCap = W.below(2) ? 65536 : 4096 + W.below(3000);
            SIM_CHECK(::pipe(fds) == 0, "harness", "pipe");
            ::dup2(fds[1], 1);
            ::close(fds[1]);
            reader = sim::spawn("reader", [this] {
                sim::exemptFiber();
                for (;;) {
                    char buf[1000];
                    ssize_t n = ::read(fds[0], buf, 1 + W.below(sizeof(buf)));
                    if (n <= 0)
                        break;
                    sim::Quiet q;
                    got.append(buf, n);
                }
            });
        } else {
            int fd = ::open("/stdout", O_CREAT | O_TRUNC | O_WRONLY | (W.below(2) ? O_APPEND : 0), 0644);
            ::dup2(fd, 1);
            ::close(fd);
        }
    }
    const std::string& close() {
        for (u32 f = 0; f < sim::FT_COUNT; f++)
            sim::faultRate[f] = 0;
        int nul = ::open("/dev/null", O_WRONLY);
        ::dup2(nul, 1);
        ::close(nul);
        if (pipe)
            sim::joinFiber(reader), ::close(fds[0]);
        else
            sim::k::readFile("/stdout", &got);
        return got;
    }
};

//---------------------------------------------------------------- log lines
struct Line {
    u64 tid;
    std::string channel, text;
    s64 t0, t1;
    bool maybe = false; // a write failed
};
bool number(const std::string& s, size_t& i, u64& v, u32 base) {
    size_t b = i;
    v = 0;
    for (; i < s.size(); i++) {
        char c = s[i];
        int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
        if (d >= (int) base)
            break;
        v = v * base + d;
    }
    return i > b;
}
void logCase() {
    static const char* names[] = {"net", "", "a [b]", "channel with a long name, to fill it up"};
    LogChannel channels[3] = {{names[W.below(4)]}, {names[W.below(4)]}, {names[W.below(4)]}};
    Out out;
    out.open();
    u32 n = W.below(3) ? 1 + W.below(5) : 1;
    bool cut = n == 1 && W.below(2);
    bool huge = n == 1 || !out.pipe;
    bool multi = n == 1 && W.below(2); // messages with line breaks of their own
    sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0.1 : 0;
    sim::faultRate[sim::FT_SHORT_WRITE] = cut && W.below(2) ? 0.3 : 0;
    sim::faultRate[sim::FT_STALL] = W.below(4) ? 0 : 0.01;
    bool errors = !cut && W.below(5) == 0;
    sim::faultRate[sim::FT_WRITE_ERR] = errors ? 0.1 : 0;
    if (cut && W.below(3) == 0)
        sim::k::io.maxWrite = 1 + W.below(100);
    std::vector<Line> lines[5];
    runThreads(n, [&](u32 t) {
        u32 num = W.below(12);
        for (u32 i = 0; i < num; i++) {
            LogChannel& ch = channels[W.below(3)];
            Line l;
            u32 len = 0;
            std::string msg;
            {
                sim::Quiet q;
                l.tid = 0;
                l.channel = str(ch.channelName);
                u32 size = W.below(4) ? W.below(60) : huge ? sizeDraw(2048) : W.below(3500);
                l.text = sim::fmt("%u/%u:", t, i) + randBytes(size, 26);
                if (multi)
                    for (u32 j = 0; j < size; j += 1 + W.below(40))
                        l.text[l.text.size() - 1 - j] = "\n{}\0"[W.below(4)];
                msg = l.text;
                len = (u32) msg.size();
            }
            l.tid = TID::getCurrentThreadID();
            StringView text{msg.data(), len};
            u32 before = sim::errFaults();
            l.t0 = CPUTimer::get() - LogChannel::startTime;
            switch (W.below(4)) {
                case 0:
                    SLOG(ch, "{}", text);
                    break;
                case 1:
                    SLOG(ch, "{}{}{}", text.left(len / 2), text.subStr(len / 2), "");
                    break;
                case 2: { // the thread is held up in the middle of the line
                    LogChannel::LineHandler lh{ch.channelName};
                    lh.mout << text.left(len / 3);
                    pause();
                    lh.mout << text.subStr(len / 3);
                    break;
                }
                default: {
                    sim::Quiet q;
                    l.text += sim::fmt(" %d {%u}", -(int) i, t);
                }
                    SLOG(ch, "{} {} {{{}}}", text, -(s32) i, t);
                    break;
            }
            l.t1 = CPUTimer::get() - LogChannel::startTime;
            l.maybe = sim::errFaults() > before;
            {
                sim::Quiet q;
                lines[t].push_back(l);
            }
            pause();
        }
    });
    const std::string& got = out.close();
    sim::Quiet q;
    size_t pos = 0, at[5] = {};
    u32 seen = 0;
    while (pos < got.size()) {
        // <minutes>:<seconds>.<microseconds> 0x<thread>[<channel>] <text>\n
        size_t i = pos;
        u64 m = 0, s = 0, us = 0, tid = 0;
        bool ok = number(got, i, m, 10) && got[i] == ':' && (i++, number(got, i, s, 10)) && got[i] == '.' &&
                  (i++, number(got, i, us, 10)) && s < 60 && us < 1000000 && got.compare(i, 3, " 0x") == 0 && (i += 3, number(got, i, tid, 16)) && got[i] == '[';
        if (!ok)
            sim::violate("line", "a logged line starts with %s", sim::escape(got.substr(pos, 60)).c_str());
        u32 found = 99;
        for (u32 t = 0; t < n && found == 99; t++) {
            // lines that failed to be written may be missing
            for (size_t j = at[t]; j < lines[t].size(); j++) {
                const Line& l = lines[t][j];
                std::string rest = "[" + l.channel + "] " + l.text + "\n";
                if (l.tid == tid && got.compare(i, rest.size(), rest) == 0) {
                    // The time passes through a float.
                    double ts = m * 60.0 + s + us * 1e-6, eps = 2e-6 + ts * 2e-7;
                    if (ts < l.t0 * 1e-9 - eps || ts > l.t1 * 1e-9 + eps)
                        sim::violate("time", "a line that was logged between %lld and %lld ns says %f s", (long long) l.t0,
                                     (long long) l.t1, ts);
                    found = t;
                    at[t] = j + 1;
                    pos = i + rest.size();
                    break;
                }
                if (!l.maybe)
                    break;
            }
        }
        if (found == 99)
            sim::violate("line", "a logged line is not whole, out of order or of another thread: %s",
                         sim::escape(got.substr(pos, 100)).c_str());
        seen++;
    }
    for (u32 t = 0; t < n; t++)
        for (size_t j = at[t]; j < lines[t].size(); j++)
            if (!lines[t][j].maybe)
                sim::violate("lost", "line %s was not written", sim::escape(lines[t][j].text.substr(0, 40)).c_str());
    sim::hit("log lines", seen);
    if (cut)
        sim::hit("log writes cut short");
}

//---------------------------------------------------------------- trace events in memory
const sreg PerPage = 16384; // as documented: the last four pages are kept
const char* const msgs[] = {"start", "", "something happened", "end"};
void memLogCase() {
    Trace_MemLog* ml = new Trace_MemLog; // its pages are never freed
    u32 n = 1 + W.below(4);
    u32 pages = W.below(3) ? W.below(2) : W.below(4);
    sreg total = 0;
    std::vector<std::pair<u64, u64>> order[6]; // (msg, param2) by thread
    auto record = [&](u32 t, u32 i) {
        u32 m = (t + i) % 4;
        uptr p2 = (uptr) i * 0x100000001ull;
        ml->log(msgs[m], t, p2);
    };
    // Fill most of some pages in one thread.
    u32 fill = 0;
    if (n == 1 && W.below(3) == 0)
        pages = 4 + W.below(3); // old pages are given up
    if (pages)
        fill = (u32) (pages * PerPage - 100 + W.below(130));
    for (u32 i = 0; i < fill; i++)
        record(5, i);
    total = fill;
    TID::TID mainTid = TID::getCurrentThreadID();
    u32 counts[5] = {};
    u64 tids[6] = {};
    tids[5] = mainTid;
    runThreads(n, [&](u32 t) {
        tids[t] = TID::getCurrentThreadID();
        u32 c = W.below(4) ? W.below(80) : 0;
        for (u32 i = 0; i < c; i++) {
            record(t, i);
            if (W.below(16) == 0)
                pause();
        }
        counts[t] = c;
    });
    for (u32 t = 0; t < n; t++)
        total += counts[t];
    // What was logged is there, in the order of each thread; only the oldest pages may be gone.
    sreg lost = total > 4 * PerPage ? (total - 3 * PerPage - 1) / PerPage * PerPage : 0;
    u32 next[6] = {0, 0, 0, 0, 0, (u32) lost};
    sreg num = 0;
    auto check = [&](u64 tid, const std::string& msg, u64 p1, u64 p2, const char* how) {
        SIM_CHECK(p1 < n || p1 == 5, "event", "an event that was not logged was found %s", how);
        u32 t = (u32) p1;
        SIM_CHECK(tid == tids[t], "event", "the thread of an event is wrong %s", how);
        SIM_CHECK(p2 == (u64) next[t] * 0x100000001ull, "event", "event %u of thread %u was expected but %llu was found %s", next[t], t,
                  (unsigned long long) (p2 & 0xffffffff), how);
        SIM_CHECK(msg == msgs[(t + next[t]) % 4], "event", "the message of an event is wrong %s", how);
        next[t]++;
        num++;
    };
    auto finish = [&](const char* how) {
        SIM_CHECK(num == total - lost, "lost", "%lld events of %lld were found %s", (long long) num, (long long) (total - lost), how);
        for (u32 t = 0; t < n; t++)
            SIM_CHECK(next[t] == counts[t], "lost", "events of thread %u are missing %s", t, how);
        num = 0;
        for (u32 t = 0; t < 5; t++)
            next[t] = 0;
        next[5] = (u32) lost;
    };
    for (const Trace_MemLog::Event& e : *ml)
        check(e.tid, e.msg, e.param1, e.param2, "by iterating");
    finish("by iterating");
    if (W.below(3) == 0 || total < 300) {
        ureg skip = W.below(4) ? 0 : W.below(3);
        u64 base = sim::heapLive();
        ml->dumpEntireLog("/trace.txt", skip);
        SIM_CHECK(sim::heapLive() == base, "leak", "dumping the log left memory behind");
        std::string text;
        SIM_CHECK(sim::k::readFile("/trace.txt", &text), "dump", "the log was not written");
        sreg skipped = min<sreg>((sreg) skip * PerPage, total - lost);
        sim::Quiet q;
        size_t pos = 0;
        sreg found = 0;
        u32 k[6];
        std::copy(next, next + 6, k);
        // The pages that are skipped are known exactly when one thread logged.
        if (skip && n == 1 && counts[0] == 0)
            k[5] += (u32) skipped;
        bool exact = !skip || (n == 1 && counts[0] == 0);
        while (pos < text.size()) {
            size_t e = text.find('\n', pos);
            if (e == std::string::npos)
                sim::violate("dump", "the last line of the log is incomplete");
            std::string line = text.substr(pos, e - pos);
            u64 tid = 0, p1 = 0, p2 = 0;
            size_t i = 1;
            bool ok = line[0] == '[' && number(line, i, tid, 10) && line.compare(i, 2, "] ") == 0 && (i += 2, number(line, i, p1, 10)) &&
                      line[i] == ' ' && (i++, number(line, i, p2, 10)) && i < line.size() && line[i] == ' ';
            if (!ok || (p1 >= n && p1 != 5))
                sim::violate("dump", "a line of the log is %s", sim::escape(line).c_str());
            u32 j = (u32) (p2 & 0xffffffff), t = (u32) p1;
            if (exact && j != k[t])
                sim::violate("dump", "event %u of thread %u was expected but %u was found", k[t], t, j);
            k[t]++;
            if (tid != tids[t] || p2 != (u64) j * 0x100000001ull || line.substr(i + 1) != msgs[(t + j) % 4])
                sim::violate("dump", "a line of the log is %s", sim::escape(line).c_str());
            found++;
            pos = e + 1;
        }
        if (found != total - lost - skipped)
            sim::violate("dump", "%lld events of %lld were written", (long long) found, (long long) (total - lost - skipped));
        sim::hit("trace written to a file");
    }
    {
        Out out;
        out.open();
        ml->dumpStats();
        const std::string& got = out.close();
        std::string want = sim::fmt("%lld events logged\n", (long long) (total - lost));
        SIM_CHECK(got == want, "stats", "the number of events is given as %s", sim::escape(got).c_str());
    }
    sim::hit("trace events", (u64) total);
    if (lost)
        sim::hit("old trace events given up");
}

//---------------------------------------------------------------- counters
PLY_TRACE_DEFINE_BEGIN(Static, 3)
PLY_TRACE_DEFINE("first")
PLY_TRACE_DEFINE("")
PLY_TRACE_DEFINE("third of three")
PLY_TRACE_DEFINE_END(Static, 3)

struct Group { // registered during the run
    const char* name;
    u32 num;
    TraceGroup::Counter counters[4];
    std::atomic<TraceGroup*> group{nullptr};
};
Group groups[6] = {{"g0", 1, {{0, "a"}}},
                   {"g1", 2, {{0, "b"}, {0, "c: d"}}},
                   {"g2", 4, {{0, "e"}, {0, "f"}, {0, "g"}, {0, "h"}}},
                   {"g3", 1, {{0, "i"}}},
                   {"g4", 3, {{0, "j"}, {0, "k"}, {0, "l"}}},
                   {"g5", 2, {{0, "m"}, {0, "n"}}}};
struct Seen {
    bool present = false;
    u32 n[4];
};
void parseStats(const std::string& got, std::map<std::string, Seen>& seen) {
    size_t pos = 0;
    std::map<std::string, std::vector<std::string>> names{{"Static", {"first", "", "third of three"}}};
    for (Group& g : groups)
        for (u32 i = 0; i < g.num; i++)
            names[g.name].push_back(g.counters[i].str);
    auto line = [&]() {
        size_t e = got.find('\n', pos);
        if (e == std::string::npos)
            sim::violate("stats", "the statistics end with %s", sim::escape(got.substr(pos)).c_str());
        std::string l = got.substr(pos, e - pos);
        pos = e + 1;
        return l;
    };
    while (pos < got.size()) {
        std::string l = line();
        if (l.compare(0, 16, "--------------- ") || !names.count(l.substr(16)))
            sim::violate("stats", "the statistics contain %s", sim::escape(l).c_str());
        std::string name = l.substr(16);
        Seen& s = seen[name];
        if (s.present)
            sim::violate("stats", "group %s is given twice", name.c_str());
        s.present = true;
        for (size_t i = 0; i < names[name].size(); i++) {
            l = line();
            size_t j = 0;
            u64 v;
            if (!number(l, j, v, 10) || l.substr(j) != ": " + names[name][i])
                sim::violate("stats", "the statistics of %s contain %s", name.c_str(), sim::escape(l).c_str());
            s.n[i] = (u32) v;
        }
    }
}
void countersCase() {
    u32 n = 1 + W.below(4);
    u32 started[7][4] = {}, done[7][4] = {}; // [6] is Static
    bool added[6] = {};
    Mutex mutex;
    bool taken[6] = {};
    auto use = [&](u32 g, u32 i) {
        TraceGroup::Counter* c = g == 6 ? Trace_Static : groups[g].counters;
        {
            sim::Quiet q;
            started[g][i]++;
        }
        if (g == 6 && i == 1)
            PLY_TRACE(Static, 1, "", 0, 0);
        else
            c[i].count.fetchAdd(1, Relaxed);
        sim::Quiet q;
        done[g][i]++;
    };
    auto dump = [&](bool last) {
        u32 lo[7][4];
        bool reg[6];
        Out out;
        out.open();
        {
            sim::Quiet q;
            std::copy(&done[0][0], &done[0][0] + 28, &lo[0][0]);
            std::copy(added, added + 6, reg);
        }
        Trace_Counters::Instance.dumpStats();
        const std::string& got = out.close();
        sim::Quiet q;
        std::map<std::string, Seen> seen;
        parseStats(got, seen);
        for (u32 g = 0; g < 7; g++) {
            std::string name = g == 6 ? "Static" : groups[g].name;
            u32 num = g == 6 ? 3 : groups[g].num;
            bool used = false, mayUse = false;
            for (u32 i = 0; i < num; i++) {
                used |= lo[g][i] > 0;
                mayUse |= started[g][i] > 0;
            }
            Seen& s = seen[name];
            if (!s.present && used && (g == 6 || reg[g]))
                sim::violate("stats", "group %s was used but is missing", name.c_str());
            if (s.present && !mayUse)
                sim::violate("stats", "group %s was not used", name.c_str());
            if (s.present)
                for (u32 i = 0; i < num; i++)
                    if (s.n[i] < lo[g][i] || s.n[i] > started[g][i] || (last && s.n[i] != started[g][i]))
                        sim::violate("stats", "counter %u of %s is given as %u: at least %u, at most %u", i, name.c_str(), s.n[i],
                                     lo[g][i], started[g][i]);
        }
        sim::hit("counters dumped");
    };
    u32 dumper = W.below(3) ? n : W.below(n); // at most one, it owns the standard output
    runThreads(n, [&](u32 t) {
        u32 ops = 1 + W.below(30);
        for (u32 i = 0; i < ops; i++) {
            u32 g = W.below(6);
            switch (W.below(6)) {
                case 0: {
                    bool mine;
                    {
                        sim::Quiet q;
                        mine = !taken[g];
                        taken[g] = true;
                    }
                    if (mine) {
                        new TraceGroup{groups[g].name, groups[g].counters, groups[g].num};
                        sim::Quiet q;
                        added[g] = true;
                    }
                    break;
                }
                case 1:
                    if (t == dumper)
                        dump(false);
                    break;
                case 2:
                    use(6, W.below(3));
                    break;
                default:
                    use(g, W.below(groups[g].num));
                    break;
            }
            pause();
        }
    });
    dump(true);
    sim::hit("counters");
}

void run() {
    sim::randomSchedule(W.below(2));
    sim::sched.raceDetect = true;
    switch (W.below(12)) {
        case 1:
            sim::sched.accessSwitch = std::min(sim::sched.accessSwitch, 0.001);
            sim::sched.maxSteps = 20000000;
            return memLogCase();
        case 2:
        case 3:
        case 4:
        case 5:
            return countersCase();
        default:
            return logCase();
    }
}
SIM_PROP("C23", run, "log lines and trace events");
} // namespace
