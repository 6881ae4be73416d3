// C10: subprocesses run the right program with the right arguments, directory and connections;
// output and input pass through unchanged; nothing is inherited, leaked or left unreported.
#include "common.h"
#include <memory>
#include <map>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <ply-runtime/io/impl/Pipe_FD.h>
#include <ply-runtime/io/StdIO.h>
#include <ply-runtime/process/Subprocess.h>
#include <ply-runtime/filesystem/FileSystem.h>
#include <ply-runtime/thread/Thread.h>
#include <ply-runtime/network/Socket.h>
using namespace wl;

namespace {
struct ChildOp {
    enum Kind { Out, Err, In, InAll, CloseIn, CloseOut, Sleep } kind;
    u32 n;
};
enum Mode { Ignore, Inherit, OpenP, Merge, ToFile };
const char* modeName[] = {"ignore", "inherit", "open", "merge", "file"};
struct Plan {
    u32 tag;
    std::vector<std::string> args;
    std::string exe, dir;
    bool exists = true, dirOk = true;
    Mode out = Ignore, err = Ignore, in = Ignore;
    std::vector<ChildOp> ops;
    int exitCode = 0;
    bool suicide = false;
    // what the child saw
    bool ran = false, ended = false;
    std::vector<std::string> gotArgv;
    std::string gotDir, gotPath, gotIn, wroteOut, wroteErr, wroteBoth;
    std::vector<int> gotFds;
    sim::OpenFile* gotF[3] = {};
    bool broken = false;  // it could not write everything
    bool inEnd = false;   // it saw the end of its input
};
struct State {
    std::map<u32, Plan*> plans;
};
State* st;

u32 tagOf(const std::vector<std::string>& argv) {
    return argv.size() > 1 && argv[1][0] == '#' ? (u32) atoi(argv[1].c_str() + 1) : ~0u;
}

bool writeFd(int fd, const std::string& d, std::string* rec, std::string* both) {
    size_t pos = 0;
    while (pos < d.size()) {
        ssize_t r = write(fd, d.data() + pos, d.size() - pos);
        if (r < 0 && errno == EINTR)
            continue;
        if (r <= 0)
            return false;
        sim::Quiet q;
        rec->append(d, pos, (size_t) r);
        if (both)
            both->append(d, pos, (size_t) r);
        pos += (size_t) r;
    }
    return true;
}

// The program that is run.
int childMain(const std::vector<std::string>& argv) {
    Plan* p;
    {
        sim::Quiet q;
        auto f = st->plans.find(tagOf(argv));
        if (f == st->plans.end())
            sim::violate("arguments", "the program was started with unexpected arguments: %u of them, the first is %s", (unsigned) argv.size(),
                         argv.size() > 1 ? sim::escape(argv[1]).c_str() : "missing");
        p = f->second;
        sim::Proc* me = sim::cur->proc;
        if (p->ran)
            sim::violate("started-twice", "the program was started twice by one exec()");
        p->ran = true;
        p->gotArgv = argv;
        p->gotDir = me->cwdAtExec;
        p->gotPath = me->execPath;
        for (auto& e : me->fds) {
            p->gotFds.push_back(e.first);
            if (e.first < 3 && e.first >= 0)
                p->gotF[e.first] = e.second.f;
        }
    }
    u32 so = 0, se = 0;
    bool ok = true;
    std::vector<ChildOp> ops;
    u32 tag;
    bool suicide;
    int exitCode;
    {
        sim::Quiet q;
        ops = p->ops;
        tag = p->tag;
        suicide = p->suicide;
        exitCode = p->exitCode;
    }
    for (ChildOp& op : ops) {
        switch (op.kind) {
            case ChildOp::Out:
            case ChildOp::Err: {
                bool e = op.kind == ChildOp::Err;
                std::string d;
                {
                    sim::Quiet q;
                    d = patternBytes(op.n, tag * 1000 + (e ? 500 : 0) + (e ? se++ : so++));
                }
                if (!writeFd(e ? 2 : 1, d, e ? &p->wroteErr : &p->wroteOut, &p->wroteBoth)) {
                    sim::Quiet q;
                    p->broken = true;
                    ok = false;
                }
                break;
            }
            case ChildOp::In:
            case ChildOp::InAll: {
                u32 left = op.kind == ChildOp::In ? op.n : ~0u;
                char buf[700];
                while (left) {
                    ssize_t r = read(0, buf, left < sizeof(buf) ? left : sizeof(buf));
                    if (r < 0 && errno == EINTR)
                        continue;
                    if (r <= 0) {
                        sim::Quiet q;
                        p->inEnd = true;
                        break;
                    }
                    sim::Quiet q;
                    p->gotIn.append(buf, (size_t) r);
                    left -= (u32) r;
                }
                break;
            }
            case ChildOp::CloseIn:
                close(0);
                break;
            case ChildOp::CloseOut:
                close(1);
                break;
            case ChildOp::Sleep:
                sim::sleepNs(op.n * 1000ull);
                break;
        }
        if (!ok)
            break;
    }
    {
        sim::Quiet q;
        p->ended = true;
    }
    if (suicide)
        kill(getpid(), SIGKILL);
    return exitCode;
}

std::string randArg() {
    u32 n = W.below(12);
    if (W.chance(0.05))
        n = 3000;
    std::string s;
    while (s.size() < n) {
        static const char special[] = " \t\n\"'\\$*;|&<>-=%";
        char c = W.below(3) ? (char) ('a' + W.below(26)) : W.below(2) ? special[W.below(sizeof(special) - 1)] : (char) (1 + W.below(255));
        s.push_back(c);
    }
    return s;
}

void drawPlan(Plan& p, u32 tag, bool allowFailing) {
    p.tag = tag;
    p.args.push_back(sim::fmt("#%u", tag));
    u32 na = W.below(5);
    for (u32 i = 0; i < na; i++)
        p.args.push_back(randArg());
    p.exe = W.below(3) == 0 ? "tool" : "/usr/bin/tool";
    switch (W.below(4)) {
        case 0:
        case 1:
            break;
        case 2:
            p.dir = "/work/dir";
            break;
        default:
            p.dir = "sub"; // relative to the current directory
    }
    if (allowFailing && W.chance(0.15)) {
        switch (W.below(4)) {
            case 0:
                p.exe = "/usr/bin/nothere";
                p.exists = false;
                break;
            case 1:
                p.exe = "nothere";
                p.exists = false;
                break;
            case 2:
                p.dir = "/work/missing";
                p.dirOk = false;
                break;
            default:
                p.dir = "/work/file";
                p.dirOk = false;
        }
    }
    static const Mode outs[] = {OpenP, Ignore, Inherit, OpenP, ToFile, OpenP};
    p.out = outs[W.below(6)];
    static const Mode errs[] = {Ignore, OpenP, Merge, Inherit, ToFile, OpenP};
    p.err = errs[W.below(6)];
    static const Mode ins[] = {Ignore, OpenP, OpenP, Inherit, ToFile};
    p.in = ins[W.below(5)];
    u32 n = W.below(7);
    for (u32 i = 0; i < n; i++) {
        u32 k = W.below(12);
        ChildOp op{ChildOp::Out, 0};
        static const u32 sizes[] = {1, 10, 100, 700, 5000, 70000};
        op.n = 1 + W.below(sizes[W.below(6)]);
        if (k < 4)
            op.kind = ChildOp::Out;
        else if (k < 6)
            op.kind = ChildOp::Err;
        else if (k < 8)
            op.kind = ChildOp::In;
        else if (k < 9)
            op.kind = ChildOp::InAll;
        else if (k < 10) {
            op.kind = ChildOp::Sleep;
            op.n = 1 + W.below(3000);
        } else if (k < 11 && i + 1 == n)
            op.kind = W.below(2) ? ChildOp::CloseIn : ChildOp::CloseOut;
        else
            op.kind = ChildOp::InAll;
        p.ops.push_back(op);
    }
    p.exitCode = W.below(3) ? 0 : (int) W.below(256);
    p.suicide = W.chance(0.1);
}

bool isPrefix(const std::string& a, const std::string& b) {
    return a.size() <= b.size() && b.compare(0, a.size(), a) == 0;
}

// Lines such as: exec a program, talk to it, wait for it.
void runPlan(Plan& plan) {
    Plan p = plan; // the child works on the original
    sim::Proc* me = sim::cur->proc;
    FileSystem* fs = FileSystem::native();
    u32 tag = p.tag;
    std::string outFile = sim::fmt("/work/out%u", tag), errFile = sim::fmt("/work/err%u", tag), inFile = sim::fmt("/work/in%u", tag);
    std::string input = patternBytes(W.below(4) ? W.below(3000) : W.below(150000), tag + 31);
    Owned<OutPipe> outPipe, errPipe;
    Owned<InPipe> inPipe;
    sim::OpenFile* expF[3] = {};
    Subprocess::Output o;
    Subprocess::Input in;
    auto parentFile = [&](int fd) {
        sim::Quiet q;
        return me->fds[fd].f;
    };
    auto openOut = [&](const std::string& path) {
        Owned<OutPipe> r = fs->openPipeForWrite(sv(path));
        return r;
    };
    switch (p.out) {
        case OpenP:
            o.stdOut = Subprocess::Pipe::Open;
            break;
        case Inherit:
            o.stdOutPipe = StdOut::pipe();
            expF[1] = parentFile(1);
            break;
        case ToFile:
            outPipe = openOut(outFile);
            if (!outPipe)
                return;
            o.stdOutPipe = outPipe;
            expF[1] = parentFile(outPipe->cast<OutPipe_FD>()->fd);
            break;
        default:
            break;
    }
    switch (p.err) {
        case OpenP:
            o.stdErr = Subprocess::Pipe::Open;
            break;
        case Merge:
            o.stdErr = Subprocess::Pipe::StdOut;
            expF[2] = expF[1];
            break;
        case Inherit:
            o.stdErrPipe = StdErr::pipe();
            expF[2] = parentFile(2);
            break;
        case ToFile:
            if (p.out == ToFile && W.below(2)) {
                o.stdErrPipe = outPipe; // the same pipe for both
                expF[2] = expF[1];
            } else {
                errPipe = openOut(errFile);
                if (!errPipe)
                    return;
                o.stdErrPipe = errPipe;
                expF[2] = parentFile(errPipe->cast<OutPipe_FD>()->fd);
            }
            break;
        default:
            break;
    }
    bool both = p.err == Merge || (p.err == ToFile && o.stdErrPipe == o.stdOutPipe);
    switch (p.in) {
        case OpenP:
            in = Subprocess::Input::open();
            break;
        case Inherit:
            in = Subprocess::Input::inherit();
            expF[0] = parentFile(0);
            break;
        case ToFile: {
            sim::k::writeFile(inFile, input);
            inPipe = fs->openPipeForRead(sv(inFile));
            if (!inPipe)
                return;
            in.stdIn = Subprocess::Pipe::Redirect;
            in.stdInPipe = inPipe;
            expF[0] = parentFile(inPipe->cast<InPipe_FD>()->fd);
            break;
        }
        default:
            in = Subprocess::Input::ignore();
    }
    std::vector<StringView> args;
    for (auto& a : p.args)
        args.push_back(sv(a));
    sim::log("exec %s out=%s err=%s in=%s dir=%s args=%zu ops=%zu", p.exe.c_str(), modeName[p.out], modeName[p.err], modeName[p.in], p.dir.c_str(), p.args.size(), p.ops.size());
    u32 f0 = sim::errFaults();
    Owned<Subprocess> sub = Subprocess::exec(sv(p.exe), ArrayView<const StringView>{args.data(), (u32) args.size()}, sv(p.dir), o, in);
    bool failed = sim::errFaults() != f0;
    outPipe.clear();
    errPipe.clear();
    inPipe.clear();
    if (!sub) {
        {
            sim::Quiet q;
            p = plan;
        }
        SIM_CHECK(failed || !p.exists || !p.dirOk, "spurious-failure", "exec() failed although no call underneath failed");
        SIM_CHECK(!p.ran, "failed-but-ran", "exec() reported a failure, but the program was started");
        sim::hit("exec refused");
        return;
    }
    SIM_CHECK(!!sub->writeToStdIn == (p.in == OpenP), "pipes", "writeToStdIn is %s", sub->writeToStdIn ? "set" : "missing");
    SIM_CHECK(!!sub->readFromStdOut == (p.out == OpenP), "pipes", "readFromStdOut is %s", sub->readFromStdOut ? "set" : "missing");
    SIM_CHECK(!!sub->readFromStdErr == (p.err == OpenP), "pipes", "readFromStdErr is %s", sub->readFromStdErr ? "set" : "missing");
    // One thread per pipe
    std::string got[3];
    bool end[3] = {}, writeOk = true, quitEarly = W.chance(0.1);
    u32 sent = 0;
    std::vector<u32> helpers;
    u32 limitRead = quitEarly ? W.below(2000) : ~0u;
    for (int i = 1; i <= 2; i++) {
        Owned<InPipe> pipe = std::move(i == 1 ? sub->readFromStdOut : sub->readFromStdErr);
        if (!pipe)
            continue;
        InPipe* raw = pipe.release();
        helpers.push_back(sim::spawn(i == 1 ? "stdout" : "stderr", [raw, i, &got, &end, limitRead] {
            Owned<InPipe> pp{raw};
            char buf[900];
            for (;;) {
                u32 n = pp->readSome({buf, sizeof(buf)});
                if (n == 0) {
                    end[i] = true;
                    break;
                }
                {
                    sim::Quiet q;
                    got[i].append(buf, n);
                }
                if (got[i].size() >= limitRead)
                    break;
            }
            pp.clear();
        }));
    }
    if (sub->writeToStdIn) {
        OutPipe* raw = sub->writeToStdIn.release();
        u32 piece = 1 + W.below(5000);
        helpers.push_back(sim::spawn("stdin", [raw, &input, &writeOk, &sent, piece] {
            Owned<OutPipe> pp{raw};
            while (sent < input.size()) {
                u32 n = (u32) input.size() - sent < piece ? (u32) input.size() - sent : piece;
                if (!pp->write({input.data() + sent, n})) {
                    writeOk = false;
                    break;
                }
                sent += n;
            }
            pp.clear();
        }));
    }
    u32 order = W.below(4);
    s32 rc = 0;
    bool joined = true;
    if (order == 3) {
        // never joined
        for (u32 h : helpers)
            sim::joinFiber(h);
        bool waitEnd = W.below(2);
        if (waitEnd)
            sim::waitUntil([&] {
                for (sim::Proc* c : sim::allProcs)
                    if (c->parent == me && !c->dead && !c->zombie && c->argv.size() > 1 && tagOf(c->argv) == tag)
                        return false;
                return plan.ended || !p.exists || !p.dirOk;
            }, 1000000000ull);
        sub.clear();
        joined = false;
        sim::hit("not joined");
        sim::waitUntil([&] { return plan.ended || !p.exists || !p.dirOk; }, 5000000000ull);
    } else {
        if (order == 0)
            rc = sub->join();
        for (u32 h : helpers)
            sim::joinFiber(h);
        if (order != 0)
            rc = sub->join();
        sub.clear();
    }
    {
        sim::Quiet q;
        p = plan;
    }
    if (!p.exists || !p.dirOk) {
        SIM_CHECK(!p.ran, p.dirOk ? "wrong-program" : "wrong-directory", "the program ran although its %s does not exist", p.dirOk ? "file" : "initial directory");
        if (joined)
            SIM_CHECK(rc != 0, "silent-failure", "a program that could not be started appears to have succeeded");
        for (int i = 1; i <= 2; i++)
            SIM_CHECK(got[i].empty(), "output", "output from a program that never ran");
        sim::hit("could not start");
        return;
    }
    SIM_CHECK(p.ran, "not-run", "the program never ran (join() returned %d)", rc);
    SIM_CHECK(p.ended, "not-ended", "join() returned, but the program is still running");
    if (joined)
        SIM_CHECK(rc == (p.suicide ? -1 : p.exitCode), "exit-code", "join() returned %d instead of %d", rc, p.suicide ? -1 : p.exitCode);
    // What the program saw
    std::vector<std::string> want{p.exe};
    want.insert(want.end(), p.args.begin(), p.args.end());
    SIM_CHECK(p.gotArgv.size() == want.size(), "arguments", "the program got %zu arguments instead of %zu", p.gotArgv.size(), want.size());
    for (u32 i = 0; i < want.size(); i++)
        SIM_CHECK(p.gotArgv[i] == want[i], "arguments", "argument %u of the program is %s instead of %s", i, sim::escape(p.gotArgv[i]).c_str(), sim::escape(want[i]).c_str());
    SIM_CHECK(p.gotPath == "/usr/bin/tool", "wrong-program", "%s was run", p.gotPath.c_str());
    std::string wantDir = p.dir.empty() ? "/work" : p.dir == "sub" ? "/work/sub" : p.dir;
    SIM_CHECK(p.gotDir == wantDir, "wrong-directory", "the program ran in %s instead of %s", p.gotDir.c_str(), wantDir.c_str());
    SIM_CHECK(p.gotFds == (std::vector<int>{0, 1, 2}), "inherited", "the program has descriptors other than its standard streams: %u, the last is %d", (unsigned) p.gotFds.size(),
              p.gotFds.empty() ? -1 : p.gotFds.back());
    for (int i = 0; i < 3; i++)
        if (expF[i])
            SIM_CHECK(p.gotF[i] == expF[i], "redirection", "standard stream %d of the program is not what it was redirected to", i);
    if (p.err == Merge)
        SIM_CHECK(p.gotF[2] == p.gotF[1], "redirection", "stderr was not merged into stdout");
    else if (!both && !(p.out == Inherit && p.err == Inherit))
        SIM_CHECK(p.gotF[2] != p.gotF[1], "redirection", "stderr and stdout are the same stream");
    // Data
    if (p.out == OpenP) {
        const std::string& w = both ? p.wroteBoth : p.wroteOut;
        SIM_CHECK(isPrefix(got[1], w), "output", "what was read from the program's stdout is not what it wrote (%zu of %zu bytes)", got[1].size(), w.size());
        SIM_CHECK(!end[1] || got[1] == w, "output", "the end of the program's stdout was seen after %zu of %zu bytes", got[1].size(), w.size());
        SIM_CHECK(end[1] || quitEarly, "output", "no end of the program's stdout");
    }
    if (p.err == OpenP) {
        SIM_CHECK(isPrefix(got[2], p.wroteErr), "output", "what was read from the program's stderr is not what it wrote (%zu of %zu bytes)", got[2].size(), p.wroteErr.size());
        SIM_CHECK(!end[2] || got[2] == p.wroteErr, "output", "the end of the program's stderr was seen after %zu of %zu bytes", got[2].size(), p.wroteErr.size());
    }
    std::string now;
    if (p.out == ToFile) {
        sim::k::readFile(outFile, &now);
        SIM_CHECK(now == (both ? p.wroteBoth : p.wroteOut), "output", "the file that stdout was redirected to has %zu bytes instead of what the program wrote", now.size());
    }
    if (p.err == ToFile && !both) {
        sim::k::readFile(errFile, &now);
        SIM_CHECK(now == p.wroteErr, "output", "the file that stderr was redirected to has %zu bytes instead of what the program wrote", now.size());
    }
    if (!quitEarly || p.out != OpenP)
        SIM_CHECK(!p.broken || quitEarly, "broken-output", "the program's output was cut although somebody was reading");
    if (p.in == OpenP || p.in == ToFile) {
        SIM_CHECK(isPrefix(p.gotIn, input), "input", "the program read something else than was written");
        SIM_CHECK(!p.inEnd || p.gotIn == input, "input", "the program saw the end of its input after %zu of %zu bytes", p.gotIn.size(), input.size());
    } else {
        SIM_CHECK(p.gotIn.empty(), "input", "the program read %zu bytes from nowhere", p.gotIn.size());
    }
    if (p.in == OpenP && p.inEnd)
        SIM_CHECK(writeOk, "spurious-failure", "writing to the program's input failed although it read everything");
    if (p.in == OpenP && input.size() > p.gotIn.size() + 66000)
        SIM_CHECK(!writeOk, "silent-failure", "writing to a program that ended succeeded");
    sim::hit("complete");
}

void c10() {
    signal(SIGPIPE, SIG_IGN);
    State state;
    st = &state;
    sim::k::mkdirs("/work/sub");
    sim::k::mkdirs("/work/dir");
    sim::k::mkdirs("/usr/bin");
    sim::k::writeFile("/work/file", "x");
    sim::k::installProgram("/usr/bin/tool", childMain);
    if (chdir("/work"))
        sim::discard("chdir");
    // files and connections the program has open, which are none of the children's business
    Owned<OutPipe> otherFile;
    Owned<InPipe> otherInput;
    TCPListener listener;
    Owned<TCPConnection> here, there;
    if (W.chance(0.3)) {
        Socket::initialize(W.below(2) ? IPAddress::V6 : IPAddress::V4);
        otherFile = FileSystem::native()->openPipeForWrite("other");
        otherInput = FileSystem::native()->openPipeForRead("file");
        listener = Socket::bindTCP(8000);
        here = Socket::connectTCP(IPAddress::localHost(IPAddress::V4), 8000);
        there = listener.accept();
        SIM_CHECK(here && there, "setup", "no connection");
        sim::hit("with other descriptors");
    }
    sim::faultRate[sim::FT_EINTR] = W.below(3) ? 0.15 : 0;
    sim::faultRate[sim::FT_SHORT_READ] = W.below(2) ? 0.3 : 0;
    sim::faultRate[sim::FT_SHORT_WRITE] = W.below(2) ? 0.3 : 0;
    bool hard = W.chance(0.3);
    if (hard) {
        sim::faultRate[sim::FT_FD_LIMIT] = 0.1;
        sim::faultRate[sim::FT_NOMEM] = 0.1;
    }
    sim::sched.raceDetect = true;
    u32 numThreads = 1 + W.below(3);
    std::vector<std::vector<Plan>> plans(numThreads);
    u32 tag = 1;
    for (u32 t = 0; t < numThreads; t++) {
        u32 n = 1 + W.below(numThreads == 1 ? 3 : 2);
        plans[t].resize(n);
        for (Plan& p : plans[t])
            drawPlan(p, tag++, true);
    }
    for (auto& v : plans)
        for (Plan& p : v)
            state.plans[p.tag] = &p;
    // the standard streams exist before we start counting
    StdIn::pipe();
    StdOut::pipe();
    StdErr::pipe();
    sim::Proc* me = sim::cur->proc;
    u32 fds0 = sim::k::numFds(me);
    sim::randomSchedule(W.chance(0.3));
    std::vector<u32> fibers;
    for (u32 t = 0; t < numThreads; t++)
        fibers.push_back(sim::spawn("parent", [&, t] {
            for (Plan& p : plans[t])
                runPlan(p);
        }));
    for (u32 f : fibers)
        sim::joinFiber(f);
    sim::noFaults();
    SIM_CHECK(sim::k::numFds(me) == fds0, "fd-leak", "descriptors are left open: %s", sim::k::fdSummary(me).c_str());
    if (numThreads > 1)
        sim::hit("concurrent parents");
}
SIM_PROP("C10", c10, "subprocesses");
} // namespace
