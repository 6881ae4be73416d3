// C03: descriptors behind InPipe/OutPipe. Interrupted calls and partial transfers are invisible;
// real errors are reported; a successful device flush means the data survives power loss.
#include "common.h"
#include <memory>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <ply-runtime/io/impl/Pipe_FD.h>
#include <ply-runtime/io/StdIO.h>
#include <ply-runtime/filesystem/FileSystem.h>
using namespace wl;

namespace {
void benignFaults() {
    sim::faultRate[sim::FT_EINTR] = W.below(3) ? 0.25 : 0;
    sim::faultRate[sim::FT_SHORT_READ] = W.below(2) ? 0.4 : 0;
    sim::faultRate[sim::FT_SHORT_WRITE] = W.below(2) ? 0.4 : 0;
}

bool isPrefix(const std::string& a, const std::string& b) {
    return a.size() <= b.size() && b.compare(0, a.size(), a) == 0;
}
u32 diffAt(const std::string& a, const std::string& b) {
    u32 i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
    return i;
}

// Writing a file through a pipe or a stream, with an optional failing disk and power loss.
void fileCase() {
    benignFaults();
    bool hard = W.chance(0.4);
    if (hard) {
        sim::faultRate[sim::FT_WRITE_ERR] = 0.05;
        sim::faultRate[sim::FT_FSYNC_ERR] = 0.2;
    }
    sim::k::mkdirs("/d");
    std::string old = W.below(2) ? patternBytes(W.below(5000), 77) : "";
    bool existed = W.below(2);
    if (existed)
        sim::k::writeFile("/d/f", old);
    sim::k::sync();
    if (hard && W.below(2))
        sim::k::diskFree = W.below(20000);
    bool asStream = W.below(2);
    FileSystem* fs = FileSystem::native();
    std::string all, certain;
    bool failed = false, deviceOk = false;
    std::string src = patternBytes(30000, W.next());
    u32 pos = 0;
    u32 nops = 1 + W.below(8);
    {
        Owned<OutPipe> pipe;
        Owned<OutStream> outs;
        if (asStream) {
            outs = fs->openStreamForWrite("/d/f");
        } else {
            pipe = fs->openPipeForWrite("/d/f");
        }
        SIM_CHECK(outs || pipe, "open", "opening a file for writing failed without a reason (result %d)", (int) fs->lastResult());
        for (u32 i = 0; i < nops; i++) {
            u32 n = sizeDraw(2048);
            if (pos + n > src.size())
                pos = 0;
            u32 op = W.below(5);
            if (op < 3) {
                u32 before = sim::errFaults();
                StringView v{src.data() + pos, n};
                pos += n;
                bool ok = asStream ? outs->write(v) : pipe->write(v);
                sim::log("write(%u) = %d", n, ok);
                bool injected = sim::errFaults() != before;
                if (!failed)
                    all.append(v.bytes, v.numBytes);
                SIM_CHECK(ok || injected || failed || n == 0, "spurious-failure", "write(%u) failed although no call underneath reported an error", n);
                SIM_CHECK(asStream || !ok || !injected, "silent-failure", "write(%u) returned true although the data was not accepted", n);
                if (!ok)
                    failed = true;
                if (!asStream && failed)
                    break;
            } else if (op == 3) {
                u32 before = sim::errFaults();
                u32 fsyncs = sim::faultCount(sim::FT_FSYNC_ERR);
                bool ok = asStream ? outs->flush(true) : pipe->flush(true);
                bool injected = sim::errFaults() != before;
                bool dev = sim::faultCount(sim::FT_FSYNC_ERR) != fsyncs;
                sim::log("flush(device) = %d", ok);
                SIM_CHECK(ok || injected || failed, "spurious-failure", "flush(true) failed although no call underneath reported an error");
                SIM_CHECK(!ok || !dev, "silent-failure", "flush(true) returned true although the device flush failed");
                if (asStream && outs->atEOF())
                    failed = true;
                if (ok && !failed) {
                    certain = all;
                    deviceOk = true;
                    sim::hit("device flushes that succeeded");
                }
            } else {
                if (asStream)
                    outs->flushMem();
                else
                    pipe->flushMem();
                if (asStream && outs->atEOF())
                    failed = true;
            }
            if (!failed && !asStream) {
                std::string now;
                sim::k::readFile("/d/f", &now);
                SIM_CHECK(now == all, "contents", "after a successful write the file has %zu bytes, %zu were written (first difference at %u)", now.size(), all.size(), diffAt(now, all));
            }
        }
        if (asStream && !failed) {
            u32 before = sim::errFaults();
            outs->flushMem();
            failed = outs->atEOF();
            SIM_CHECK(failed == (sim::errFaults() != before), failed ? "spurious-failure" : "silent-failure", "after the last flush the stream says %s", failed ? "failed, but no call did" : "fine, but the data was not accepted");
        }
    }
    std::string now;
    SIM_CHECK(sim::k::readFile("/d/f", &now), "contents", "the file is gone");
    if (!failed)
        SIM_CHECK(now == all, "contents", "the file has %zu bytes, %zu were written successfully (first difference at %u)", now.size(), all.size(), diffAt(now, all));
    else
        SIM_CHECK(isPrefix(now, all), "contents", "after a failed write the file (%zu bytes) is not a prefix of what was written (first difference at %u)", now.size(), diffAt(now, all));
    if (W.below(2)) {
        sim::k::powerLoss();
        std::string d;
        bool there = sim::k::readFile("/d/f", &d);
        if (deviceOk) {
            // (a new file's directory entry needs the directory to be synced, which is not promised)
            if (there)
                SIM_CHECK(isPrefix(certain, d), "durability", "%zu bytes were flushed to the device, but after a power loss only %u of them are intact", certain.size(), diffAt(certain, d));
            else
                SIM_CHECK(!existed, "durability", "a file that existed and was flushed to the device vanished in a power loss");
        }
    }
    SIM_CHECK(sim::k::numFds(sim::rootProc) == 3, "fd-leak", "descriptors still open after the pipes were destroyed: %s", sim::k::fdSummary(sim::rootProc).c_str());
}

// Reading a file with errors.
void readCase() {
    benignFaults();
    if (W.below(2))
        sim::faultRate[sim::FT_READ_ERR] = 0.1;
    std::string data = patternBytes(sizeDraw(4096), 5);
    sim::k::writeFile("/f", data);
    FileSystem* fs = FileSystem::native();
    std::string got;
    {
        Owned<InPipe> pipe = fs->openPipeForRead("/f");
        SIM_CHECK(pipe, "open", "cannot open");
        SIM_CHECK(pipe->getFileSize() == data.size(), "size", "getFileSize() = %llu, the file has %zu bytes", (unsigned long long) pipe->getFileSize(), data.size());
        for (u32 i = 0; i < 2000; i++) {
            std::string buf(1 + sizeDraw(1024), 'X');
            u32 before = sim::errFaults();
            bool whole = W.chance(0.3);
            if (whole) {
                u32 want = (u32) buf.size();
                bool ok = pipe->read({&buf[0], want});
                bool injected = sim::errFaults() != before;
                sim::log("read(%u) = %d", want, ok);
                if (ok) {
                    SIM_CHECK(got.size() + want <= data.size(), "overread", "read(%u) succeeded beyond the end of the file", want);
                    got += buf;
                } else {
                    SIM_CHECK(injected || got.size() + want > data.size(), "spurious-failure", "read(%u) failed at %zu of %zu without an error underneath", want, got.size(), data.size());
                    break;
                }
            } else {
                u32 n = pipe->readSome({&buf[0], (u32) buf.size()});
                bool injected = sim::errFaults() != before;
                sim::log("readSome(%zu) = %u", buf.size(), n);
                SIM_CHECK(n <= buf.size(), "overread", "readSome() returned %u for a buffer of %zu", n, buf.size());
                if (n == 0) {
                    SIM_CHECK(injected || got.size() == data.size(), "spurious-eof", "readSome() returned 0 at %zu of %zu bytes without an error underneath", got.size(), data.size());
                    break;
                }
                got.append(buf, 0, n);
            }
            SIM_CHECK(isPrefix(got, data), "contents", "bytes read differ from the file at offset %u", diffAt(got, data));
        }
    }
    SIM_CHECK(sim::k::numFds(sim::rootProc) == 3, "fd-leak", "descriptors still open: %s", sim::k::fdSummary(sim::rootProc).c_str());
}

// Two threads joined by a pipe, possibly through the standard streams.
void pipeCase() {
    benignFaults();
    sim::randomSchedule(false);
    sim::k::net.pipeCap = W.below(2) ? 65536 : 1 + W.below(5000);
    u32 mode = W.below(4); // 0 raw pipes, 1 streams, 2 standard streams (binary), 3 standard streams (text)
    signal(SIGPIPE, SIG_IGN);
    int fds[2];
    if (pipe(fds))
        sim::discard("pipe");
    int wfd = fds[1], rfd = fds[0];
    bool useErr = W.below(2);
    if (mode >= 2) {
        if (dup2(fds[0], 0) < 0 || dup2(fds[1], useErr ? 2 : 1) < 0)
            sim::discard("dup2");
        close(fds[0]);
        close(fds[1]);
        rfd = 0;
        wfd = useErr ? 2 : 1;
    }
    bool hard = mode < 2 && W.chance(0.3);
    if (hard) {
        sim::faultRate[W.below(2) ? sim::FT_WRITE_ERR : sim::FT_READ_ERR] = 0.03;
    }
    bool readerQuits = W.chance(0.2);
    u64 quitAfter = readerQuits ? W.below(20000) : ~0ull;
    std::string src = mode == 3 ? randBytes(1 + W.below(6000), 20) : patternBytes(1 + sizeDraw(8192), 9);
    if (mode == 3)
        for (u32 i = 0; i < src.size(); i++)
            if (W.chance(0.1))
                src[i] = "\n\r"[W.below(2)];
    std::string expect;
    for (char c : src)
        if (mode != 3 || c != '\r')
            expect.push_back(c);
    std::string got, sent;
    bool writeOk = true, wInjected = false, rInjected = false, gone = false;
    u32 wr = sim::spawn("writer", [&] {
        Owned<OutPipe> p;
        Owned<OutStream> o;
        if (mode <= 1) {
            p = new OutPipe_FD{wfd};
            if (mode == 1)
                o = new OutStream{std::move(p), 7 + W.below(6)};
        } else if (mode == 2) {
            o = Owned<OutStream>::create(useErr ? StdErr::binary() : StdOut::binary());
        } else {
            o = Owned<OutStream>::create(useErr ? StdErr::text() : StdOut::text());
        }
        u32 pos = 0;
        while (pos < src.size() && writeOk) {
            u32 n = 1 + W.below(W.below(2) ? 50 : 5000);
            if (n > src.size() - pos)
                n = (u32) src.size() - pos;
            writeOk = p ? p->write({src.data() + pos, n}) : o->write({src.data() + pos, n});
            pos += n;
            if (o && W.chance(0.1)) {
                bool f = o->flush(W.below(2)); // a pipe has no device: must not be an error
                SIM_CHECK(f || gone || sim::errFaults() || o->atEOF(), "spurious-failure", "flush() on a pipe failed");
            }
        }
        if (o) {
            o->flushMem();
            if (o->atEOF())
                writeOk = false;
        }
        sim::Quiet q;
        wInjected = sim::errFaults() != 0;
        sent.assign(src, 0, pos);
    });
    // close the writing end when the writer is done
    u32 closer = sim::spawn("closer", [&] {
        sim::joinFiber(wr);
        if (mode >= 2) {
            close(wfd);
        }
    });
    {
        Owned<InPipe> p;
        Owned<InStream> s;
        if (mode <= 1) {
            p = new InPipe_FD{rfd};
            if (mode == 1)
                s = new InStream{std::move(p), 7 + W.below(6)};
        } else if (mode == 2) {
            s = Owned<InStream>::create(StdIn::binary());
        } else {
            s = Owned<InStream>::create(StdIn::text());
        }
        char buf[600];
        while (got.size() < quitAfter) {
            u32 want = 1 + W.below(sizeof(buf));
            u32 n;
            if (p) {
                n = p->readSome({buf, want});
            } else {
                n = s->tryMakeBytesAvailable();
                if (n > want)
                    n = want;
                memcpy(buf, s->curByte, n);
                s->curByte += n;
            }
            if (n == 0)
                break;
            sim::Quiet q;
            got.append(buf, n);
        }
        rInjected = sim::errFaults() != 0;
        gone = true;
    }
    if (mode >= 2)
        close(0);
    sim::joinFiber(closer);
    bool cut = rInjected || wInjected || got.size() >= quitAfter;
    SIM_CHECK(isPrefix(got, expect), "contents", "the reader received something else than was written: first difference at %u of %zu", diffAt(got, expect), expect.size());
    if (!cut) {
        SIM_CHECK(writeOk, "spurious-failure", "writing to a pipe failed although the reader was there and no call underneath failed");
        SIM_CHECK(got == expect, "lost-bytes", "the reader saw the end after %zu of %zu bytes", got.size(), expect.size());
    }
    if (writeOk && !cut)
        sim::hit("complete pipe transfers");
    if (wInjected && mode == 0)
        SIM_CHECK(!writeOk, "silent-failure", "write() returned true although the pipe reported an error");
}

// A reader that went away: the writer gets false, not a crash and not success for ever.
void brokenCase() {
    signal(SIGPIPE, SIG_IGN);
    benignFaults();
    int fds[2];
    if (pipe(fds))
        sim::discard("pipe");
    close(fds[0]);
    sim::faultFired(sim::FT_RESET);
    OutPipe_FD p{fds[1]};
    if (W.below(2)) {
        SIM_CHECK(!p.write({"abc", 1 + W.below(3)}), "silent-failure", "write() to a closed pipe returned true");
    } else {
        OutStream o{borrow(&p), 7 + W.below(4)};
        std::string d = patternBytes(10 + sizeDraw(700), 3);
        o.write(sv(d));
        o.flushMem();
        SIM_CHECK(o.atEOF(), "silent-failure", "an OutStream on a closed pipe does not report the failure after a flush");
        SIM_CHECK(!o.write({"x", 1}), "silent-failure", "an OutStream on a closed pipe accepts more data");
    }
}

void seekCase() {
    benignFaults();
    sim::k::mkdirs("/d");
    std::string m;
    u64 cur = 0;
    {
        Owned<OutPipe> p = FileSystem::native()->openPipeForWrite("/d/s");
        SIM_CHECK(p, "open", "cannot open");
        u32 nops = 2 + W.below(12);
        for (u32 i = 0; i < nops; i++) {
            if (W.below(2)) {
                std::string d = patternBytes(1 + W.below(900), W.next());
                SIM_CHECK(p->write(sv(d)), "spurious-failure", "write failed");
                if (m.size() < cur + d.size())
                    m.resize(cur + d.size());
                m.replace(cur, d.size(), d);
                cur += d.size();
            } else {
                SeekDir dir = (SeekDir) W.below(3);
                s64 base = dir == SeekDir::Set ? 0 : dir == SeekDir::Cur ? (s64) cur : (s64) m.size();
                s64 target = W.below((u32) m.size() + 300);
                u64 r = p->seek(target - base, dir);
                cur = (u64) target;
                SIM_CHECK(r == cur, "seek", "seek to %lld returned %llu", (long long) target, (unsigned long long) r);
            }
        }
    }
    std::string now;
    sim::k::readFile("/d/s", &now);
    SIM_CHECK(now == m, "contents", "after seeks and writes the file differs at %u", diffAt(now, m));
}

void c03() {
    switch (W.below(8)) {
        case 0:
        case 1:
        case 2:
            return fileCase();
        case 3:
        case 4:
            return readCase();
        case 5:
            return brokenCase();
        case 6:
            return W.below(4) ? pipeCase() : seekCase();
        default:
            return pipeCase();
    }
}
SIM_PROP("C03", c03, "descriptor pipes under interrupted, partial and failing calls");
} // namespace
