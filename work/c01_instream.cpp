// C01: whatever the fragmentation of the source, an InStream delivers exactly the source's bytes,
// in order, and reports the end (or an error) exactly when they run out.
#include "common.h"
#include <ply-runtime/io/impl/Pipe_FD.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <memory>
using namespace wl;

namespace {
struct Saved {
    BlockList::Ref ref;
    u64 pos;
};

struct Session {
    std::string data;
    u64 limit = 0; // bytes that can be read before the end of the stream
    u64 pos = 0;
    bool sawEnd = false;
    bool viewType = false;

    u64 left() const {
        return limit - pos;
    }
    void checkAvail(InStream* ins, const char* op) {
        u32 n = ins->numBytesAvailable();
        SIM_CHECK(n <= left(), "more-than-source", "after %s at %llu: %u bytes available but only %llu are left", op, (unsigned long long) pos, n, (unsigned long long) left());
        sim::heapCheckRange(ins->curByte, n, false);
        SIM_CHECK(memcmp(ins->curByte, data.data() + pos, n) == 0, "wrong-bytes", "after %s: the %u buffered bytes at position %llu are not the source's", op, n, (unsigned long long) pos);
        if (ins->atEOF())
            SIM_CHECK(n == left(), "early-eof", "after %s at %llu: atEOF() but %llu of %llu remaining bytes are not available", op, (unsigned long long) pos,
                      (unsigned long long) (left() - n), (unsigned long long) left());
    }
};

void drive(Session& s, InStream&& ins0, u32 nops, u32 block, bool hasGetSeek) {
    std::unique_ptr<InStream> ins{new InStream{std::move(ins0)}};
    std::vector<Saved> saved;
    std::string buf;
    s.checkAvail(ins.get(), "open");
    for (u32 i = 0; i < nops; i++) {
        u32 op = W.below(s.viewType ? 6 : 11);
        switch (op) {
            case 0: { // read
                u32 n = sizeDraw(block);
                buf.assign(n + 2, '\x5a');
                bool ok = ins->read({&buf[1], n});
                u64 m = n < s.left() ? n : s.left();
                sim::log("read(%u) at %llu -> %d", n, (unsigned long long) s.pos, ok);
                SIM_CHECK(ok == (m == n), "read-result", "read(%u) with %llu bytes left returned %s", n, (unsigned long long) s.left(), ok ? "true" : "false");
                SIM_CHECK(memcmp(&buf[1], s.data.data() + s.pos, m) == 0, "wrong-bytes", "read(%u) at %llu delivered bytes that are not the source's", n, (unsigned long long) s.pos);
                for (u64 k = m; k < n; k++)
                    SIM_CHECK(buf[1 + k] == 0, "not-zero-filled", "read(%u) at %llu ended after %llu bytes and left byte %llu unset", n, (unsigned long long) s.pos, (unsigned long long) m, (unsigned long long) k);
                SIM_CHECK(buf[0] == '\x5a' && buf[n + 1] == '\x5a', "overrun", "read(%u) wrote outside its buffer", n);
                s.pos += m;
                if (m < n) {
                    SIM_CHECK(ins->atEOF(), "eof-not-set", "read(%u) came up short but atEOF() is false", n);
                    sim::hit("read-past-end");
                }
                break;
            }
            case 1: { // skip
                u32 n = sizeDraw(block);
                bool ok = ins->skip(n);
                u64 m = n < s.left() ? n : s.left();
                sim::log("skip(%u) at %llu -> %d", n, (unsigned long long) s.pos, ok);
                SIM_CHECK(ok == (m == n), "skip-result", "skip(%u) with %llu bytes left returned %s", n, (unsigned long long) s.left(), ok ? "true" : "false");
                s.pos += m;
                break;
            }
            case 2: { // readByte
                u32 n = 1 + W.below(5);
                for (u32 k = 0; k < n; k++) {
                    u8 b = ins->readByte();
                    if (s.left()) {
                        SIM_CHECK(b == (u8) s.data[s.pos], "wrong-bytes", "readByte() at %llu returned %02x instead of %02x", (unsigned long long) s.pos, b, (u8) s.data[s.pos]);
                        s.pos++;
                    } else {
                        SIM_CHECK(b == 0 && ins->atEOF(), "eof-not-set", "readByte() at the end returned %02x, atEOF()=%d", b, ins->atEOF());
                    }
                }
                break;
            }
            case 3: { // consume what is buffered
                u32 got = ins->tryMakeBytesAvailable();
                SIM_CHECK((got > 0) == (s.left() > 0), "avail-result", "tryMakeBytesAvailable() at %llu returned %u with %llu bytes left", (unsigned long long) s.pos, got, (unsigned long long) s.left());
                if (!got)
                    SIM_CHECK(ins->atEOF(), "eof-not-set", "tryMakeBytesAvailable() returned 0 but atEOF() is false");
                s.checkAvail(ins.get(), "tryMakeBytesAvailable");
                u32 k = W.below(ins->numBytesAvailable() + 1);
                ins->advanceByte(k);
                s.pos += k;
                break;
            }
            case 4: { // make n bytes available
                u32 n = W.chance(0.3) ? sizeDraw(block) : 1 + W.below(16);
                if (!n)
                    n = 1;
                u32 got = ins->tryMakeBytesAvailable(n);
                sim::log("tryMakeBytesAvailable(%u) at %llu -> %u", n, (unsigned long long) s.pos, got);
                if (s.left() >= n)
                    SIM_CHECK(got >= n, "avail-result", "tryMakeBytesAvailable(%u) at %llu returned %u with %llu bytes left", n, (unsigned long long) s.pos, got, (unsigned long long) s.left());
                else
                    SIM_CHECK(got == s.left(), "avail-result", "tryMakeBytesAvailable(%u) at %llu returned %u with %llu bytes left", n, (unsigned long long) s.pos, got, (unsigned long long) s.left());
                SIM_CHECK((u32) ins->numBytesAvailable() >= (got < n ? got : n), "avail-result", "tryMakeBytesAvailable(%u) returned %u but %d bytes are in the buffer", n, got, ins->numBytesAvailable());
                s.checkAvail(ins.get(), "tryMakeBytesAvailable(n)");
                u32 lim = ins->numBytesAvailable();
                u32 k = W.below((lim < n ? lim : n) + 1);
                for (u32 j = 0; j < k; j++)
                    SIM_CHECK(ins->peekByte(j) == s.data[s.pos + j], "wrong-bytes", "peekByte(%u) at %llu is wrong", j, (unsigned long long) s.pos);
                ins->advanceByte(k);
                s.pos += k;
                break;
            }
            case 5: { // move
                std::unique_ptr<InStream> other;
                if (W.below(2)) {
                    other.reset(new InStream{std::move(*ins)});
                } else {
                    other.reset(new InStream);
                    *other = std::move(*ins);
                }
                SIM_CHECK(ins->atEOF() && ins->numBytesAvailable() == 0, "moved-from", "a moved-from InStream still has data");
                ins = std::move(other);
                break;
            }
            case 6: // save a position
                if (saved.size() < 4)
                    saved.push_back(Saved{ins->getBlockRef(), s.pos});
                break;
            case 7: { // rewind
                if (saved.empty())
                    break;
                Saved& sp = saved[W.below((u32) saved.size())];
                ins->rewind(sp.ref);
                sim::log("rewind %llu -> %llu", (unsigned long long) s.pos, (unsigned long long) sp.pos);
                sim::hit("rewind");
                SIM_CHECK(!ins->atEOF(), "eof-after-rewind", "rewind() left atEOF() set");
                s.pos = sp.pos;
                break;
            }
            case 8: // forget a position
                if (!saved.empty()) {
                    saved.erase(saved.begin() + W.below((u32) saved.size()));
                }
                break;
            case 9: { // text between a saved position and here
                if (saved.empty())
                    break;
                Saved& sp = saved[W.below((u32) saved.size())];
                if (sp.pos > s.pos)
                    break;
                String t = BlockList::toString(BlockList::Ref{sp.ref}, ins->getBlockRef());
                sim::hit("toString-range");
                SIM_CHECK(str(t) == s.data.substr(sp.pos, s.pos - sp.pos), "wrong-range", "the text between saved position %llu and position %llu is wrong (%u bytes)", (unsigned long long) sp.pos, (unsigned long long) s.pos, t.numBytes);
                break;
            }
            case 10: {
                if (W.chance(0.8))
                    break;
                String t = ins->readRemainingContents();
                SIM_CHECK(str(t) == s.data.substr(s.pos, s.left()), "wrong-remaining", "readRemainingContents() at %llu returned %u bytes instead of the %llu left", (unsigned long long) s.pos, t.numBytes, (unsigned long long) s.left());
                SIM_CHECK(ins->atEOF(), "eof-not-set", "readRemainingContents() did not set atEOF()");
                s.pos = s.limit;
                char z = 1;
                SIM_CHECK(!ins->read({&z, 1}), "read-result", "read after readRemainingContents() succeeded");
                sim::hit("readRemaining");
                return;
            }
        }
        s.checkAvail(ins.get(), "operation");
        if (hasGetSeek)
            SIM_CHECK(ins->getSeekPos() == s.pos, "seekpos", "getSeekPos() is %llu at position %llu", (unsigned long long) ins->getSeekPos(), (unsigned long long) s.pos);
    }
    // Drain: everything that is left comes out, once.
    while (s.left()) {
        u32 n = 1 + W.below(block * 2);
        buf.assign(n, 0);
        u64 m = n < s.left() ? n : s.left();
        bool ok = ins->read({&buf[0], n});
        SIM_CHECK(ok == (m == n), "read-result", "read(%u) with %llu bytes left returned %s", n, (unsigned long long) s.left(), ok ? "true" : "false");
        SIM_CHECK(memcmp(buf.data(), s.data.data() + s.pos, m) == 0, "wrong-bytes", "the drain at %llu delivered bytes that are not the source's", (unsigned long long) s.pos);
        s.pos += m;
    }
    SIM_CHECK(ins->tryMakeBytesAvailable() == 0 && ins->atEOF(), "past-end", "bytes appeared after the end of the source");
    if (!saved.empty() && W.chance(0.5)) {
        Saved& sp = saved[0];
        ins->rewind(sp.ref);
        s.pos = sp.pos;
        String t = ins->readRemainingContents();
        SIM_CHECK(str(t) == s.data.substr(s.pos), "wrong-remaining", "after rewinding from the end to %llu: %u bytes instead of %llu", (unsigned long long) s.pos, t.numBytes, (unsigned long long) s.left());
        sim::hit("rewind-from-end");
    }
}

void c01() {
    Session s;
    u32 blockExp = 7 + W.below(6);
    u32 block = 1u << blockExp;
    u32 size = W.below(4) ? sizeDraw(block) : W.below(block * 6);
    s.data = patternBytes(size, W.next());
    s.limit = size;
    u64 heapBase = sim::heapLive();
    u32 nops = 2 + W.below(30);
    u32 src = W.below(10);
    if (src < 6) {
        u32 piece = W.below(3) == 0 ? 0 : (W.below(2) ? 1 + W.below(8) : 1 + W.below(block));
        if (W.chance(0.2)) { // the source fails part-way: the stream ends there
            s.limit = W.below(size + 1);
            s.data.resize(s.limit);
            sim::faultFired(sim::FT_READ_ERR);
        }
        bool destroyed = false;
        if (W.below(2)) {
            drive(s, InStream{Owned<FragInPipe>::create(&s.data, s.limit, piece, &destroyed), blockExp}, nops, block, true);
            SIM_CHECK(destroyed, "pipe-leak", "the InStream owned its InPipe but did not destroy it");
        } else {
            FragInPipe pipe{&s.data, s.limit, piece, &destroyed};
            drive(s, InStream{borrow(&pipe), blockExp}, nops, block, true);
            SIM_CHECK(!destroyed, "pipe-destroyed", "the InStream destroyed an InPipe it only borrowed");
        }
    } else if (src < 8) { // a view
        s.viewType = true;
        ViewInStream vins{sv(s.data)};
        drive(s, std::move(vins), nops, block, true);
    } else { // a real descriptor
        sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0.2 : 0;
        sim::faultRate[sim::FT_SHORT_READ] = W.below(2) ? 0.4 : 0;
        if (src == 8) {
            sim::k::writeFile("/f", s.data);
            int fd = open("/f", O_RDONLY);
            if (fd < 0)
                sim::discard("open");
            drive(s, InStream{Owned<InPipe_FD>::create(fd), blockExp}, nops, block, true);
        } else {
            int fds[2];
            if (pipe(fds))
                sim::discard("pipe");
            sim::k::net.pipeCap = 1 + W.below(8192);
            sim::randomSchedule(false);
            u32 wr = sim::spawn("writer", [&] {
                u64 p = 0;
                while (p < s.data.size()) {
                    u64 n = 1 + W.below(3000);
                    if (n > s.data.size() - p)
                        n = s.data.size() - p;
                    ssize_t r = write(fds[1], s.data.data() + p, n);
                    if (r > 0)
                        p += r;
                    else if (r < 0 && errno != EINTR)
                        break;
                }
                close(fds[1]);
            });
            drive(s, InStream{Owned<InPipe_FD>::create(fds[0]), blockExp}, nops, block, true);
            // (the reader may leave early; the writer then gets EPIPE and stops by itself)
            (void) wr;
        }
    }
    SIM_CHECK(sim::heapLive() == heapBase || src == 9, "leak", "%llu heap blocks are still allocated after the streams were destroyed", (unsigned long long) (sim::heapLive() - heapBase));
}
SIM_PROP("C01", c01, "InStream delivery integrity");
} // namespace
