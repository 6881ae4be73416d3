// C02: an OutStream hands over exactly the bytes written to it, in order and once; a failing
// destination leaves a clean prefix and a stream that says so.
#include "common.h"
#include <memory>
using namespace wl;

namespace {
struct OutModel {
    std::string all;      // every byte offered to the stream
    u64 certain = 0;      // bytes that a successful flush has pushed out
    bool failed = false;  // the stream has reported the failure
};

enum Kind { PipeK, MemK, ViewK };

void c02() {
    u32 blockExp = 7 + W.below(6);
    u32 block = 1u << blockExp;
    Kind kind = W.below(4) < 2 ? PipeK : (W.below(2) ? MemK : ViewK);
    u64 failAt = ~0ull;
    if (W.chance(0.4))
        failAt = W.below(block * 5);
    std::string rec;
    bool destroyed = false;
    u32 devFlushes = 0;
    std::string viewBuf;
    u32 viewSize = 0;
    OutModel m;
    u32 nops = 1 + W.below(30);
    u64 heapBase = 0;
    rec.reserve(1 << 16);
    m.all.reserve(1 << 16);
    std::unique_ptr<RecOutPipe> own;
    Owned<RecOutPipe> ownedPipe;
    bool owned = W.below(2);
    if (kind == ViewK) {
        viewSize = sizeDraw(block);
        viewBuf.assign(viewSize + 2, '\x5a');
    }
    std::string src = patternBytes(block * 6, W.next());
    heapBase = sim::heapLive();
    {
        std::unique_ptr<OutStream> outs;
        if (kind == PipeK) {
            if (owned) {
                outs.reset(new OutStream{Owned<RecOutPipe>::create(&rec, failAt, &destroyed, &devFlushes), blockExp});
            } else {
                own.reset(new RecOutPipe{&rec, failAt, nullptr, &devFlushes});
                outs.reset(new OutStream{borrow(own.get()), blockExp});
            }
        } else if (kind == MemK) {
            outs.reset(new OutStream{MemOutStream{blockExp}});
        } else {
            outs.reset(new OutStream{ViewOutStream{{&viewBuf[1], viewSize}}});
        }
        bool expectOk = true;
        auto note = [&](StringView v) { m.all.append(v.bytes, v.numBytes); };
        u64 srcPos = 0;
        auto piece = [&](u32 n) {
            if (srcPos + n > src.size())
                srcPos = 0;
            if (n > src.size())
                n = (u32) src.size();
            StringView v{src.data() + srcPos, n};
            srcPos += n;
            return v;
        };
        u64 seekBase = 0;
        for (u32 i = 0; i < nops; i++) {
            bool wasEof = outs->atEOF();
            switch (W.below(9)) {
                case 0:
                case 1: {
                    StringView v = piece(sizeDraw(block));
                    bool ok = outs->write(v);
                    sim::log("write(%u) -> %d", v.numBytes, ok);
                    SIM_CHECK(ok == !outs->atEOF() || (v.numBytes == 0 && ok), "write-result", "write(%u) returned %d but atEOF() is %d", v.numBytes, ok, outs->atEOF());
                    SIM_CHECK(!(wasEof && ok && v.numBytes), "write-after-eof", "write(%u) returned true after the stream reported the failure", v.numBytes);
                    if (!wasEof)
                        note(v);
                    break;
                }
                case 2: {
                    u32 n = 1 + W.below(5);
                    for (u32 k = 0; k < n; k++) {
                        StringView v = piece(1);
                        bool e = outs->atEOF();
                        bool ok = outs->writeByte(v.bytes[0]);
                        SIM_CHECK(ok == !outs->atEOF(), "write-result", "writeByte() returned %d but atEOF() is %d", ok, outs->atEOF());
                        if (!e)
                            note(v);
                    }
                    break;
                }
                case 3: { // formatted output
                    u32 a = W.next();
                    s64 b = -(s64) W.next();
                    outs->format("<{}:{}>{{}}", a, b);
                    *outs << "x" << a << ',' << 'y';
                    if (!wasEof) {
                        std::string t = sim::fmt("<%u:%lld>{}", a, (long long) b) + sim::fmt("x%u,y", a);
                        m.all += t;
                    }
                    break;
                }
                case 4: { // write directly into the buffer
                    u32 n = 1 + (W.chance(0.3) ? sizeDraw(block) : W.below(32));
                    u32 got = outs->tryMakeBytesAvailable(n);
                    sim::log("tryMakeBytesAvailable(%u) -> %u", n, got);
                    if (got < n && kind == PipeK)
                        SIM_CHECK(outs->atEOF(), "avail-result", "tryMakeBytesAvailable(%u) returned %u without an error", n, got);
                    if (kind == MemK)
                        SIM_CHECK(got >= n, "avail-result", "tryMakeBytesAvailable(%u) returned %u on a memory stream", n, got);
                    SIM_CHECK(outs->numBytesAvailable() >= (got < n ? got : n), "avail-result", "tryMakeBytesAvailable(%u) returned %u but only %u bytes are available", n, got, outs->numBytesAvailable());
                    u32 k = got < n ? got : n;
                    StringView v = piece(k);
                    k = v.numBytes;
                    memcpy(outs->curByte, v.bytes, k);
                    outs->curByte += k;
                    if (!wasEof)
                        note(v);
                    break;
                }
                case 5: {
                    if (kind == ViewK)
                        break; // not allowed on a view
                    u32 n = 1 + (W.chance(0.3) ? sizeDraw(block) : W.below(32));
                    outs->makeBytesAvailable(n);
                    SIM_CHECK(outs->numBytesAvailable() >= n, "avail-result", "makeBytesAvailable(%u) made %u bytes available", n, outs->numBytesAvailable());
                    StringView v = piece(n);
                    memcpy(outs->curByte, v.bytes, v.numBytes);
                    outs->curByte += v.numBytes;
                    if (!wasEof)
                        note(v);
                    break;
                }
                case 6: { // flush
                    bool dev = W.below(2);
                    u32 before = devFlushes;
                    bool ok = outs->flush(dev);
                    sim::log("flush(%d) -> %d, %zu bytes out", dev, ok, rec.size());
                    if (kind == PipeK) {
                        SIM_CHECK(!dev || devFlushes == before + 1, "no-device-flush", "flush(true) did not flush the pipe to its device");
                        if (!outs->atEOF()) {
                            SIM_CHECK(rec.size() == m.all.size(), "flush-incomplete", "after flush() only %zu of %zu bytes reached the pipe", rec.size(), m.all.size());
                            m.certain = rec.size();
                        }
                    }
                    break;
                }
                case 7: { // move
                    if (W.below(2)) {
                        outs.reset(new OutStream{std::move(*outs)});
                    } else {
                        std::unique_ptr<OutStream> o2{new OutStream{ViewOutStream{{(char*) nullptr, 0}}}};
                        *o2 = std::move(*outs);
                        outs = std::move(o2);
                    }
                    break;
                }
                case 8:
                    if (!outs->atEOF() && kind != ViewK) {
                        SIM_CHECK(outs->getSeekPos() == seekBase + m.all.size(), "seekpos", "getSeekPos() is %llu after %zu bytes", (unsigned long long) outs->getSeekPos(), m.all.size());
                    }
                    break;
            }
            if (wasEof)
                SIM_CHECK(outs->atEOF(), "eof-not-sticky", "the stream reported a failure and then forgot it");
            if (outs->atEOF())
                expectOk = false;
            if (kind == PipeK) {
                SIM_CHECK(rec.size() <= m.all.size() && memcmp(rec.data(), m.all.data(), rec.size()) == 0, "wrong-bytes",
                          "the %zu bytes that reached the pipe are not a prefix of the %zu written", rec.size(), m.all.size());
                if (failAt == ~0ull)
                    SIM_CHECK(!outs->atEOF(), "spurious-eof", "atEOF() although no write failed");
            }
            if (kind == MemK)
                SIM_CHECK(!outs->atEOF(), "spurious-eof", "a memory stream reports atEOF()");
            if (kind == ViewK)
                SIM_CHECK(outs->atEOF() || m.all.size() <= viewSize, "view-eof", "%zu bytes written to a view of %u bytes without atEOF()", m.all.size(), viewSize);
        }
        if (kind == MemK) {
            MemOutStream mo;
            static_cast<OutStream&>(mo) = std::move(*outs);
            String t = mo.moveToString();
            SIM_CHECK(str(t) == m.all, "wrong-bytes", "moveToString() returned %u bytes that are not the %zu written", t.numBytes, m.all.size());
            sim::hit("moveToString");
        }
        if (outs->atEOF())
            sim::hit("failed-stream");
        bool eof = outs->atEOF();
        outs.reset(); // flushes
        if (kind == PipeK) {
            if (failAt == ~0ull || failAt >= m.all.size())
                SIM_CHECK(rec == m.all, "lost-on-destroy", "%zu of %zu bytes reached the pipe when the stream was destroyed", rec.size(), m.all.size());
            else
                SIM_CHECK(rec.size() == failAt && memcmp(rec.data(), m.all.data(), failAt) == 0, "wrong-bytes", "the failing pipe accepted %zu bytes, not the first %llu written", rec.size(), (unsigned long long) failAt);
            SIM_CHECK(!owned || destroyed, "pipe-leak", "the OutStream owned its OutPipe but did not destroy it");
            (void) eof;
        }
        if (kind == ViewK) {
            u64 n = m.all.size() < viewSize ? m.all.size() : viewSize;
            SIM_CHECK(viewBuf[0] == '\x5a' && viewBuf[viewSize + 1] == '\x5a', "overrun", "a view stream wrote outside its buffer");
            SIM_CHECK(memcmp(&viewBuf[1], m.all.data(), n) == 0, "wrong-bytes", "the view does not hold the bytes written");
        }
        own.reset();
    }
    SIM_CHECK(sim::heapLive() == heapBase, "leak", "%lld heap blocks leaked", (long long) (sim::heapLive() - heapBase));
}
SIM_PROP("C02", c02, "OutStream delivery integrity");
} // namespace
