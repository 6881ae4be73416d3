#include "common.h"
namespace wl {
static void fragDestroy(InPipe* p) {
    FragInPipe* f = static_cast<FragInPipe*>(p);
    if (f->destroyed) {
        SIM_CHECK(!*f->destroyed, "pipe-destroyed-twice", "the input pipe was destroyed twice");
        *f->destroyed = true;
    }
}
static u32 fragRead(InPipe* p, MutableStringView buf) {
    FragInPipe* f = static_cast<FragInPipe*>(p);
    SIM_CHECK(buf.numBytes > 0, "empty-read", "readSome() was asked to fill an empty buffer");
    sim::heapCheckRange(buf.bytes, buf.numBytes, true);
    f->calls++;
    u64 left = f->limit - f->pos;
    if (left == 0)
        return 0;
    u64 n = left < buf.numBytes ? left : buf.numBytes;
    if (f->maxPiece) {
        u64 m = 1 + F.below(f->maxPiece);
        if (m < n) {
            n = m;
            sim::faultFired(sim::FT_SHORT_READ);
        }
    }
    memcpy(buf.bytes, f->data->data() + f->pos, n);
    f->pos += n;
    return (u32) n;
}
InPipe::Funcs FragInPipe::Funcs_ = {fragDestroy, fragRead, InPipe::getFileSize_Unsupported};

static void recDestroy(OutPipe* p) {
    RecOutPipe* r = static_cast<RecOutPipe*>(p);
    if (r->destroyed) {
        SIM_CHECK(!*r->destroyed, "pipe-destroyed-twice", "the output pipe was destroyed twice");
        *r->destroyed = true;
    }
}
static bool recWrite(OutPipe* p, StringView buf) {
    RecOutPipe* r = static_cast<RecOutPipe*>(p);
    sim::heapCheckRange(buf.bytes, buf.numBytes, false);
    if (r->failed) {
        r->writesAfterFail++;
        return false;
    }
    u64 room = r->failAt - r->rec->size();
    if (buf.numBytes > room) {
        r->rec->append(buf.bytes, room);
        r->failed = true;
        sim::faultFired(sim::FT_WRITE_ERR);
        return false;
    }
    r->rec->append(buf.bytes, buf.numBytes);
    return true;
}
static bool recFlush(OutPipe* p, bool toDevice) {
    RecOutPipe* r = static_cast<RecOutPipe*>(p);
    if (r->flushes && toDevice)
        ++*r->flushes;
    return !r->failed;
}
static u64 recSeek(OutPipe*, s64, SeekDir) {
    return 0;
}
OutPipe::Funcs RecOutPipe::Funcs_ = {recDestroy, recWrite, recFlush, recSeek};
} // namespace wl
