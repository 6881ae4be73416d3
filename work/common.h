// Helpers shared by the workloads.
#pragma once
#include <sim.h>
#include <kern.h>
#include <string>
#include <ply-runtime/Base.h>
#include <ply-runtime/io/InStream.h>
#include <ply-runtime/io/OutStream.h>

namespace wl {
using namespace ply;
using sim::W;
using sim::F;

inline StringView sv(const std::string& s) {
    return {s.data(), (u32) s.size()};
}
inline std::string str(StringView v) {
    return std::string(v.bytes, v.numBytes);
}
inline std::string randBytes(u32 n, u32 alphabet = 256) {
    std::string s;
    s.reserve(n);
    while (s.size() < n) {
        u32 v = W.next();
        for (u32 i = 0; i < 4 && s.size() < n; i++, v >>= 8)
            s.push_back((char) (alphabet == 256 ? (v & 255) : 'a' + (v & 255) % alphabet));
    }
    return s;
}
// Position-dependent contents: any loss, duplication or reordering shows.
__attribute__((no_sanitize("thread"))) inline void fillPattern(char* p, u32 n, u32 salt) {
    u64 x = salt * 0x9e3779b97f4a7c15ull + 1;
    for (u32 i = 0; i < n; i++) {
        if ((i & 7) == 0) {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
        }
        p[i] = (char) (x >> ((i & 7) * 8));
    }
}
inline std::string patternBytes(u32 n, u32 salt) {
    std::string s(n, 0);
    fillPattern(&s[0], n, salt);
    return s;
}
inline u32 sizeDraw(u32 block) { // sizes around interesting boundaries
    switch (W.below(6)) {
        case 0:
            return W.below(16);
        case 1:
            return W.below(block);
        case 2:
            return block - 3 + W.below(7);
        case 3:
            return W.below(block * 4);
        case 4:
            return block * 2 - 3 + W.below(7);
        default:
            return 1 + W.below(block / 4 + 1);
    }
}

// An input pipe that delivers `data` in pieces and then reports the end of the stream
// (which is also how an InPipe reports an error).
struct FragInPipe : InPipe {
    static Funcs Funcs_;
    const std::string* data;
    u64 pos = 0;
    u64 limit; // bytes delivered before EOF or the error
    u32 maxPiece;
    bool* destroyed;
    u32 calls = 0;
    FragInPipe(const std::string* data, u64 limit, u32 maxPiece, bool* destroyed = nullptr)
        : InPipe{&Funcs_}, data{data}, limit{limit}, maxPiece{maxPiece}, destroyed{destroyed} {
    }
};
// An output pipe that records what it accepted and fails for good after `failAt` bytes.
struct RecOutPipe : OutPipe {
    static Funcs Funcs_;
    std::string* rec;
    u64 failAt;
    bool* destroyed;
    u32* flushes;
    bool failed = false;
    u32 writesAfterFail = 0;
    RecOutPipe(std::string* rec, u64 failAt, bool* destroyed = nullptr, u32* flushes = nullptr)
        : OutPipe{&Funcs_}, rec{rec}, failAt{failAt}, destroyed{destroyed}, flushes{flushes} {
    }
};
} // namespace wl
