// C21: parsing text from a stream depends on the text only, not on how it arrives.
#include "common.h"
#include <ply-runtime/io/impl/Pipe_FD.h>
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <unistd.h>
#include <memory>
using namespace wl;

namespace {
typedef unsigned __int128 u128_;
struct Want { // what an operation has to do
    u64 pos = 0;
    bool error = false;
    bool anyErr = false; // the error isn't checked
    bool looked = false; // the end of the input was looked at
    bool valueOk = true; // the value is checked
    u64 u = 0;
    double d = 0;
    std::string s;
    std::vector<int> errs;
};
struct Text {
    std::string t;
    int at(u64 p) const {
        return p < t.size() ? (u8) t[p] : -1;
    }
};
int digitOf(int c, u32 radix) {
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
    return d < (int) radix ? d : -1;
}
Want wantU64(const Text& x, u64 p, u32 radix) {
    Want w;
    u128_ v = 0;
    bool any = false, over = false;
    int d;
    while ((d = digitOf(x.at(p), radix)) >= 0) {
        v = v * radix + (u32) d;
        if (v >> 64) {
            over = true;
            v &= 0xffffffffffffull;
        }
        any = true;
        p++;
    }
    w.looked = x.at(p) < 0;
    w.pos = p;
    w.error = !any || over;
    w.u = w.error ? 0 : (u64) v;
    return w;
}
Want wantS64(const Text& x, u64 p, u32 radix) {
    bool neg = x.at(p) == '-';
    Want w = wantU64(x, p + neg, radix);
    w.looked |= x.at(p) < 0;
    u64 lim = neg ? 1ull << 63 : (1ull << 63) - 1;
    if (w.u > lim) {
        w.error = true;
        w.valueOk = false;
    }
    if (neg)
        w.u = 0 - w.u;
    return w;
}
Want wantDouble(const Text& x, u64 p, u32 radix) {
    Want w;
    bool neg = x.at(p) == '-';
    p += neg;
    long double v = 0;
    bool any = false;
    int d;
    while ((d = digitOf(x.at(p), radix)) >= 0) {
        v = v * radix + d;
        any = true;
        p++;
    }
    if (x.at(p) == '.') {
        p++;
        long double sig = 1;
        bool frac = false;
        while ((d = digitOf(x.at(p), radix)) >= 0) {
            sig /= radix;
            v += sig * d;
            p++;
            frac = true;
        }
        if (!any && frac)
            w.anyErr = true; // ".5": not specified
    }
    if (any && (x.at(p) | 0x20) == 'e' && x.at(p) > 0) {
        p++;
        bool negE = x.at(p) == '-';
        if (x.at(p) == '+' || negE)
            p++;
        any = false;
        long double e = 0;
        while ((d = digitOf(x.at(p), radix)) >= 0) {
            e = e * radix + d;
            any = true;
            p++;
        }
        if (e > 60)
            w.valueOk = false; // beyond what a double holds in some radix
        else
            v *= powl((long double) radix, negE ? -e : e);
    }
    w.looked = x.at(p) < 0;
    w.pos = p;
    w.error = !any;
    w.d = (double) (neg ? -v : v);
    if (!(fabs(w.d) < 1e300))
        w.valueOk = false;
    return w;
}
Want wantIdent(const Text& x, u64 p, u32 flags) {
    Want w;
    u64 p0 = p;
    for (;; p++) {
        int c = x.at(p);
        bool ok = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c >= 128 || (c == '$' && (flags & fmt::WithDollarSign)) || (c == '-' && (flags & fmt::WithDash)) ||
                  (c >= '0' && c <= '9' && p > p0);
        if (!ok)
            break;
    }
    w.looked = x.at(p) < 0;
    w.pos = p;
    w.error = p == p0;
    w.u = !w.error;
    return w;
}
Want wantQuoted(const Text& x, u64 p, bool single) {
    Want w;
    auto fail = [&](int e) {
        w.errs.push_back(e);
        w.error = true;
    };
    int q = x.at(p);
    w.pos = p;
    if (q < 0) {
        w.looked = true;
        fail(fmt::QuotedString::UnexpectedEndOfFile);
        return w;
    }
    if (!(q == '"' || (single && q == '\''))) {
        fail(fmt::QuotedString::NoOpeningQuote);
        return w;
    }
    p++;
    bool triple = x.at(p) == q && x.at(p + 1) == q;
    if (!triple && x.at(p) == q) { // empty
        w.pos = p + 1;
        return w;
    }
    if (triple)
        p += 2;
    for (;;) {
        int c = x.at(p);
        if (c < 0) {
            fail(fmt::QuotedString::UnexpectedEndOfFile);
            w.looked = true;
            // quotes at the very end may be held back as possibly the closing ones
            if (triple)
                w.valueOk = false;
            break;
        }
        if (c == q) {
            if (!triple) {
                p++;
                break;
            }
            if (x.at(p + 1) == q && x.at(p + 2) == q) {
                p += 3;
                break;
            }
            w.s += (char) c;
            p++;
            continue;
        }
        if (c == '\n' || c == '\r') {
            if (!triple) {
                fail(fmt::QuotedString::UnexpectedEndOfLine);
                break;
            }
            if (c == '\n')
                w.s += '\n';
            p++;
            continue;
        }
        if (c == '\\') {
            p++;
            c = x.at(p);
            if (c < 0) {
                fail(fmt::QuotedString::UnexpectedEndOfFile);
                w.looked = true;
                break;
            }
            if (c == '\n' || c == '\r') {
                fail(fmt::QuotedString::UnexpectedEndOfLine);
                break;
            }
            if (c == '\\' || c == '\'' || c == '"')
                w.s += (char) c;
            else if (c == 'r')
                w.s += '\r';
            else if (c == 'n')
                w.s += '\n';
            else if (c == 't')
                w.s += '\t';
            else if (c == 'x') { // two hexadecimal digits
                u32 v = 0, k = 0;
                bool end = false;
                for (p++; k < 2; k++, p++) {
                    int h = x.at(p);
                    end = h < 0;
                    if (end || !isxdigit(h))
                        break;
                    v = v * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
                }
                if (end) {
                    fail(fmt::QuotedString::UnexpectedEndOfFile);
                    w.looked = true;
                    break;
                }
                if (k == 2)
                    w.s += (char) v;
                else
                    fail(fmt::QuotedString::BadEscapeSequence);
                continue;
            } else
                fail(fmt::QuotedString::BadEscapeSequence);
            p++;
            continue;
        }
        w.s += (char) c;
        p++;
    }
    w.pos = p;
    return w;
}
bool isWs(int c) {
    return c == ' ' || c == '\t' || c == '\r' || c == '\n';
}

//---------------------------------------------------------------- texts
std::string number(u32 radix) {
    static const char digs[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    std::string s;
    if (W.chance(0.2))
        s += "-";
    if (W.chance(0.25)) { // around the limits
        static const u64 lims[] = {0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 0x71c71c71c71c71bull};
        u128_ v = (u128_) lims[W.below(13)] + W.below(4) - (W.chance(0.5) ? 1 : 0);
        if (W.chance(0.1))
            v = v * radix + W.below(radix);
        std::string r;
        while (v) {
            u32 d = (u32) (v % radix);
            r += digs[d + (d >= 10 && W.chance(0.3) ? 26 : 0)];
            v /= radix;
        }
        std::reverse(r.begin(), r.end());
        return s + (W.chance(0.1) ? std::string(W.below(200), '0') : "") + (r.empty() ? "0" : r);
    }
    u32 n = W.chance(0.1) ? W.below(150) : 1 + W.below(W.chance(0.5) ? 3 : 22);
    for (u32 i = 0; i < n; i++) {
        u32 d = W.below(radix);
        s += digs[d + (d >= 10 && W.chance(0.3) ? 26 : 0)];
    }
    return s;
}
u32 big = 1; // makes some texts much longer than a buffer
std::string fraction(u32 radix) {
    static const char digs[] = "0123456789abcdefghijklmnopqrstuvwxyz";
    std::string s = W.chance(0.3) ? "-" : "";
    u32 n = W.chance(0.05) ? 0 : 1 + W.below(W.chance(0.1) ? 60 : 12);
    bool small = W.chance(0.15); // 0.000…0001234: the first digits that count come late
    for (u32 i = 0; i < n; i++)
        s += digs[small ? 0 : W.below(radix)];
    if (small || W.chance(0.8)) {
        s += ".";
        if (small)
            s += std::string(W.below(150), '0');
        n = W.below(W.chance(0.3) ? 80 : 10);
        for (u32 i = 0; i < n; i++)
            s += digs[W.below(radix)];
    }
    if (W.chance(0.4) && radix <= 14) {
        s += W.chance(0.5) ? "e" : "E";
        s += W.chance(0.3) ? "+" : W.chance(0.5) ? "-" : "";
        if (W.chance(0.9)) {
            std::string e;
            for (u32 v = W.below(40); e.empty() || v; v /= radix)
                e.insert(e.begin(), digs[v % radix]);
            s += e;
        }
    }
    return s;
}
std::string ident() {
    static const char cs[] = "abzABZ__$-\x80\xff\xc3\xa9" "0189";
    std::string s;
    u32 n = W.chance(0.1) ? W.below(600 * big) : 1 + W.below(12);
    for (u32 i = 0; i < n; i++)
        s += cs[W.below(i ? 18 : W.chance(0.9) ? 14 : 18)];
    return s;
}
std::string quoted() {
    static const char* parts[] = {"a", "bcd ", "\\n", "\\t", "\\r", "\\\\", "\\\"", "\\'", "'", "\xc3\xa9", "x", "\\x0b", "\\xFf", "\\x", "\n", "\r\n", "\"", "\"\"", "\\", "''", "//"};
    char q = W.chance(0.7) ? '"' : '\'';
    bool triple = W.chance(0.35);
    std::string s(triple ? 3 : 1, q);
    u32 n = W.chance(0.1) ? W.below(300 * big) : W.below(8);
    for (u32 i = 0; i < n; i++)
        s += parts[W.below(triple ? 21 : W.chance(0.9) ? 13 : 21)];
    if (W.chance(0.93))
        s += std::string(triple ? 3 : 1, q);
    if (W.chance(0.1))
        s += q;
    return s;
}
std::string white() {
    static const char cs[] = " \t\r\n";
    std::string s;
    u32 n = W.chance(0.1) ? W.below(500 * big) : W.below(4);
    for (u32 i = 0; i < n; i++)
        s += cs[W.below(4)];
    return s;
}
std::string garbage() {
    std::string s;
    u32 n = W.chance(0.05) ? W.below(1500 * big) : 1 + W.below(10);
    static const char cs[] = "*/*/**/\r\r\n%>%.-+eE\"'\\(){};:,\x7f";
    for (u32 i = 0; i < n; i++)
        s += W.chance(0.1) ? (char) W.below(256) : cs[W.below(sizeof(cs) - 1)];
    return s;
}

struct Run {
    Text x;
    u64 pos = 0;
    u32 radix = 10;

    template <typename T>
    void check(InStream* ins, const Want& w, const char* op, T) {
        std::string around = sim::escape(x.t.substr(pos, 40), 60);
        SIM_CHECK(ins->getSeekPos() == w.pos, "consumed", "%s at %llu of '%s' consumed %lld characters instead of %lld", op, (unsigned long long) pos, around.c_str(),
                  (long long) (ins->getSeekPos() - pos), (long long) (w.pos - pos));
        if (!w.anyErr)
            SIM_CHECK(ins->anyParseError() == w.error, "parse-error", "%s at %llu of '%s' reported %s", op, (unsigned long long) pos, around.c_str(), ins->anyParseError() ? "an error" : "no error");
        SIM_CHECK(!w.looked || ins->atEOF(), "eof-not-set", "%s read up to the end, but atEOF() is false", op);
        SIM_CHECK(!ins->atEOF() || w.pos == x.t.size(), "early-eof", "%s ended with atEOF() %llu characters before the end", op, (unsigned long long) (x.t.size() - w.pos));
        ins->status.parseError = 0;
        pos = w.pos;
    }
    template <typename Fmt>
    static std::string take(InStream* ins, const Fmt& f) {
        return ins->isView() ? str(ins->asViewInStream()->readView(f)) : str(ins->readString(f));
    }
    template <typename T>
    static std::string takeNumber(InStream* ins, u32 radix) {
        return ins->isView() ? str(ins->asViewInStream()->readView<T>(fmt::Radix{radix})) : str(ins->readString<T>(fmt::Radix{radix}));
    }
    void text(InStream* ins, const Want& w, const char* op, std::string&& g) {
        std::string e = x.t.substr(pos, w.pos - pos);
        SIM_CHECK(g == e, "wrong-text", "%s read '%s' instead of '%s'", op, sim::escape(g, 60).c_str(), sim::escape(e, 60).c_str());
        check(ins, w, op, 0);
        sim::hit("text read");
    }
    template <typename T, bool S>
    void integer(InStream* ins, const char* op) {
        Want w = S ? wantS64(x, pos, radix) : wantU64(x, pos, radix);
        if (sizeof(T) < 8) {
            if (!w.error && (S ? (s64) (T) w.u != (s64) w.u : (u64) (T) w.u != w.u)) {
                w.error = true;
                w.u = 0;
                w.valueOk = true;
            }
            if (w.error)
                w.valueOk = false;
        }
        if (W.chance(0.3)) {
            text(ins, w, op, takeNumber<T>(ins, radix));
            return;
        }
        T v = radix == 10 && W.chance(0.5) ? ins->parse<T>() : ins->parse<T>(fmt::Radix{radix});
        if (w.valueOk)
            SIM_CHECK((u64) (s64) v == (u64) (s64) (T) w.u, "wrong-value", "%s of '%s' in base %u is %lld instead of %lld", op, sim::escape(x.t.substr(pos, w.pos - pos), 60).c_str(), radix, (long long) v,
                      (long long) w.u);
        check(ins, w, op, 0);
        sim::hit(w.error ? "bad numbers" : "numbers parsed");
    }
    void step(InStream* ins) {
        int c = x.at(pos);
        u32 op = W.below(16);
        if (W.chance(0.75)) { // something that fits
            if (c == '"' || c == '\'')
                op = 8;
            else if (isWs(c))
                op = W.chance(0.8) ? 9 : 10;
            else if (digitOf(c, radix) >= 0 || c == '-')
                op = W.chance(0.2) ? 6 : W.below(8);
            else if (c >= 'A')
                op = 7;
        }
        radix = W.chance(0.6) ? radix : W.chance(0.5) ? 10 : 2 + W.below(35);
        switch (op) {
            case 0:
                integer<u64, false>(ins, "parse<u64>");
                break;
            case 1:
                integer<s64, true>(ins, "parse<s64>");
                break;
            case 2:
                integer<u32, false>(ins, "parse<u32>");
                break;
            case 3:
                integer<s32, true>(ins, "parse<s32>");
                break;
            case 4:
                if (W.chance(0.5))
                    integer<u16, false>(ins, "parse<u16>");
                else
                    integer<s16, true>(ins, "parse<s16>");
                break;
            case 5:
                if (W.chance(0.5))
                    integer<u8, false>(ins, "parse<u8>");
                else
                    integer<s8, true>(ins, "parse<s8>");
                break;
            case 6: {
                Want w = wantDouble(x, pos, radix);
                if (W.chance(0.3)) {
                    text(ins, w, "parse<double>", takeNumber<double>(ins, radix));
                    break;
                }
                bool f = W.chance(0.2);
                double v = f ? ins->parse<float>(fmt::Radix{radix}) : ins->parse<double>(fmt::Radix{radix});
                double tol = f ? 1e-6 : 1e-13;
                if (w.valueOk && !w.error && !(f && (fabs(w.d) > 1e38 || fabs(w.d) < 1e-37)))
                    SIM_CHECK(fabs(v - w.d) <= fabs(w.d) * tol, "wrong-value", "parse<double> of '%s' in base %u is %.17g instead of %.17g", sim::escape(x.t.substr(pos, w.pos - pos), 100).c_str(), radix, v, w.d);
                check(ins, w, "parse<double>", 0);
                sim::hit("floating-point numbers parsed");
                break;
            }
            case 7: {
                u32 flags = W.below(4);
                Want w = wantIdent(x, pos, flags);
                if (W.chance(0.5)) {
                    text(ins, w, "parse<Identifier>", take(ins, fmt::Identifier{flags}));
                } else {
                    bool ok = ins->parse(fmt::Identifier{flags});
                    SIM_CHECK(ok == !w.error, "wrong-value", "parse<Identifier> returned %d at '%s'", ok, sim::escape(x.t.substr(pos, 20)).c_str());
                    check(ins, w, "parse<Identifier>", 0);
                }
                sim::hit("identifiers parsed");
                break;
            }
            case 8: {
                bool single = W.chance(0.7), cb = W.chance(0.5);
                Want w = wantQuoted(x, pos, single);
                std::vector<int> errs;
                fmt::QuotedString f;
                f.flags = single ? fmt::AllowSingleQuote : 0;
                if (cb)
                    f.errorCallback = {+[](std::vector<int>* es, InStream*, fmt::QuotedString::ErrorCode e) { es->push_back((int) e); }, &errs};
                if (W.chance(0.2)) {
                    text(ins, w, "parse<QuotedString>", take(ins, f));
                } else {
                    String v = ins->parse(f);
                    if (w.valueOk)
                        SIM_CHECK(str(v) == w.s, "wrong-value", "parse<QuotedString> of '%s' is '%s' instead of '%s'", sim::escape(x.t.substr(pos, w.pos - pos), 80).c_str(), sim::escape(str(v), 80).c_str(),
                                  sim::escape(w.s, 80).c_str());
                    check(ins, w, "parse<QuotedString>", 0);
                }
                if (cb)
                    SIM_CHECK(errs == w.errs, "wrong-errors", "parse<QuotedString> reported %zu errors (first %d) instead of %zu (first %d)", errs.size(), errs.size() ? errs[0] : -1, w.errs.size(),
                              w.errs.size() ? w.errs[0] : -1);
                sim::hit(w.error ? "bad quoted strings" : "quoted strings parsed");
                break;
            }
            case 9:
            case 10:
            case 11: { // runs of characters
                Want w;
                u64 p = pos;
                u32 salt = W.below(7);
                auto in = [&](int ch) { return ch >= 0 && (op == 9 ? isWs(ch) : op == 10 ? !isWs(ch) : ((u32) ch + salt) % 7 != 0); };
                while (in(x.at(p)))
                    p++;
                w.pos = p;
                w.looked = x.at(p) < 0;
                bool t = W.chance(0.4);
                auto cb = [&](char ch) { return in((u8) ch); };
                if (op == 9) {
                    if (t)
                        text(ins, w, "parse<Whitespace>", take(ins, fmt::Whitespace{}));
                    else
                        ins->parse<fmt::Whitespace>();
                } else if (op == 10) {
                    if (t)
                        text(ins, w, "parse<NonWhitespace>", take(ins, fmt::NonWhitespace{}));
                    else
                        ins->parse<fmt::NonWhitespace>();
                } else {
                    if (t)
                        text(ins, w, "parse<Callback>", take(ins, fmt::Callback{cb}));
                    else
                        ins->parse(fmt::Callback{cb});
                }
                if (!t)
                    check(ins, w, "parsing a run of characters", 0);
                break;
            }
            case 12:
            case 13: {
                Want w;
                size_t e = x.t.find('\n', pos);
                w.pos = e == std::string::npos ? x.t.size() : e + 1;
                w.looked = w.error = e == std::string::npos;
                if (W.chance(0.7)) {
                    text(ins, w, "readString<Line>", take(ins, fmt::Line{}));
                } else {
                    bool ok = ins->parse<fmt::Line>();
                    SIM_CHECK(ok == !w.error, "wrong-value", "parse<Line> returned %d", ok);
                    check(ins, w, "parse<Line>", 0);
                }
                sim::hit("lines read");
                break;
            }
            case 14: {
                static const char* sp[] = {"*/", "%>", "\r\n", "abc", "e", "\"'", "*/*" + 1};
                const char* m = sp[W.below(7)];
                Want w;
                size_t e = x.t.find(m, pos);
                w.pos = e == std::string::npos ? x.t.size() : e + strlen(m);
                w.looked = w.error = e == std::string::npos;
                bool ok = fmt::scanUpToAndIncludingSpecial(ins, m);
                SIM_CHECK(ok == !w.error, "wrong-value", "scanning up to '%s' returned %d", sim::escape(m).c_str(), ok);
                check(ins, w, "scanning up to a string", 0);
                sim::hit("scanned to a string");
                break;
            }
            case 15: { // a value that's tried as one thing, then as another
                if (ins->isView())
                    break;
                BlockList::Ref start = ins->getBlockRef();
                u64 p = pos;
                radix = 10;
                integer<u64, false>(ins, "parse<u64>");
                ins->rewind(start);
                pos = p;
                SIM_CHECK(ins->getSeekPos() == pos, "rewind", "rewinding went to %llu instead of %llu", (unsigned long long) ins->getSeekPos(), (unsigned long long) pos);
                break;
            }
        }
    }
    void drive(InStream&& ins0) {
        InStream ins{std::move(ins0)};
        u32 n = 3 + W.below(60);
        for (u32 i = 0; i < n; i++) {
            if (pos == x.t.size() && W.chance(0.5))
                break;
            step(&ins);
        }
        sim::hit("streams parsed");
    }
};

//---------------------------------------------------------------- numbers printed and read back
void printed() {
    std::string out;
    auto destroyed = false;
    u32 n = 1 + W.below(30);
    struct Item {
        u32 kind, radix;
        u64 v;
        double d;
        std::string s;
    };
    std::vector<Item> items;
    std::string rec;
    {
        Owned<RecOutPipe> pipe = Owned<RecOutPipe>::create(&rec, ~0ull, &destroyed);
        OutStream outs{std::move(pipe), 7 + W.below(6)};
        for (u32 i = 0; i < n; i++) {
            Item it;
            it.kind = W.below(8);
            it.radix = 2 + W.below(35);
            it.v = ((u64) W.next() << 32 | W.next()) >> W.below(64);
            if (W.chance(0.1))
                it.v = W.chance(0.5) ? 1ull << 63 : ~0ull;
            it.d = 0;
            bool cap = W.chance(0.5);
            switch (it.kind) {
                case 0:
                    outs << it.v << '\n';
                    break;
                case 1:
                    outs << (s64) it.v << '\n';
                    break;
                case 2:
                    outs.format("{}\n", fmt::WithRadix{it.v, it.radix, cap});
                    break;
                case 3:
                    outs.format("{}\n", fmt::WithRadix{(s64) it.v, it.radix, cap});
                    break;
                case 4:
                    it.radix = 16;
                    outs << fmt::Hex{it.v, cap} << '\n';
                    break;
                case 5: {
                    it.d = (double) (s64) it.v * pow(10, (double) W.below(40) - 25);
                    if (W.chance(0.1))
                        it.d = 0;
                    String t = String::from(it.d);
                    outs.format("{}\n", t);
                    break;
                }
                case 6: { // quoted
                    std::string s;
                    u32 k = W.below(W.chance(0.1) ? 400 : 20);
                    static const char cs[] = "ab0f \"\\\r\n\t'<>&\xc3\x80{}\x00\x01\x0b\x1f\x7f\xc0\xa2\xe0\xf4";
                    for (u32 j = 0; j < k; j++)
                        s += cs[W.below(sizeof(cs) - 1)];
                    it.s = s;
                    outs.format("\"{}\"\n", fmt::EscapedString{sv(it.s)});
                    break;
                }
                case 7:
                    outs.format("{{{}}}{}\n", (s32) it.v, W.chance(0.5) ? StringView{"true"} : StringView{"false"});
                    break;
            }
            items.push_back(it);
        }
        outs.flush();
    }
    FragInPipe src{&rec, rec.size(), 1 + W.below(40)};
    InStream ins{borrow(&src), 7};
    for (auto& it : items) {
        switch (it.kind) {
            case 0:
            case 2:
            case 4: {
                u64 v = ins.parse<u64>(fmt::Radix{it.kind == 0 ? 10 : it.radix});
                SIM_CHECK(v == it.v && !ins.anyParseError(), "wrong-number", "%llu, printed in base %u, was read back as %llu", (unsigned long long) it.v, it.kind == 0 ? 10 : it.radix, (unsigned long long) v);
                break;
            }
            case 1:
            case 3: {
                s64 v = ins.parse<s64>(fmt::Radix{it.kind == 1 ? 10 : it.radix});
                SIM_CHECK(v == (s64) it.v && !ins.anyParseError(), "wrong-number", "%lld, printed in base %u, was read back as %lld", (long long) it.v, it.kind == 1 ? 10 : it.radix, (long long) v);
                break;
            }
            case 5: {
                double v = ins.parse<double>();
                SIM_CHECK(fabs(v - it.d) <= 0.00101 || fabs(v - it.d) <= fabs(it.d) * 0.002, "wrong-number", "%.17g was read back as %.17g", it.d, v);
                SIM_CHECK(!ins.anyParseError(), "wrong-number", "%.17g was printed in a form that can't be read", it.d);
                break;
            }
            case 6: {
                String v = ins.parse<fmt::QuotedString>();
                SIM_CHECK(str(v) == it.s && !ins.anyParseError(), "wrong-text", "'%s' was read back as '%s'", sim::escape(it.s, 60).c_str(), sim::escape(str(v), 60).c_str());
                break;
            }
            case 7: {
                SIM_CHECK(ins.readByte() == '{', "wrong-text", "'{{' wasn't printed as a brace");
                s32 v = ins.parse<s32>();
                SIM_CHECK(v == (s32) it.v && ins.readByte() == '}', "wrong-number", "%d was read back as %d", (s32) it.v, v);
                std::string b = str(ins.readString<fmt::Identifier>());
                SIM_CHECK(b == "true" || b == "false", "wrong-text", "'%s' was printed instead of a word", sim::escape(b, 20).c_str());
                break;
            }
        }
        SIM_CHECK(ins.readByte() == '\n', "wrong-text", "a printed item of kind %u is longer than what can be read of it", it.kind);
    }
    SIM_CHECK(ins.readByte() == 0 && ins.atEOF(), "wrong-text", "more was printed than was to be");
    sim::hit("printed and read back");
    // String conversions
    for (u32 i = 0; i < 6; i++) {
        std::string s = white() + number(10) + (W.chance(0.8) ? white() : garbage());
        size_t a = 0, b = s.size();
        while (a < b && isWs((u8) s[a]))
            a++;
        while (b > a && isWs((u8) s[b - 1]))
            b--;
        Text x;
        x.t = s.substr(a, b - a);
        Want w = wantS64(x, 0, 10);
        bool ok = !w.error && w.pos == x.t.size() && (s64) (s32) w.u == (s64) w.u;
        s32 v = sv(s).to<s32>(-77);
        SIM_CHECK(v == (ok ? (s32) w.u : -77), "wrong-value", "'%s' was converted to %d", sim::escape(s, 60).c_str(), v);
    }
}

void c21() {
    if (W.chance(0.2)) {
        printed();
        return;
    }
    Run r;
    r.radix = W.chance(0.5) ? 10 : 2 + W.below(35);
    big = W.chance(0.01) ? 30 : 1;
    u32 n = 1 + W.below(40);
    for (u32 i = 0; i < n; i++) {
        switch (W.below(6)) {
            case 0:
                r.x.t += number(r.radix);
                break;
            case 1:
                r.x.t += fraction(r.radix);
                break;
            case 2:
                r.x.t += ident();
                break;
            case 3:
                r.x.t += quoted();
                break;
            case 4:
                r.x.t += W.chance(0.3) ? "\n" : white();
                break;
            case 5:
                r.x.t += garbage();
                break;
        }
        if (W.chance(0.5))
            r.x.t += white();
    }

    u32 src = W.below(10);
    u32 blockExp = 7 + W.below(6);
    std::string data = r.x.t;
    if (src < 5) {
        u32 piece = W.below(3) == 0 ? 0 : (W.below(2) ? 1 + W.below(4) : 1 + W.below(200));
        if (W.chance(0.2)) { // the source fails, which ends the text
            r.x.t.resize(W.below((u32) data.size() + 1));
            sim::faultFired(sim::FT_READ_ERR);
        }
        FragInPipe pipe{&data, r.x.t.size(), piece};
        r.drive(InStream{borrow(&pipe), blockExp});
    } else if (src < 6) {
        ViewInStream v{sv(data)};
        r.drive(std::move(v));
    } else {
        sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0.2 : 0;
        sim::faultRate[sim::FT_SHORT_READ] = W.below(2) ? 0.5 : 0;
        if (src == 6) {
            sim::k::writeFile("/f", data);
            int fd = open("/f", O_RDONLY);
            if (fd < 0)
                sim::discard("open");
            r.drive(InStream{Owned<InPipe_FD>::create(fd), blockExp});
        } else {
            int fds[2];
            if (pipe(fds))
                sim::discard("pipe");
            sim::k::net.pipeCap = 1 + W.below(1000);
            sim::randomSchedule(false);
            sim::spawn("writer", [&] {
                u64 p = 0;
                while (p < data.size()) {
                    u64 k = 1 + W.below(W.chance(0.5) ? 10 : 500);
                    if (k > data.size() - p)
                        k = data.size() - p;
                    ssize_t w = write(fds[1], data.data() + p, k);
                    if (w > 0)
                        p += (u64) w;
                    else if (w < 0 && errno != EINTR)
                        break;
                }
                close(fds[1]);
            });
            r.drive(InStream{Owned<InPipe_FD>::create(fds[0]), blockExp});
        }
    }
}
SIM_PROP("C21", c21, "text parsed from streams, against an independent parser");
} // namespace
