// C27: Pylon documents read back as they were written, by hand or by the library; wrong ones are refused
// where they are wrong.
#include "common.h"
#include <ply-runtime/thread/Thread.h>
#include <ply-runtime/filesystem/FileSystem.h>
#include <ply-reflect/Base.h>
#include <ply-reflect/AnyOwnedObject.h>
#include <ply-reflect/AnyObject_Def.h>
#include <ply-reflect/AnySavedObject.h>
#include <ply-reflect/TypedArray.h>
#include <pylon/Core.h>
#include <pylon/Node.h>
#include <pylon/Parse.h>
#include <pylon/Write.h>
#include <pylon-reflect/Core.h>
#include <pylon-reflect/Import.h>
#include <pylon-reflect/Export.h>
#include <algorithm>
#include <math.h>
#include <map>
#include <set>
#include <memory>
using namespace wl;

namespace {
// ---------------------------------------------------------------- documents of the model
struct Doc {
    enum T { Text, Arr, Obj } t = Text;
    std::string s;
    std::vector<Doc> items;
    std::vector<std::pair<std::string, Doc>> kv;
    u64 ofs = 0;
    const Doc* get(const std::string& k) const {
        for (auto& e : kv)
            if (e.first == k)
                return &e.second;
        return nullptr;
    }
};
Doc text(const std::string& s) {
    Doc d;
    d.s = s;
    return d;
}
bool same(const Doc& a, const Doc& b) {
    if (a.t != b.t || a.s != b.s || a.items.size() != b.items.size() || a.kv.size() != b.kv.size())
        return false;
    for (size_t i = 0; i < a.items.size(); i++)
        if (!same(a.items[i], b.items[i]))
            return false;
    for (size_t i = 0; i < a.kv.size(); i++)
        if (a.kv[i].first != b.kv[i].first || !same(a.kv[i].second, b.kv[i].second))
            return false;
    return true;
}
std::string show(const std::string& s) {
    std::string r;
    for (char c : s.substr(0, 150)) {
        char b[8];
        if ((u8) c < 32 || (u8) c >= 127)
            snprintf(b, 8, "<%02x>", (u8) c);
        else
            snprintf(b, 8, "%c", c);
        r += b;
    }
    return r;
}
bool plainChar(int c) {
    return c == '_' || c == '$' || c == '-' || c == '.' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c >= 128;
}
bool plainWord(const std::string& s) {
    for (char c : s)
        if (!plainChar((u8) c))
            return false;
    return !s.empty();
}
std::string randText() {
    static const char* pool[] = {"a", "B7", "x-y.z", "$v", " ", "\"", "'", "\\", "\n", "\r", "\t", "\r\n", "\"\"\"", "'''", "{", "}", "[", "]", ":", "=", ",", ";", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x8c\xb2", "\x80", "\xff", "\xc0\xa2", "\xc0\x8a", "\xe0\x80\x9c", "\xc3", "\xe2\x82", "\x01", "\x1b", "\x7f", "\\x41", "\\n", "/", "#", "true", "0.5"};
    if (W.chance(0.004))
        return randBytes(W.below(6000));
    if (W.chance(0.1))
        return randBytes(W.below(20));
    std::string s;
    u32 n = W.chance(0.4) ? 1 : W.below(7);
    for (u32 i = 0; i < n; i++) {
        if (W.chance(0.02))
            s.push_back('\0');
        s += pool[W.below(W.chance(0.5) ? 4 : sizeof(pool) / sizeof(pool[0]))];
    }
    return s;
}
struct DocGen {
    u32 budget = 60;
    u32 names = 0;
    std::string key(const Doc& d) {
        std::string k = randText();
        while (d.get(k))
            k += std::to_string(names++);
        return k;
    }
    Doc doc(u32 depth) {
        Doc d;
        if (budget)
            budget--;
        u32 pick = depth > 6 || !budget ? 0 : W.below(5);
        if (pick < 2 && depth) {
            d.s = randText();
        } else if (pick < 3) {
            d.t = Doc::Arr;
            u32 n = W.below(6);
            if (W.chance(0.01) && depth < 2)
                n = W.below(W.chance(0.3) ? 300 : 40);
            for (u32 i = 0; i < n; i++)
                d.items.push_back(n > 10 ? text(std::to_string(i)) : doc(depth + 1));
        } else {
            d.t = Doc::Obj;
            u32 n = W.below(6);
            if (W.chance(0.02) && depth < 2)
                n = W.below(W.chance(0.3) ? 300 : 40);
            for (u32 i = 0; i < n; i++) {
                std::string k = n > 10 ? "k" + std::to_string(i) : key(d);
                d.kv.push_back({k, n > 10 ? text(std::to_string(i)) : doc(depth + 1)});
            }
        }
        return d;
    }
};

// ---------------------------------------------------------------- a document written by hand
struct Hand {
    std::string out;
    void ws(bool newline) {
        u32 n = W.below(4) ? W.below(2) : W.below(9);
        for (u32 i = 0; i < n; i++) {
            u32 k = W.below(newline ? 5 : 3);
            out += k == 0 ? " " : k == 1 ? "\t" : k == 2 ? (W.chance(0.2) ? "\r" : "  ") : k == 3 ? "\n" : "\r\n";
        }
    }
    void escaped(u8 c) {
        char b[8];
        if (c == '\n' && W.chance(0.8))
            out += "\\n";
        else if (c == '\r' && W.chance(0.8))
            out += "\\r";
        else if (c == '\t' && W.chance(0.8))
            out += "\\t";
        else if ((c == '"' || c == '\'' || c == '\\') && W.chance(0.8))
            out += std::string("\\") + (char) c;
        else {
            snprintf(b, 8, W.chance(0.5) ? "\\x%02x" : "\\x%02X", c);
            out += b;
        }
    }
    void quoted(const std::string& s) {
        char q = W.chance(0.6) ? '"' : '\'';
        bool multi = W.chance(0.2);
        bool sparse = W.chance(0.8);
        out += std::string(multi ? 3 : 1, q);
        u32 run = 0;
        for (size_t i = 0; i < s.size(); i++) {
            u8 c = (u8) s[i];
            bool esc = c == '\\' || c == '\r' || (c == '\n' && !multi) || !sparse;
            if (c == (u8) q)
                esc = !multi || run == 2 || i + 1 == s.size() || W.chance(0.3);
            if (!esc && W.chance(0.02))
                esc = true;
            // A line end that isn't escaped can be one of two characters.
            if (c == '\n' && !esc && W.chance(0.3))
                out += '\r';
            if (esc)
                escaped(c);
            else
                out += (char) c;
            run = c == (u8) q && !esc ? run + 1 : 0;
        }
        out += std::string(multi ? 3 : 1, q);
    }
    bool word(const std::string& s) { // true if it ended with a character of a word
        if (plainWord(s) && W.chance(0.7)) {
            out += s;
            return true;
        }
        quoted(s);
        return false;
    }
    bool value(Doc& d) {
        d.ofs = out.size();
        if (d.t == Doc::Text)
            return word(d.s);
        if (d.t == Doc::Arr) {
            out += '[';
            bool sep = true, wordEnd = false, quoteEnd = false;
            for (size_t i = 0; i < d.items.size(); i++) {
                if (i && W.chance(0.85)) {
                    separator();
                    sep = true;
                } else {
                    ws(true);
                    while (W.chance(0.05))
                        separator();
                }
                (void) sep;
                // Two words or strings with nothing in between are one.
                if (wordEnd || quoteEnd)
                    out += ' ';
                wordEnd = value(d.items[i]);
                quoteEnd = !wordEnd && d.items[i].t == Doc::Text;
            }
            ws(true);
            while (W.chance(0.1))
                separator();
            out += ']';
            return false;
        }
        out += '{';
        for (size_t i = 0; i < d.kv.size(); i++) {
            if (i)
                separator();
            ws(true);
            while (W.chance(0.05))
                separator();
            word(d.kv[i].first);
            ws(true);
            out += W.chance(0.7) ? ':' : '=';
            ws(true);
            value(d.kv[i].second);
        }
        ws(true);
        while (W.chance(0.1))
            separator();
        out += '}';
        return false;
    }
    void separator() {
        ws(false);
        u32 k = W.below(3);
        out += k == 0 ? "," : k == 1 ? ";" : "\n";
        ws(true);
    }
};

// ---------------------------------------------------------------- what a text means
struct Ref {
    const std::string& t;
    size_t p = 0;
    bool failed = false;
    size_t lo = 0, hi = 0; // where the error is
    std::vector<u32> scopes; // lines of the errors' contexts
    explicit Ref(const std::string& t) : t{t} {
    }
    enum K { Bad, Punct, NewLine, Word, End, Junk };
    struct Tok {
        K k = Bad;
        char c = 0;
        size_t ofs = 0;
        std::string s;
    };
    int at(size_t i) {
        return i < t.size() ? (u8) t[i] : -1;
    }
    void err(size_t a, size_t b) {
        if (!failed) {
            failed = true;
            lo = a;
            hi = b;
        }
    }
    void errAt(const Tok& k) {
        if (k.k == Bad)
            return; // reported
        if (k.k == End)
            err(t.empty() ? 0 : t.size() - 1, t.size());
        else
            err(k.ofs, k.ofs);
    }
    Tok tok(bool nl) {
        Tok r;
        for (;;) {
            int c = at(p);
            if (c == ' ' || c == '\t' || c == '\r' || (c == '\n' && !nl)) {
                p++;
                continue;
            }
            r.ofs = p;
            if (c < 0) {
                r.k = End;
                return r;
            }
            r.c = (char) c;
            if (c == '\n') {
                p++;
                r.k = NewLine;
                return r;
            }
            if (strchr("{}[]:=,;", c) && c) {
                p++;
                r.k = Punct;
                return r;
            }
            if (c == '"' || c == '\'') {
                r.k = string(c, &r.s) ? Word : Bad;
                return r;
            }
            if (!plainChar(c)) {
                r.k = Junk;
                return r;
            }
            r.k = Word;
            while (plainChar(at(p)))
                r.s += t[p++];
            return r;
        }
    }
    bool string(int q, std::string* s) {
        size_t start = p;
        bool multi = at(p + 1) == q && at(p + 2) == q;
        if (!multi && at(p + 1) == q) {
            p += 2;
            return true;
        }
        p += multi ? 3 : 1;
        for (;;) {
            int c = at(p);
            if (c < 0) {
                err(t.size() - 1, t.size());
                return false;
            }
            if (c == q) {
                if (!multi) {
                    p++;
                    return true;
                }
                if (at(p + 1) == q && at(p + 2) == q) {
                    p += 3;
                    return true;
                }
                if (at(p + 1) < 0 || (at(p + 1) == q && at(p + 2) < 0)) {
                    err(t.size() - 1, t.size());
                    return false;
                }
                *s += (char) c;
                p++;
                continue;
            }
            if (c == '\n' || c == '\r') {
                if (!multi) {
                    err(p, p);
                    return false;
                }
                if (c == '\n')
                    *s += '\n';
                p++;
                continue;
            }
            if (c != '\\') {
                *s += (char) c;
                p++;
                continue;
            }
            int e = at(p + 1);
            if (e < 0) {
                err(t.size() - 1, t.size());
                return false;
            }
            if (e == '\n' || e == '\r') {
                err(start, p + 2); // anywhere in the string
                return false;
            }
            if (e == '\\' || e == '"' || e == '\'')
                *s += (char) e;
            else if (e == 'n')
                *s += '\n';
            else if (e == 'r')
                *s += '\r';
            else if (e == 't')
                *s += '\t';
            else if (e == 'x' && isxdigit(at(p + 2)) && at(p + 2) < 128 && isxdigit(at(p + 3)) && at(p + 3) < 128) {
                *s += (char) strtoul(t.substr(p + 2, 2).c_str(), nullptr, 16);
                p += 2;
            } else {
                err(p, p);
                return false;
            }
            p += 2;
        }
    }
    bool value(const Tok& first, Doc* d) {
        d->ofs = first.ofs;
        if (first.k == Word) {
            d->s = first.s;
            return true;
        }
        if (first.k != Punct || (first.c != '{' && first.c != '[')) {
            errAt(first);
            return false;
        }
        if (first.c == '[') {
            d->t = Doc::Arr;
            for (;;) {
                Tok k = tok(true);
                if (k.k == NewLine || (k.k == Punct && (k.c == ',' || k.c == ';')))
                    continue;
                if (k.k == Punct && k.c == ']')
                    return true;
                d->items.emplace_back();
                if (!value(k, &d->items.back()))
                    return false;
            }
        }
        d->t = Doc::Obj;
        bool sep = true;
        for (;;) {
            Tok k = tok(true);
            if (k.k == NewLine || (k.k == Punct && (k.c == ',' || k.c == ';'))) {
                sep = true;
                continue;
            }
            if (k.k == Punct && k.c == '}')
                return true;
            if (k.k != Word || !sep || d->get(k.s)) {
                errAt(k);
                return false;
            }
            Tok colon = tok(false);
            if (colon.k != Punct || (colon.c != ':' && colon.c != '=')) {
                errAt(colon);
                return false;
            }
            Doc v;
            Tok first2 = tok(false);
            if (!value(first2, &v))
                return false;
            d->kv.push_back({k.s, std::move(v)});
            sep = false;
        }
    }
    bool parse(Doc* d) {
        Tok first = tok(false);
        if (!value(first, d))
            return false;
        Tok end = tok(false);
        if (end.k != End) {
            errAt(end);
            return false;
        }
        return true;
    }
};
bool refParse(const std::string& t, Doc* d) {
    sim::Quiet q;
    Ref r{t};
    return r.parse(d);
}

// ---------------------------------------------------------------- documents of the library
Owned<pylon::Node> build(const Doc& d) {
    if (d.t == Doc::Text)
        return pylon::Node::createText(String{sv(d.s)}, d.ofs);
    if (d.t == Doc::Arr) {
        Owned<pylon::Node> n = pylon::Node::createArray(d.ofs);
        for (const Doc& i : d.items)
            n->array().append(build(i));
        return n;
    }
    Owned<pylon::Node> n = pylon::Node::createObject(d.ofs);
    for (auto& e : d.kv)
        n->set(String{sv(e.first)}, build(e.second));
    return n;
}
void checkNode(const pylon::Node* n, const Doc& d, bool ofs, const char* what) {
    SIM_CHECK(n->isValid() && n->isText() == (d.t == Doc::Text) && n->isArray() == (d.t == Doc::Arr) && n->isObject() == (d.t == Doc::Obj), "type", "%s: a node is of type %u instead of %u", what, (u32) n->type, (u32) d.t);
    SIM_CHECK(!ofs || n->fileOfs == d.ofs, "location", "%s: a node is located at %llu instead of %llu", what, (unsigned long long) n->fileOfs, (unsigned long long) d.ofs);
    if (d.t == Doc::Text) {
        SIM_CHECK(str(n->text()) == d.s, "text", "%s: '%s' instead of '%s'", what, show(str(n->text())).c_str(), show(d.s).c_str());
        SIM_CHECK(n->arrayView().numItems == 0 && n->object().items.numItems() == 0 && !n->get(sv(d.s))->isValid() && !n->get(0u)->isValid(), "type", "%s: a text has items", what);
        return;
    }
    SIM_CHECK(n->text().numBytes == 0, "type", "%s: an array or object has a text", what);
    if (d.t == Doc::Arr) {
        ArrayView<const pylon::Node* const> v = n->arrayView();
        SIM_CHECK(v.numItems == d.items.size(), "items", "%s: %u items instead of %zu", what, v.numItems, d.items.size());
        for (u32 i = 0; i < v.numItems; i++) {
            SIM_CHECK(n->get(i) == v[i], "items", "%s: item %u", what, i);
            checkNode(v[i], d.items[i], ofs, what);
        }
        SIM_CHECK(!n->get(v.numItems)->isValid() && !n->get("x")->isValid() && n->object().items.numItems() == 0, "items", "%s: more items", what);
        return;
    }
    const pylon::Node::Object& o = n->object();
    SIM_CHECK(o.items.numItems() == d.kv.size() && n->arrayView().numItems == 0, "items", "%s: %u properties instead of %zu", what, o.items.numItems(), d.kv.size());
    for (u32 i = 0; i < o.items.numItems(); i++) {
        SIM_CHECK(str(o.items[i].key) == d.kv[i].first, "key", "%s: property %u is '%s' instead of '%s'", what, i, show(str(o.items[i].key)).c_str(), show(d.kv[i].first).c_str());
        const pylon::Node* v = n->get(sv(d.kv[i].first));
        SIM_CHECK(v == o.items[i].value.get(), "lookup", "%s: looking up '%s' of %zu properties gives %s", what, show(d.kv[i].first).c_str(), d.kv.size(), v->isValid() ? "another one" : "nothing");
        checkNode(v, d.kv[i].second, ofs, what);
    }
    SIM_CHECK(!n->get("absent key")->isValid() && !n->get(0u)->isValid(), "lookup", "%s: an absent key is found", what);
}

bool validUtf8(const std::string& s) {
    for (size_t i = 0; i < s.size();) {
        u8 c = (u8) s[i];
        u32 n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe1 && c < 0xf0 ? 3 : c >= 0xf1 && c < 0xf5 ? 4 : 0;
        if (!n || i + n > s.size())
            return false;
        for (u32 k = 1; k < n; k++)
            if (((u8) s[i + k] & 0xc0) != 0x80)
                return false;
        i += n;
    }
    return true;
}
void place(const std::string& s, size_t ofs, u32* line, u32* col) {
    *line = 1;
    *col = 1;
    for (size_t i = 0; i < ofs && i < s.size(); i++) {
        u8 c = (u8) s[i];
        if (c == '\n') {
            ++*line;
            *col = 1;
        } else if (c == '\t')
            *col += 4 - *col % 4;
        else if (c != '\r' && (c & 0xc0) != 0x80)
            ++*col;
    }
}

// Parses `src` and compares the result with what it means.
void parseAndCheck(const std::string& src, const char* what) {
    Doc want;
    bool valid;
    size_t lo, hi;
    {
        sim::Quiet q;
        Ref ref{src};
        valid = ref.parse(&want);
        lo = ref.lo;
        hi = ref.hi;
    }
    u32 errors = 0;
    u32 firstOfs = 0;
    std::string firstMsg, dumped;
    pylon::Parser parser;
    parser.setErrorCallback([&](const pylon::ParseError& err) {
        if (!errors++) {
            firstOfs = err.fileOfs;
            firstMsg = str(err.message.view());
            MemOutStream mout;
            parser.dumpError(err, mout);
            dumped = str(mout.moveToString());
        }
    });
    pylon::Parser::Result res = parser.parse(sv(src));
    SIM_CHECK((bool) res.root, "parse", "no result");
    SIM_CHECK(res.root->isValid() == valid, valid ? "refused" : "accepted", "%s: '%s' is %s a document; %s at %u, expected at %zu", what, show(src).c_str(), valid ? "" : "not", firstMsg.c_str(), firstOfs, lo);
    SIM_CHECK(parser.anyError() == !valid && (errors > 0) == !valid, "errors", "%s: %u errors in a text that is %s a document", what, errors, valid ? "" : "not");
    if (!valid) {
        SIM_CHECK(firstOfs >= lo && firstOfs <= hi, "error-location", "%s: '%s': '%s' is reported at %u instead of %zu..%zu", what, show(src).c_str(), firstMsg.c_str(), firstOfs, lo, hi);
        bool exact = validUtf8(src);
        if (exact) {
            u32 line, col;
            place(src, firstOfs, &line, &col);
            std::string prefix = "(" + std::to_string(line) + ", " + std::to_string(col) + "): error: ";
            SIM_CHECK(dumped.compare(0, prefix.size(), prefix) == 0, "error-place", "%s: '%s' instead of '%s'", what, show(dumped).c_str(), prefix.c_str());
        }
        sim::hit("texts that are no documents");
        return;
    }
    checkNode(res.root, want, true, what);
    if (validUtf8(src)) {
        for (u32 i = 0; i < 3; i++) {
            u32 line, col;
            size_t ofs = W.below((u32) src.size() + 1);
            if (ofs < src.size() && ((u8) src[ofs] & 0xc0) == 0x80)
                continue;
            place(src, ofs, &line, &col);
            FileLocation loc = res.fileLocMap.getFileLocation((u32) ofs);
            SIM_CHECK(loc.lineNumber == line && loc.columnNumber == col, "place", "offset %zu is at (%u, %u), found (%u, %u)", ofs, line, col, loc.lineNumber, loc.columnNumber);
        }
    }
    sim::hit("documents read");
}

// ---------------------------------------------------------------- writing
void writeAndCheck(const pylon::Node* n, const Doc& d, u32 id, const char* what) {
    switch (W.below(4)) {
        case 0: {
            std::string t = str(pylon::toString(n));
            Doc back;
            SIM_CHECK(refParse(t, &back), "written", "%s: the text isn't a document: '%s'", what, show(t).c_str());
            SIM_CHECK(same(back, d), "written", "%s: the text is another document: '%s'", what, show(t).c_str());
            parseAndCheck(t, what);
            break;
        }
        case 1:
        case 2: { // to a pipe that takes it in pieces and perhaps fails
            std::string rec;
            std::string whole = str(pylon::toString(n));
            u64 failAt = W.chance(0.3) ? W.below((u32) whole.size() + 200) : ~0ull;
            RecOutPipe pipe{&rec, failAt};
            bool ok;
            {
                OutStream out{borrow(&pipe), 7 + W.below(4)};
                pylon::write(&out, n);
                out.flush(false);
                ok = !out.atEOF();
            }
            SIM_CHECK(!ok || rec == whole, "written", "%s: what is written to a stream depends on the stream", what);
            SIM_CHECK(ok || whole.size() > failAt, "false-failure", "%s: writing %zu bytes failed, although %llu are accepted", what, whole.size(), (unsigned long long) failAt);
            SIM_CHECK(!ok || whole.size() <= failAt, "unreported", "%s: a failure to write isn't reported", what);
            if (!ok)
                sim::hit("writes that failed");
            Doc back;
            SIM_CHECK(refParse(whole, &back) && same(back, d), "written", "%s: the text is another document: '%s'", what, show(whole).c_str());
            break;
        }
        default: { // to a file
            FileSystem* fs = FileSystem::native();
            std::string path = "/docs" + std::to_string(id) + "/doc.pylon";
            u64 errs = sim::errFaults();
            String t = pylon::toString(n);
            FSResult r = fs->makeDirsAndSaveBinaryIfDifferent(sv(path), t);
            if (r != FSResult::OK && r != FSResult::Unchanged) {
                SIM_CHECK(sim::errFaults() > errs || sim::k::diskFree >= 0, "save", "%s: saving failed with %d", what, (int) r);
                sim::hit("saves that failed");
                return;
            }
            errs = sim::errFaults();
            String back = fs->loadBinary(sv(path));
            if (fs->lastResult() != FSResult::OK || sim::errFaults() > errs)
                return;
            Doc d2;
            SIM_CHECK(refParse(str(back), &d2) && same(d2, d), "file", "%s: the file holds another document", what);
            parseAndCheck(str(back), what);
            sim::hit("documents in files");
            break;
        }
    }
}

// ---------------------------------------------------------------- editing
struct Spot {
    pylon::Node* n;
    Doc* d;
};
void spots(pylon::Node* n, Doc* d, std::vector<Spot>* out) {
    out->push_back({n, d});
    for (u32 i = 0; i < d->items.size(); i++)
        spots(n->get(i), &d->items[i], out);
    for (auto& e : d->kv)
        spots(n->get(sv(e.first)), &e.second, out);
}
bool single;
void editing(u32 id) {
    DocGen g;
    Doc d = g.doc(0);
    Owned<pylon::Node> root = build(d);
    std::vector<Owned<pylon::Node>> originals; // copies may refer to the texts of their originals
    u32 ops = 1 + W.below(30);
    for (u32 k = 0; k < ops; k++) {
        std::vector<Spot> all;
        spots(root, &d, &all);
        if (all.size() > 400)
            break;
        Spot s = all[W.below((u32) all.size())];
        for (u32 tries = 0; tries < 5 && s.d->t == Doc::Text && W.chance(0.8); tries++)
            s = all[W.below((u32) all.size())];
        g.budget = 6;
        if (s.d->t == Doc::Text) {
            s.d->s = randText();
            s.n->setText(String{sv(s.d->s)});
            continue;
        }
        if (s.d->t == Doc::Arr) {
            u32 at = W.below((u32) s.d->items.size() + 1);
            if (at < s.d->items.size() && W.chance(0.4)) {
                s.n->array().erase(at);
                s.d->items.erase(s.d->items.begin() + at);
            } else {
                Doc v = g.doc(1);
                s.n->array().insert(at) = build(v);
                s.d->items.insert(s.d->items.begin() + at, v);
            }
            continue;
        }
        auto& kv = s.d->kv;
        u32 pick = W.below(10);
        if (kv.size() && pick < 3) { // replace
            u32 i = W.below((u32) kv.size());
            Doc v = g.doc(1);
            Owned<pylon::Node> vn = build(v);
            pylon::Node* raw = vn.get();
            String key{sv(kv[i].first)};
            Borrowed<pylon::Node> r = s.n->set(W.chance(0.5) ? HybridString{key.view()} : HybridString{String{key.view()}}, std::move(vn));
            SIM_CHECK(r == raw, "set", "set() gives another node");
            kv[i].second = v;
        } else if (kv.size() && pick < 6) { // remove
            u32 i = W.below((u32) kv.size());
            Owned<pylon::Node> gone = s.n->remove(sv(kv[i].first));
            SIM_CHECK((bool) gone, "remove", "a property isn't found");
            checkNode(gone, kv[i].second, false, "removed");
            kv.erase(kv.begin() + i);
            sim::hit("removed properties");
        } else if (pick == 6) {
            SIM_CHECK(!s.n->remove("no such property"), "remove", "an absent property was removed");
        } else if (pick == 7 && W.chance(0.2)) { // many at once
            u32 n = W.below(200);
            for (u32 i = 0; i < n; i++) {
                std::string key = "n" + std::to_string(g.names++);
                if (s.d->get(key))
                    continue;
                s.n->set(String{sv(key)}, pylon::Node::createText(String{sv(key)}));
                kv.push_back({key, text(key)});
            }
        } else {
            Doc v = g.doc(1);
            std::string key = g.key(*s.d);
            s.n->set(String{sv(key)}, build(v));
            kv.push_back({key, v});
        }
        if (W.chance(0.1)) { // a copy is independent
            Owned<pylon::Node> c = root->copy();
            checkNode(c, d, false, "copied");
            if (W.chance(0.5))
                std::swap(c, root);
            originals.push_back(std::move(c));
        }
    }
    checkNode(root, d, false, "edited");
    writeAndCheck(root, d, id, "edited");
    sim::hit("edited documents");
}

// ---------------------------------------------------------------- texts
void texts() {
    DocGen g;
    Doc d = g.doc(0);
    if (W.chance(0.05))
        d = text(randText());
    Hand h;
    h.ws(true);
    h.value(d);
    h.ws(true);
    std::string src = h.out;
    {
        Doc back;
        if (!refParse(src, &back) || !same(back, d))
            sim::violate("harness", "the harness doesn't understand its own document: '%s'", show(src).c_str());
    }
    parseAndCheck(src, "by hand");
    u32 n = 1 + W.below(6);
    for (u32 i = 0; i < n; i++) { // and with a mistake
        static const char* bits[] = {"{", "}", "[", "]", ":", "=", ",", ";", "\"", "'", "\\", "\n", "\"\"\"", "\\x4", "\\q", "a", "#", "\x01", "\r", " ", "\\", "\\\n", "''", "/", "\xff"};
        std::string m = src;
        u32 edits = 1 + (W.chance(0.3) ? W.below(4) : 0);
        for (u32 e = 0; e < edits; e++) {
            u32 at = W.below((u32) m.size() + 1);
            switch (W.below(5)) {
                case 0:
                    m.resize(at);
                    break;
                case 1:
                    m.erase(at, 1 + W.below(3));
                    break;
                case 2:
                    if (at < m.size())
                        m[at] = (char) W.below(256);
                    break;
                default:
                    m.insert(at, bits[W.below(sizeof(bits) / sizeof(bits[0]))]);
                    break;
            }
        }
        parseAndCheck(m, "by hand, with a mistake");
    }
}

// ---------------------------------------------------------------- objects
enum K { F32, N8, N16, N32, S32, Bo, Str, Enm, Fixed, Arr, EnmArr, Own, Strct, Sw, TArr, Saved };
struct Ty;
struct Mem {
    std::string name;
    Ty* ty;
    u32 offset;
};
struct Ty {
    K k;
    u32 n = 0;
    Ty* item = nullptr;
    Ty* en = nullptr;
    std::vector<Mem> mem;
    std::vector<std::pair<std::string, u32>> ids;
    u32 bytes = 4;
    TypeDescriptor* td = nullptr;
};
struct Val {
    bool known = false; // numbers of a new object have no particular value
    double d = 0;
    std::string s;
    std::vector<Val> items;
    u32 state = 0;
    bool null = true;
    Ty* dyn = nullptr;
};
struct GenSwitch {
    u16 id;
    u64 storage;
};
enum class GenEnum : u8 { Only, Count };
} // namespace
PLY_DECLARE_TYPE_DESCRIPTOR(GenEnum)
PLY_ENUM_BEGIN(, GenEnum)
PLY_ENUM_IDENTIFIER(Only)
PLY_ENUM_END()
PLY_DECLARE_TYPE_DESCRIPTOR(GenSwitch)
PLY_DEFINE_TYPE_DESCRIPTOR(GenSwitch) {
    return nullptr;
}
namespace {
NativeBindings switchBindings() {
    return {
        [](TypeDescriptor* t) -> AnyObject {
            AnyObject obj{PLY_HEAP.alloc(t->fixedSize), t};
            obj.construct();
            return obj;
        },
        [](AnyObject obj) {
            obj.destruct();
            PLY_HEAP.free(obj.data);
        },
        [](AnyObject obj) {
            auto* t = obj.type->cast<TypeDescriptor_Switch>();
            *(u16*) obj.data = 0;
            AnyObject{PLY_PTR_OFFSET(obj.data, t->storageOffset), t->states[0].structType}.construct();
        },
        [](AnyObject obj) {
            auto* t = obj.type->cast<TypeDescriptor_Switch>();
            AnyObject{PLY_PTR_OFFSET(obj.data, t->storageOffset), t->states[*(u16*) obj.data].structType}.destruct();
        },
        [](AnyObject, AnyObject) {},
        [](AnyObject, const AnyObject) {},
    };
}
u32 alignUp(u32 v, u32 a) {
    return (v + a - 1) / a * a;
}
void describe(Ty* t) {
    switch (t->k) {
        case F32:
            t->td = getTypeDescriptor<float>();
            break;
        case N8:
            t->td = getTypeDescriptor<u8>();
            break;
        case N16:
            t->td = getTypeDescriptor<u16>();
            break;
        case N32:
            t->td = getTypeDescriptor<u32>();
            break;
        case S32:
            t->td = getTypeDescriptor<s32>();
            break;
        case Bo:
            t->td = getTypeDescriptor<bool>();
            break;
        case Str:
            t->td = getTypeDescriptor<String>();
            break;
        case Fixed:
            t->td = new TypeDescriptor_FixedArray{t->item->td, t->n};
            break;
        case Arr:
            t->td = new TypeDescriptor_Array{t->item->td};
            break;
        case Own: {
            auto* o = new TypeDescriptor_Owned{(u32*) nullptr};
            o->targetType = t->item->td;
            t->td = o;
            break;
        }
        case Strct: {
            auto* s = new TypeDescriptor_Struct{0, 0, "S"};
            u32 off = 0, al = 1;
            for (Mem& m : t->mem) {
                off = alignUp(off, m.ty->td->alignment);
                m.offset = off;
                s->members.append({String{sv(m.name)}, off, m.ty->td});
                off += m.ty->td->fixedSize;
                al = std::max(al, m.ty->td->alignment);
            }
            s->fixedSize = alignUp(off, al);
            s->alignment = al;
            t->td = s;
            break;
        }
        case Enm: {
            auto* e = new TypeDescriptor_Enum{(u32*) nullptr, "E", {}};
            for (auto& id : t->ids)
                e->identifiers.append({String{sv(id.first)}, id.second});
            e->fixedSize = e->alignment = t->bytes;
            t->td = e;
            break;
        }
        case EnmArr: {
            auto* a = new TypeDescriptor_EnumIndexedArray{(u8*) nullptr, (GenEnum*) nullptr};
            a->itemType = t->item->td;
            a->enumType = t->en->td->cast<TypeDescriptor_Enum>();
            a->fixedSize = t->item->td->fixedSize * (u32) t->en->ids.size();
            a->alignment = t->item->td->alignment;
            t->td = a;
            break;
        }
        case Sw: {
            auto* s = new TypeDescriptor_Switch{(GenSwitch*) nullptr, "W"};
            u32 size = 0, al = 2;
            for (u32 i = 0; i < t->mem.size(); i++) {
                Mem& m = t->mem[i];
                s->states.append({String{sv(m.name)}, (u16) i, m.ty->td->cast<TypeDescriptor_Struct>()});
                size = std::max(size, m.ty->td->fixedSize);
                al = std::max(al, m.ty->td->alignment);
            }
            s->storageOffset = (u16) alignUp(2, al);
            s->bindings = switchBindings();
            s->fixedSize = alignUp(s->storageOffset + size, al);
            s->alignment = al;
            t->td = s;
            break;
        }
        case TArr:
            t->td = getTypeDescriptor<TypedArray>();
            break;
        case Saved:
            t->td = getTypeDescriptor<AnySavedObject>();
            break;
    }
}
struct TyGen {
    std::vector<std::unique_ptr<Ty>> all;
    bool exportable;
    bool any = false;
    u32 names = 0;
    u32 budget = 30;
    Ty* make(K k) {
        all.emplace_back(new Ty);
        all.back()->k = k;
        return all.back().get();
    }
    std::string name() {
        static const char* stems[] = {"x", "value", "m_items", "a member", "\xc3\xa9", "Is", "-"};
        return stems[W.below(7)] + std::to_string(names++);
    }
    Ty* enm(bool seq) {
        Ty* t = make(Enm);
        t->bytes = 1u << W.below(3);
        u32 n = 1 + W.below(5);
        std::set<u32> used;
        for (u32 i = 0; i < n; i++) {
            u32 v = i;
            if (!seq)
                do {
                    v = t->bytes == 1 ? W.below(256) : t->bytes == 2 ? W.below(65536) : W.next();
                } while (!used.insert(v).second);
            t->ids.push_back({name(), v});
        }
        describe(t);
        return t;
    }
    Ty* strct(u32 depth, u32 max = 6) {
        Ty* t = make(Strct);
        u32 n = W.below(max + 1);
        for (u32 i = 0; i < n; i++)
            t->mem.push_back({name(), type(depth + 1), 0});
        describe(t);
        return t;
    }
    Ty* type(u32 depth) {
        if (budget)
            budget--;
        bool leaf = depth > 5 || !budget;
        for (;;) {
            K k = (K) W.below(16);
            if ((exportable && (k < Bo || k == Fixed || k == EnmArr)) || (leaf && k > Enm) || (k >= TArr && !any))
                continue;
            if (k == Enm)
                return enm(false);
            if (k == Strct)
                return strct(depth);
            Ty* t = make(k);
            if (k == Fixed || k == Arr || k == EnmArr)
                t->item = type(depth + 1);
            if (k == Own)
                t->item = W.chance(0.7) ? strct(depth + 1) : make(Str);
            if (k == Own && t->item->k == Str)
                describe(t->item);
            if (k == Fixed)
                t->n = 1 + W.below(4);
            if (k == EnmArr)
                t->en = enm(true);
            if (k == Sw) {
                u32 n = 1 + W.below(4);
                for (u32 i = 0; i < n; i++)
                    t->mem.push_back({name(), strct(depth + 1, 3), 0});
            }
            describe(t);
            return t;
        }
    }
    Val fresh(Ty* t) {
        Val v;
        if (t->k == Fixed)
            v.items.assign(t->n, fresh(t->item));
        if (t->k == EnmArr)
            v.items.assign(t->en->ids.size(), fresh(t->item));
        if (t->k == Strct)
            for (Mem& m : t->mem)
                v.items.push_back(fresh(m.ty));
        if (t->k == Sw)
            v.items.push_back(fresh(t->mem[0].ty));
        return v;
    }
    Val freshZero(Ty* t) { // of made-up types
        Val v = fresh(t);
        v.known = true;
        for (Val& i : v.items)
            i.known = true;
        return v;
    }
    static std::string num(double v) {
        char b[64];
        if (v == floor(v) && W.chance(0.7))
            snprintf(b, 64, "%.0f", v);
        else
            snprintf(b, 64, W.chance(0.8) ? "%.3f" : "%.6f", v);
        return b;
    }
    // A document for an object of type t which is v, and what v is afterwards.
    u32 made = 0;
    Doc doc(Ty* t, Val& v, bool full, u32 depth) {
        Doc d;
        if (++made > 3000)
            sim::discard("too large");
        v.known = true;
        switch (t->k) {
            case F32:
                v.d = (double) ((s32) W.below(2000001) - 1000000) / (1 << W.below(4));
                d.s = num(v.d);
                break;
            case N8:
            case N16:
            case N32: {
                u32 bits = t->k == N8 ? 8 : t->k == N16 ? 16 : 32;
                u32 x = W.chance(0.2) ? ~0u : W.next() >> W.below(32);
                v.d = (double) (bits == 32 ? x : x & ((1u << bits) - 1));
                d.s = std::to_string((u64) v.d);
                break;
            }
            case S32:
                v.d = W.chance(0.1) ? -2147483648.0 : W.chance(0.1) ? 2147483647.0 : (double) ((s32) W.next() >> W.below(31));
                d.s = std::to_string((s64) v.d);
                break;
            case Bo:
                v.d = W.below(2);
                d.s = v.d ? "true" : "false";
                break;
            case Str:
                v.s = d.s = randText();
                break;
            case Enm: {
                auto& id = t->ids[W.below((u32) t->ids.size())];
                v.d = id.second;
                d.s = id.first;
                break;
            }
            case Fixed:
                d.t = Doc::Arr;
                for (u32 i = 0; i < t->n; i++)
                    d.items.push_back(doc(t->item, v.items[i], full, depth + 1));
                while (!full && W.chance(0.05))
                    d.items.push_back(text("1")); // ignored
                break;
            case Arr: {
                d.t = Doc::Arr;
                u32 n = depth > 5 ? 0 : W.below(5);
                if (depth < 3 && t->item->k < Arr && W.chance(0.05))
                    n = W.below(W.chance(0.3) ? 300 : 40);
                while (v.items.size() < n)
                    v.items.push_back(fresh(t->item));
                v.items.resize(n);
                for (u32 i = 0; i < n; i++)
                    d.items.push_back(doc(t->item, v.items[i], full, depth + 1));
                break;
            }
            case EnmArr:
                d.t = Doc::Obj;
                for (u32 i = 0; i < t->en->ids.size(); i++)
                    if (full || W.chance(0.7))
                        d.kv.push_back({t->en->ids[i].first, doc(t->item, v.items[i], full, depth + 1)});
                shuffle(d);
                break;
            case Own:
                v.null = false;
                v.items.assign(1, fresh(t->item));
                return doc(t->item, v.items[0], full, depth + 1);
            case Strct:
                d.t = Doc::Obj;
                for (u32 i = 0; i < t->mem.size(); i++)
                    if (full || W.chance(0.8))
                        d.kv.push_back({t->mem[i].name, doc(t->mem[i].ty, v.items[i], full, depth + 1)});
                if (!full) {
                    while (W.chance(0.1)) // of another version
                        d.kv.push_back({"unknown" + std::to_string(names++), W.chance(0.5) ? text("1") : DocGen{}.doc(5)});
                    shuffle(d);
                }
                break;
            case Sw: {
                d.t = Doc::Obj;
                u32 s = W.below((u32) t->mem.size());
                if (s != v.state)
                    v.items.assign(1, fresh(t->mem[s].ty));
                v.state = s;
                d.kv.push_back({t->mem[s].name, doc(t->mem[s].ty, v.items[0], full, depth + 1)});
                break;
            }
            case TArr:
            case Saved: {
                d.t = Doc::Obj;
                Ty* item;
                d.kv.push_back({"type", madeUp(&item, t->k == Saved)});
                v.dyn = item;
                v.items.clear();
                if (t->k == Saved) {
                    v.null = false;
                    v.items.push_back(freshZero(item));
                    d.kv.push_back({"value", doc(item, v.items[0], false, depth + 1)});
                } else {
                    Doc data;
                    data.t = Doc::Arr;
                    u32 n = W.below(6);
                    for (u32 i = 0; i < n; i++) {
                        v.items.push_back(freshZero(item));
                        data.items.push_back(doc(item, v.items[i], false, depth + 1));
                    }
                    d.kv.push_back({"data", data});
                }
                break;
            }
        }
        return d;
    }
    // A type that a document describes.
    Doc madeUp(Ty** out, bool structOnly) {
        u32 pick = structOnly ? 5 : W.below(7);
        if (pick < 5) {
            Ty* t;
            const char* names[] = {"u16", "u16_2", "u16_3", "u16_4", "float"};
            if (pick == 4)
                t = make(F32);
            else
                t = make(N16);
            describe(t);
            if (pick > 0 && pick < 4) {
                Ty* f = make(Fixed);
                f->item = t;
                f->n = pick + 1;
                describe(f);
                t = f;
            }
            *out = t;
            return text(names[pick]);
        }
        Ty* t = make(Strct);
        Doc d, mem;
        d.t = Doc::Obj;
        d.kv.push_back({"key", text("struct")});
        d.kv.push_back({"name", text(name())});
        mem.t = W.chance(0.5) ? Doc::Arr : Doc::Obj;
        u32 n = W.below(5), off = 0;
        for (u32 i = 0; i < n; i++) {
            std::string nm = name();
            Ty* mt;
            Doc md = W.chance(0.2) && names < 60 ? madeUp(&mt, true) : madeUp(&mt, false);
            t->mem.push_back({nm, mt, off});
            off += alignUp(size(mt), 4); // at multiples of 4
            if (mem.t == Doc::Arr) {
                Doc pair;
                pair.t = Doc::Arr;
                pair.items = {text(nm), md};
                mem.items.push_back(pair);
            } else {
                mem.kv.push_back({nm, md});
            }
        }
        t->bytes = off;
        d.kv.push_back({"members", mem});
        *out = t;
        return d;
    }
    static u32 size(Ty* t) { // of a made-up type
        return t->k == F32 ? 4 : t->k == N16 ? 2 : t->k == Fixed ? 2 * t->n : t->bytes;
    }
    static void shuffle(Doc& d) {
        for (size_t i = d.kv.size(); i > 1; i--)
            std::swap(d.kv[i - 1], d.kv[W.below((u32) i)]);
    }
};
void compare(Ty* t, void* p, const Val& v, const std::string& where) {
    if (t->k <= Bo || t->k == Enm) {
        if (!v.known)
            return;
        double x = t->k == F32 ? *(float*) p : t->k == N8 ? *(u8*) p : t->k == N16 ? *(u16*) p : t->k == N32 ? *(u32*) p : t->k == S32 ? (double) *(s32*) p : t->k == Bo ? *(u8*) p : t->bytes == 1 ? *(u8*) p : t->bytes == 2 ? *(u16*) p : *(u32*) p;
        SIM_CHECK(x == v.d, "different", "%s is %f instead of %f", show(where).c_str(), x, v.d);
        return;
    }
    switch (t->k) {
        case Str: {
            String* s = (String*) p;
            SIM_CHECK(str(s->view()) == v.s, "different", "%s is '%s' instead of '%s'", show(where).c_str(), show(str(s->view())).c_str(), show(v.s).c_str());
            break;
        }
        case Fixed:
        case EnmArr: {
            u32 step = t->item->td->fixedSize;
            for (u32 i = 0; i < v.items.size(); i++)
                compare(t->item, PLY_PTR_OFFSET(p, step * i), v.items[i], where + "[" + std::to_string(i) + "]");
            break;
        }
        case Arr: {
            auto* a = (details::BaseArray*) p;
            SIM_CHECK(a->m_numItems == v.items.size(), "different", "%s has %u items instead of %zu", show(where).c_str(), a->m_numItems, v.items.size());
            for (u32 i = 0; i < v.items.size(); i++)
                compare(t->item, PLY_PTR_OFFSET(a->m_items, t->item->td->fixedSize * i), v.items[i], where + "[" + std::to_string(i) + "]");
            break;
        }
        case Own: {
            void* o = *(void**) p;
            SIM_CHECK(!o == v.null, "different", "%s is %s", show(where).c_str(), o ? "there" : "missing");
            if (o)
                compare(t->item, o, v.items[0], where + "->");
            break;
        }
        case Strct:
            for (u32 i = 0; i < t->mem.size(); i++)
                compare(t->mem[i].ty, PLY_PTR_OFFSET(p, t->mem[i].offset), v.items[i], where + "." + t->mem[i].name);
            break;
        case Sw: {
            SIM_CHECK(*(u16*) p == v.state, "different", "%s is in state %u instead of %u", show(where).c_str(), *(u16*) p, v.state);
            auto* s = t->td->cast<TypeDescriptor_Switch>();
            compare(t->mem[v.state].ty, PLY_PTR_OFFSET(p, s->storageOffset), v.items[0], where + "." + t->mem[v.state].name);
            break;
        }
        case TArr: {
            auto* a = (TypedArray*) p;
            SIM_CHECK(a->numItems() == v.items.size(), "different", "%s has %u items instead of %zu", show(where).c_str(), a->numItems(), v.items.size());
            if (v.dyn) {
                u32 sz = TyGen::size(v.dyn);
                SIM_CHECK(a->m_typeOwner->getRootType()->fixedSize == sz, "different", "items of %s have %u bytes instead of %u", show(where).c_str(), a->m_typeOwner->getRootType()->fixedSize, sz);
                for (u32 i = 0; i < v.items.size(); i++)
                    compare(v.dyn, PLY_PTR_OFFSET(a->m_array.m_items, sz * i), v.items[i], where + "[" + std::to_string(i) + "]");
            }
            break;
        }
        default: {
            auto* s = (AnySavedObject*) p;
            SIM_CHECK(!s->owned.data == v.null, "different", "%s is %s", show(where).c_str(), s->owned.data ? "there" : "missing");
            if (v.dyn) {
                SIM_CHECK(s->owned.type->fixedSize == TyGen::size(v.dyn), "different", "%s has %u bytes instead of %u", show(where).c_str(), s->owned.type->fixedSize, TyGen::size(v.dyn));
                compare(v.dyn, s->owned.data, v.items[0], where + "->");
            }
            break;
        }
    }
}
// What exporting an object of type t gives.
Doc exported(Ty* t, const Val& v) {
    Doc d;
    switch (t->k) {
        case Bo:
            d.s = v.d ? "true" : "false";
            break;
        case Str:
            d.s = v.s;
            break;
        case Enm:
            for (auto& id : t->ids)
                if (id.second == v.d)
                    d.s = id.first;
            break;
        case Arr:
            d.t = Doc::Arr;
            for (const Val& i : v.items)
                d.items.push_back(exported(t->item, i));
            break;
        case Own:
            return exported(t->item, v.items[0]);
        case Strct:
            d.t = Doc::Obj;
            for (u32 i = 0; i < t->mem.size(); i++)
                d.kv.push_back({t->mem[i].name, exported(t->mem[i].ty, v.items[i])});
            break;
        case Sw:
            d.t = Doc::Obj;
            d.kv.push_back({t->mem[v.state].name, exported(t->mem[v.state].ty, v.items[0])});
            break;
        default:
            break;
    }
    return d;
}
void objects(u32 id) {
    TyGen g;
    g.exportable = W.chance(0.5);
    g.any = !g.exportable && W.chance(0.4);
    Ty* root = g.strct(0, 8);
    Val v = g.fresh(root);
    struct Round {
        Doc d;
        Val v; // afterwards
    };
    std::vector<Round> rounds(1 + W.below(3));
    for (Round& r : rounds) {
        r.d = g.doc(root, v, g.exportable, 0);
        r.v = v;
    }
    auto all = [&] {
    AnyOwnedObject obj;
    for (Round& r : rounds) {
        const Val& v = r.v;
        Doc& d = r.d;
        std::string src;
        Owned<pylon::Node> node;
        pylon::Parser::Result res;
        if (W.chance(0.7)) {
            Hand h;
            h.value(d);
            src = h.out;
            res = pylon::Parser{}.parse(sv(src));
            SIM_CHECK(res.root->isValid(), "refused", "'%s' is refused", show(src).c_str());
            node = std::move(res.root);
        } else {
            node = build(d);
        }
        if (!obj.data) {
            if (W.chance(0.5)) {
                AnyOwnedObject o = pylon::import(root->td, node);
                obj = std::move(o);
            } else {
                obj = AnyObject::create(root->td);
                pylon::importInto(obj, node);
            }
        } else {
            pylon::importInto(obj, node);
            sim::hit("objects imported again");
        }
        checkNode(node, d, false, "imported");
        // The object doesn't refer to the document.
        node = {};
        std::fill(src.begin(), src.end(), '?');
        compare(root, obj.data, v, "object");
        sim::hit("objects imported");
        if (g.exportable) {
            Doc want = exported(root, v);
            bool filter = W.chance(0.3);
            Owned<pylon::Node> out;
            if (filter)
                out = pylon::exportObj(obj, pylon::FilterFunc{[](int*, AnyObject o) -> Owned<pylon::Node> {
                                                                  if (o.type->typeKey == &TypeKey_Bool)
                                                                      return pylon::Node::createText(*(bool*) o.data ? "yes" : "no");
                                                                  return nullptr;
                                                              },
                                                              (int*) nullptr});
            else
                out = pylon::exportObj(obj);
            if (filter)
                want = [&] {
                    std::function<Doc(Ty*, const Val&)> f = [&](Ty* t, const Val& x) -> Doc {
                        Doc e;
                        if (t->k == Bo)
                            return text(x.d ? "yes" : "no");
                        if (t->k == Arr) {
                            e.t = Doc::Arr;
                            for (const Val& i : x.items)
                                e.items.push_back(f(t->item, i));
                            return e;
                        }
                        if (t->k == Own)
                            return f(t->item, x.items[0]);
                        if (t->k == Strct) {
                            e.t = Doc::Obj;
                            for (u32 i = 0; i < t->mem.size(); i++)
                                e.kv.push_back({t->mem[i].name, f(t->mem[i].ty, x.items[i])});
                            return e;
                        }
                        if (t->k == Sw) {
                            e.t = Doc::Obj;
                            e.kv.push_back({t->mem[x.state].name, f(t->mem[x.state].ty, x.items[0])});
                            return e;
                        }
                        return exported(t, x);
                    };
                    return f(root, v);
                }();
            checkNode(out, want, false, "exported");
            writeAndCheck(out, want, id, "exported");
            if (!filter) {
                String t = pylon::toString(out);
                pylon::Parser::Result back = pylon::Parser{}.parse(t);
                SIM_CHECK(back.root->isValid(), "refused", "an exported object is refused");
                AnyOwnedObject o2 = pylon::import(root->td, back.root);
                compare(root, o2.data, v, "object read back");
            }
            sim::hit("objects exported");
        }
    }
    obj = AnyOwnedObject{};
    };
    if (single) {
        for (u32 i = 0; i < 2; i++) {
            u64 base = sim::heapLive();
            all();
            u64 now = sim::heapLive();
            // (the first time, descriptors of types may be made)
            SIM_CHECK(i == 0 || now == base, "leak", "%lld blocks are left of an imported object", (long long) (now - base));
        }
    } else {
        all();
    }
}


// ---------------------------------------------------------------- documents that threads share
// Where things are in a text, also in long lines of characters of several bytes.
void places() {
    std::string s;
    u32 size = W.chance(0.5) ? 250 + W.below(20) : W.below(1500);
    u32 kind = W.below(4), shift = W.below(5);
    s.append(shift, 'x');
    while (s.size() < size) {
        static const char* wide[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x8c\xb2", "\xe4\xb8\xad"};
        if (kind && W.chance(kind == 1 ? 0.9 : 0.4))
            s += wide[W.below(4)];
        else if (W.chance(0.05))
            s += W.below(2) ? "\n" : "\r\n";
        else if (W.chance(0.05))
            s += "\t";
        else
            s += (char) (32 + W.below(95));
    }
    FileLocationMap map = FileLocationMap::fromView(sv(s));
    for (u32 i = 0; i < 12; i++) {
        size_t ofs = W.below((u32) s.size() + 1);
        if (W.below(2) && s.size() > 256)
            ofs = std::min<size_t>(s.size(), 256 * (1 + W.below((u32) s.size() / 256)) + W.below(24));
        while (ofs < s.size() && ((u8) s[ofs] & 0xc0) == 0x80)
            ofs++;
        u32 line, col;
        place(s, ofs, &line, &col);
        size_t nl = ofs ? s.rfind('\n', ofs - 1) : std::string::npos;
        u32 into = (u32) (nl == std::string::npos ? ofs : ofs - nl - 1);
        FileLocation loc = map.getFileLocation((u32) ofs);
        SIM_CHECK(loc.lineNumber == line && loc.columnNumber == col && loc.numBytesIntoLine == into, "place", "offset %zu of %zu is at (%u, %u), %u bytes into the line, found (%u, %u), %u", ofs, s.size(), line, col, into, loc.lineNumber, loc.columnNumber, loc.numBytesIntoLine);
        std::string want = "(" + std::to_string(line) + ", " + std::to_string(col) + ")";
        std::string got = str(map.formatFileLocation((u32) ofs).view());
        SIM_CHECK(got == want, "place", "offset %zu is shown as '%s' instead of '%s'", ofs, got.c_str(), want.c_str());
    }
    sim::hit("places in texts");
}
void session(u32 id) {
    u32 n = 1 + W.below(3);
    for (u32 i = 0; i < n; i++) {
        u64 base = sim::heapLive();
        u32 pick = W.below(3);
        if (W.chance(0.15))
            places();
        switch (pick) {
            case 0:
                editing(id);
                break;
            case 1:
                texts();
                break;
            default:
                objects(id);
                break;
        }
        SIM_CHECK(!single || pick == 2 || i == 0 || sim::heapLive() == base, "leak", "%lld blocks are left of a document", (long long) (sim::heapLive() - base));
    }
}
void run() {
    sim::randomSchedule(false);
    if (W.chance(0.6)) {
        sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0.1 : 0;
        sim::faultRate[sim::FT_SHORT_READ] = W.below(2) ? 0.3 : 0;
        sim::faultRate[sim::FT_SHORT_WRITE] = W.below(2) ? 0.3 : 0;
        sim::faultRate[sim::FT_WRITE_ERR] = W.below(4) ? 0 : 0.05;
        sim::faultRate[sim::FT_OPEN_ERR] = W.below(4) ? 0 : 0.05;
        sim::faultRate[sim::FT_META_ERR] = W.below(4) ? 0 : 0.05;
    }
    if (W.chance(0.1))
        sim::k::diskFree = W.below(4000);
    u32 n = W.chance(0.6) ? 1 : 2 + W.below(2);
    single = n == 1;
    if (single) {
        session(0);
        return;
    }
    if (W.chance(0.3))
        sim::randomSchedule(true);
    sim::sched.raceDetect = true;
    bool shared = W.chance(0.7);
    DocGen g;
    Doc d = g.doc(0);
    Hand h;
    h.value(d);
    pylon::Parser::Result res = pylon::Parser{}.parse(sv(h.out));
    SIM_CHECK(res.root->isValid(), "refused", "'%s' is refused", show(h.out).c_str());
    const pylon::Node* root = res.root;
    Array<Thread> threads;
    for (u32 i = 0; i < n; i++)
        threads.append([&, i] {
            if (shared) {
                checkNode(root, d, true, "shared");
                writeAndCheck(root, d, i, "shared");
                Owned<pylon::Node> c = root->copy();
                checkNode(c, d, true, "copied");
                if (c->isObject())
                    c->set("added", pylon::Node::createText("x"));
                checkNode(root, d, true, "shared");
            } else {
                session(i);
            }
        });
    for (Thread& t : threads)
        t.join();
    sim::hit(shared ? "documents shared by threads" : "several threads");
}
} // namespace
SIM_PROP("C27", run, "Pylon documents and the objects in them");
