// C04: text filters (newline filters, encoding converters) give the same result however the data is
// cut into pieces. C05: text formats round-trip and are detected without disturbing the stream.
#include "common.h"
#include <memory>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <ply-runtime/io/text/NewLineFilter.h>
#include <ply-runtime/io/text/TextConverter.h>
#include <ply-runtime/io/text/TextFormat.h>
#include <ply-runtime/filesystem/FileSystem.h>
using namespace wl;

namespace {
enum Enc { Bytes, U8, U16BE, U16LE };
const char* encName[] = {"bytes", "utf-8", "utf-16be", "utf-16le"};

const TextEncoding* plyEnc(Enc e) {
    switch (e) {
        case Bytes:
            return TextEncoding::get<Enc_Bytes>();
        case U8:
            return TextEncoding::get<UTF8>();
        case U16BE:
            return TextEncoding::get<UTF16_BE>();
        default:
            return TextEncoding::get<UTF16_LE>();
    }
}

// Independent reference encoder.
void refEncode(std::string& o, Enc e, u32 cp) {
    auto unit = [&](u32 u) {
        char hi = (char) (u >> 8), lo = (char) u;
        o.push_back(e == U16BE ? hi : lo);
        o.push_back(e == U16BE ? lo : hi);
    };
    switch (e) {
        case Bytes:
            o.push_back(cp < 256 ? (char) cp : (char) 0x95);
            break;
        case U8:
            if (cp < 0x80)
                o.push_back((char) cp);
            else if (cp < 0x800) {
                o.push_back((char) (0xc0 + (cp >> 6)));
                o.push_back((char) (0x80 + (cp & 63)));
            } else if (cp < 0x10000) {
                o.push_back((char) (0xe0 + (cp >> 12)));
                o.push_back((char) (0x80 + ((cp >> 6) & 63)));
                o.push_back((char) (0x80 + (cp & 63)));
            } else {
                o.push_back((char) (0xf0 + (cp >> 18)));
                o.push_back((char) (0x80 + ((cp >> 12) & 63)));
                o.push_back((char) (0x80 + ((cp >> 6) & 63)));
                o.push_back((char) (0x80 + (cp & 63)));
            }
            break;
        default:
            if (cp < 0x10000)
                unit(cp);
            else {
                unit(0xd800 + ((cp - 0x10000) >> 10));
                unit(0xdc00 + ((cp - 0x10000) & 0x3ff));
            }
    }
}

u32 randPoint(Enc limit) {
    if (limit == Bytes)
        return W.below(4) ? 32 + W.below(95) : 1 + W.below(255);
    switch (W.below(8)) {
        case 0:
        case 1:
        case 2:
            return 32 + W.below(95);
        case 3:
            return 0x80 + W.below(0x780);
        case 4: {
            u32 c = 0x800 + W.below(0xf800 - 0x800);
            if (c >= 0xd800)
                c += 0x800;
            return c;
        }
        case 5:
            return 0x10000 + W.below(0x100000);
        case 6: {
            static const u32 edge[] = {0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfffd, 0xff, 0x100};
            return edge[W.below(12)];
        }
        default:
            return 'a';
    }
}
std::vector<u32> randText(u32 n, Enc limit, double nl, bool cr) {
    std::vector<u32> t;
    for (u32 i = 0; i < n; i++) {
        if (W.chance(nl)) {
            if (cr && W.below(2))
                t.push_back('\r');
            t.push_back('\n');
        } else {
            t.push_back(randPoint(limit));
        }
    }
    return t;
}
std::string refEncodeAll(const std::vector<u32>& t, Enc e) {
    std::string s;
    for (u32 c : t)
        refEncode(s, e, c);
    return s;
}
u32 diffAt(const std::string& a, const std::string& b) {
    u32 i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        i++;
    return i;
}
bool isPrefix(const std::string& a, const std::string& b) {
    return a.size() <= b.size() && b.compare(0, a.size(), a) == 0;
}
void same(const char* cls, const std::string& got, const std::string& want, const char* what) {
    if (got != want) {
        u32 d = diffAt(got, want);
        u32 from = d > 8 ? d - 8 : 0;
        sim::violate(cls, "%s: got %zu bytes, expected %zu, first difference at %u: ...%s... instead of ...%s...", what, got.size(), want.size(), d,
                     sim::escape(got.substr(from, 24)).c_str(), sim::escape(want.substr(from, 24)).c_str());
    }
}

u32 pieceSize() {
    static const u32 s[] = {0, 1, 2, 3, 4, 5, 7, 64, 200};
    return s[W.below(9)];
}

// Reads everything through an InPipe in pieces.
std::string drainPipe(InPipe* p, u32 maxPiece) {
    std::string out;
    std::string buf(maxPiece ? maxPiece : 300, 0);
    for (u32 i = 0; i < 200000; i++) {
        u32 want = maxPiece ? 1 + W.below(maxPiece) : (u32) buf.size();
        u32 n = p->readSome({&buf[0], want});
        SIM_CHECK(n <= want, "overread", "readSome() returned %u for a buffer of %u", n, want);
        if (!n)
            break;
        out.append(buf, 0, n);
    }
    // the end stays the end
    SIM_CHECK(p->readSome({&buf[0], 1}) == 0, "data-after-eof", "readSome() returned data after it had returned 0");
    return out;
}

std::string readConverted(const std::string& raw, Enc dst, Enc src, u32 inPiece, u32 blockExp, u32 outPiece) {
    FragInPipe fp{&raw, raw.size(), inPiece};
    Owned<InPipe> conv = Owned<InPipe_TextConverter>::create(Owned<InStream>::create(borrow(&fp), blockExp), plyEnc(dst), plyEnc(src));
    return drainPipe(conv, outPiece);
}

// Writes `raw` in pieces. `bounds` (sorted offsets): places where an explicit flush is harmless.
std::string writeConverted(const std::string& raw, Enc dst, Enc src, u32 maxPiece, u32 blockExp, const std::vector<u32>* bounds) {
    std::string rec;
    RecOutPipe rp{&rec, ~0ull};
    {
        Owned<OutPipe> conv = Owned<OutPipe_TextConverter>::create(Owned<OutStream>::create(borrow(&rp), blockExp), plyEnc(dst), plyEnc(src));
        u32 pos = 0;
        while (pos < raw.size()) {
            u32 n = maxPiece ? 1 + W.below(maxPiece) : (u32) raw.size();
            if (n > raw.size() - pos)
                n = (u32) raw.size() - pos;
            SIM_CHECK(conv->write({raw.data() + pos, n}), "spurious-failure", "write() of a text converter failed");
            pos += n;
            if (bounds && std::binary_search(bounds->begin(), bounds->end(), pos) && W.chance(0.3))
                conv->flushMem();
        }
        if (bounds && W.chance(0.4)) {
            // Well-formed text is complete without an explicit flush.
            conv.clear();
            sim::hit("converter destroyed without flush");
            return rec;
        }
        SIM_CHECK(conv->flush(true), "spurious-failure", "flush() of a text converter failed");
        // after a flush everything is at the destination
        sim::log("flushed %zu", rec.size());
        std::string atFlush = rec;
        conv.clear();
        SIM_CHECK(rec == atFlush, "flush-incomplete", "flush() left %zu converted bytes behind", rec.size() - atFlush.size());
    }
    return rec;
}

std::string convertManually(const std::string& raw, Enc dst, Enc src) {
    TextConverter conv{plyEnc(dst), plyEnc(src)};
    std::string out;
    u32 pos = 0, avail = 0; // raw[pos .. pos+avail) is visible to the converter
    u32 idle = 0;
    u32 maxIn = 1 + W.below(9), maxOut = 1 + W.below(9);
    for (;;) {
        if (pos + avail < raw.size() && W.below(2) + idle) {
            u32 more = 1 + W.below(maxIn);
            avail = (u32) std::min<u64>(raw.size() - pos, avail + more);
        }
        char buf[16];
        MutableStringView d{buf, 1 + W.below(maxOut)};
        u32 room = d.numBytes;
        StringView s{raw.data() + pos, avail};
        bool last = pos + avail == raw.size();
        conv.convert(&d, &s, last);
        SIM_CHECK(d.numBytes <= room && s.numBytes <= avail, "overread", "convert() moved a view backwards");
        u32 wrote = room - d.numBytes, took = avail - s.numBytes;
        out.append(buf, wrote);
        pos += took;
        avail -= took;
        if (wrote == 0 && took == 0) {
            if (last)
                break;
            SIM_CHECK(++idle < 12 + maxIn, "no-progress", "convert() makes no progress at %u of %zu with %u bytes of input visible", pos, raw.size(), avail);
        } else {
            idle = 0;
        }
    }
    return out;
}

void converterCase() {
    Enc src = (Enc) W.below(4), dst = (Enc) W.below(4);
    bool malformed = W.chance(0.4);
    std::string raw, want;
    std::vector<u32> bounds;
    const char* kind = malformed ? "malformed" : "well-formed";
    u32 n = 1 + (W.below(4) ? W.below(60) : W.below(900));
    std::vector<u32> t = randText(n, src == Bytes ? Bytes : U8, 0.1, true);
    for (u32 c : t) {
        refEncode(raw, src, c);
        bounds.push_back((u32) raw.size());
    }
    if (malformed) {
        u32 m = 1 + W.below(6);
        for (u32 i = 0; i < m && raw.size(); i++) {
            u32 at = W.below((u32) raw.size());
            switch (W.below(4)) {
                case 0: // cut
                    raw.resize(at);
                    break;
                case 1:
                    raw[at] = (char) W.next();
                    break;
                case 2:
                    raw.erase(at, 1 + W.below(2));
                    break;
                default:
                    raw.insert(at, randBytes(1 + W.below(5)));
            }
        }
        if (W.below(2)) // an incomplete sequence at the very end
            raw += std::string("\xf0\x9f\x98\x80", 1 + W.below(3));
        // the reference is one conversion of everything at once
        String whole = TextConverter::convertInternal(plyEnc(dst), plyEnc(src), sv(raw));
        want = str(whole);
        sim::hit("malformed texts");
    } else {
        want = refEncodeAll(t, dst);
    }
    u32 how = W.below(3);
    std::string got;
    if (how == 0) {
        u32 ip = pieceSize(), be = 7 + W.below(4), op = pieceSize();
        sim::log("read %s -> %s, %zu bytes (%s), pieces %u, block 2^%u, reads %u", encName[src], encName[dst], raw.size(), kind, ip, be, op);
        got = readConverted(raw, dst, src, ip, be, op);
        sim::hit("converted on read");
    } else if (how == 1) {
        u32 mp = pieceSize(), be = 7 + W.below(4);
        sim::log("write %s -> %s, %zu bytes (%s), pieces %u, block 2^%u", encName[src], encName[dst], raw.size(), kind, mp, be);
        got = writeConverted(raw, dst, src, mp, be, malformed ? nullptr : &bounds);
        sim::hit("converted on write");
    } else {
        sim::log("convert %s -> %s, %zu bytes (%s)", encName[src], encName[dst], raw.size(), kind);
        got = convertManually(raw, dst, src);
        sim::hit("converted by hand");
    }
    same(malformed ? "fragmentation-dependent" : "conversion", got, want,
         sim::fmt("%s text converted from %s to %s %s", kind, encName[src], encName[dst], how == 0 ? "while reading" : how == 1 ? "while writing" : "buffer by buffer").c_str());
}

void newlineCase() {
    std::string raw = randBytes(1 + (W.below(3) ? W.below(80) : W.below(2000)), 26);
    for (u32 i = 0; i < raw.size(); i++)
        if (W.chance(0.35))
            raw[i] = "\n\r\0z"[W.below(4)];
    std::string noCR, crlf;
    for (char c : raw)
        if (c != '\r') {
            noCR.push_back(c);
            if (c == '\n')
                crlf.push_back('\r');
            crlf.push_back(c);
        }
    if (W.below(2)) {
        FragInPipe fp{&raw, raw.size(), pieceSize()};
        u32 be = 7 + W.below(4), op = pieceSize();
        Owned<InPipe> f = createInNewLineFilter(Owned<InStream>::create(borrow(&fp), be));
        same("newline", drainPipe(f, op), noCR, "newline filter on input");
    } else {
        bool toCRLF = W.below(2);
        std::string rec;
        u64 failAt = W.chance(0.3) ? W.below((u32) raw.size() * 2 + 1) : ~0ull;
        const std::string& want = toCRLF ? crlf : noCR;
        RecOutPipe rp{&rec, failAt};
        bool ok = true, flushOk;
        {
            Owned<OutPipe> f = createOutNewLineFilter(Owned<OutStream>::create(borrow(&rp), 7 + W.below(4)), toCRLF);
            u32 mp = pieceSize(), pos = 0;
            while (pos < raw.size() && ok) {
                u32 n = mp ? 1 + W.below(mp) : (u32) raw.size();
                if (n > raw.size() - pos)
                    n = (u32) raw.size() - pos;
                ok = f->write({raw.data() + pos, n});
                pos += n;
                if (W.chance(0.1))
                    f->flushMem();
            }
            flushOk = f->flush(W.below(2));
            if (ok && flushOk)
                same("newline", rec, want, "newline filter on output, after a successful flush");
        }
        if (rp.failed) {
            SIM_CHECK(!ok || !flushOk, "silent-failure", "the destination of a newline filter failed, but write() and flush() reported success");
            SIM_CHECK(isPrefix(rec, want), "newline", "what reached the failing destination is not a prefix of the expected text");
        } else {
            SIM_CHECK(ok && flushOk, "spurious-failure", "a newline filter reported a failure, but its destination accepted everything");
            same("newline", rec, want, "newline filter on output");
        }
    }
    sim::hit("newline filters");
}

void c04() {
    sim::faultFired(sim::FT_SHORT_READ); // fragmentation is the fault here
    if (W.below(3))
        converterCase();
    else
        newlineCase();
}
SIM_PROP("C04", c04, "text filters are independent of fragmentation");

//------------------------------------------------------------------------------------------ C05
TextFormat plyFormat(Enc e, bool crlf, bool bom) {
    TextFormat f;
    f.encoding = e == Bytes ? TextFormat::Encoding::Bytes : e == U8 ? TextFormat::Encoding::UTF8 : e == U16BE ? TextFormat::Encoding::UTF16_be : TextFormat::Encoding::UTF16_le;
    f.newLine = crlf ? TextFormat::NewLine::CRLF : TextFormat::NewLine::LF;
    f.bom = bom;
    return f;
}

void c05() {
    Enc e = (Enc) W.below(4);
    bool crlf = W.below(2), bom = e != Bytes && W.below(2);
    TextFormat tf = plyFormat(e, crlf, bom);
    u32 n = W.below(8) == 0 ? 0 : 1 + (W.below(4) ? W.below(100) : W.below(3000));
    std::vector<u32> t = randText(n, e == Bytes ? Bytes : U8, W.below(2) ? 0.05 : 0.3, W.below(2));
    if (t.size() && t[0] >= 0x80)
        t[0] = 'A'; // the text itself does not start with a BOM
    std::string utf8 = refEncodeAll(t, U8); // what the user writes
    std::string lfText, raw;
    if (bom)
        refEncode(raw, e, 0xfeff);
    u32 numLines = 0, firstLine = ~0u, control = 0;
    for (u32 c : t)
        if (c != '\r') {
            if (c == '\n') {
                if (!numLines++)
                    firstLine = (u32) raw.size();
                if (crlf)
                    refEncode(raw, e, '\r');
            } else if (c < 32)
                control++;
            refEncode(lfText, U8, c);
            refEncode(raw, e, c);
        }
    sim::log("format %s%s%s, %zu bytes raw", encName[e], bom ? "+bom" : "", crlf ? " crlf" : "", raw.size());
    // export
    u32 mode = W.below(6);
    sim::faultFired(sim::FT_SHORT_READ);
    if (mode < 2) {
        std::string rec;
        u64 failAt = mode == 1 ? W.below((u32) raw.size() + 40) : ~0ull;
        RecOutPipe rp{&rec, failAt};
        bool flushOk, eof;
        {
            Owned<OutStream> outs;
            if (W.below(2)) {
                outs = tf.createExporter(Owned<OutStream>::create(borrow(&rp), 7 + W.below(6)));
            } else {
                // the exporter borrows the stream
                OutStream under{borrow(&rp), 7 + W.below(6)};
                Owned<OutStream> ex = tf.createExporter(borrow(&under));
                bool ok = ex->write(sv(utf8));
                (void) ok;
                bool f1 = ex->flush(false);
                bool e1 = ex->atEOF() || under.atEOF();
                SIM_CHECK(!rp.failed || !f1 || e1, "silent-failure", "the destination failed, but the exporter's flush() returned true");
                ex.clear();
                if (!rp.failed)
                    same("export", rec, raw, "exported text (borrowed stream)");
                return;
            }
            u32 mp = pieceSize(), pos = 0;
            while (pos < utf8.size()) {
                u32 k = mp ? 1 + W.below(mp) : (u32) utf8.size();
                if (k > utf8.size() - pos)
                    k = (u32) utf8.size() - pos;
                if (!outs->write({utf8.data() + pos, k}))
                    break;
                pos += k;
            }
            flushOk = outs->flush(W.below(2));
            eof = outs->atEOF();
            if (flushOk && !eof)
                same("export", rec, raw, "exported text after a successful flush");
        }
        if (rp.failed) {
            SIM_CHECK(!flushOk || eof, "silent-failure", "the destination failed, but flush() returned true and atEOF() is false");
            SIM_CHECK(isPrefix(rec, raw), "export", "what reached the failing destination is not a prefix of the exported text");
        } else {
            SIM_CHECK(flushOk && !eof, "spurious-failure", "the exporter reports a failure although the destination accepted everything");
            same("export", rec, raw, "exported text");
        }
        sim::hit("exports");
    } else if (mode < 4) {
        FragInPipe fp{&raw, raw.size(), pieceSize()};
        u32 be = 7 + W.below(5);
        std::string got;
        bool detect = W.below(2);
        bool damaged = false;
        std::string orig = raw;
        if (detect && W.chance(0.3)) { // any bytes at all
            damaged = true;
            u32 m = 1 + W.below(5);
            for (u32 i = 0; i < m && raw.size(); i++)
                raw[W.below((u32) raw.size())] = (char) W.next();
            if (W.below(2))
                raw = randBytes(W.below(W.below(2) ? 9 : 6000));
            fp.limit = raw.size();
        }
        Owned<InStream> ins = Owned<InStream>::create(borrow(&fp), be);
        TextFormat use = tf;
        if (detect) {
            use = TextFormat::autodetect(ins);
            sim::log("detected encoding %d newline %d bom %d", (int) use.encoding, (int) use.newLine, use.bom);
            // the same guess from the whole data
            FragInPipe fw{&raw, raw.size(), 0};
            InStream wins{borrow(&fw), 15};
            TextFormat whole = TextFormat::autodetect(&wins);
            SIM_CHECK(whole == use, "fragmentation-dependent", "autodetect() gives encoding %d newline %d bom %d for the stream, but %d %d %d for the same bytes in memory", (int) use.encoding, (int) use.newLine, use.bom, (int) whole.encoding, (int) whole.newLine, whole.bom);
            if (!damaged && (bom || e == U8) && !control) {
                bool lineSeen = firstLine < 3900;
                SIM_CHECK(use.encoding == tf.encoding && use.bom == bom, "autodetect", "a well-formed %s text (bom %d) was taken for encoding %d bom %d", encName[e], bom, (int) use.encoding, use.bom);
                if (lineSeen)
                    SIM_CHECK(use.newLine == tf.newLine, "autodetect", "text with %s newlines was taken for %s", crlf ? "CRLF" : "LF", crlf ? "LF" : "CRLF");
                sim::hit("formats detected");
            }
            if (W.below(3) == 0) { // not disturbed: the raw bytes are all still there
                String rest = ins->readRemainingContents();
                same("autodetect-consumed", str(rest), raw, "raw contents after autodetect()");
                return;
            }
        }
        bool exact = !damaged && use.encoding == tf.encoding && use.bom == tf.bom;
        Owned<InStream> imp = use.createImporter(std::move(ins));
        u32 op = pieceSize();
        if (op) {
            for (;;) {
                std::string buf(1 + W.below(op), 0);
                if (!imp->tryMakeBytesAvailable())
                    break;
                u32 k = std::min<u32>((u32) buf.size(), imp->numBytesAvailable());
                got.append(imp->curByte, k);
                imp->curByte += k;
            }
        } else {
            got = str(imp->readRemainingContents());
        }
        if (exact) {
            same("import", got, lfText, "imported text");
            sim::hit("imports");
        } else {
            // reference: import of the same bytes from memory
            FragInPipe fw{&raw, raw.size(), 0};
            Owned<InStream> v = Owned<InStream>::create(borrow(&fw), 15u);
            Owned<InStream> im = use.createImporter(std::move(v));
            same("fragmentation-dependent", got, str(im->readRemainingContents()), "imported text");
            sim::hit("imports of other data");
        }
    } else {
        // through the file system, with interrupted calls and partial transfers
        sim::faultRate[sim::FT_EINTR] = 0.2;
        sim::faultRate[sim::FT_SHORT_READ] = 0.4;
        sim::faultRate[sim::FT_SHORT_WRITE] = 0.4;
        FileSystem* fs = FileSystem::native();
        FSResult r = FSResult::OK;
        if (W.below(2)) {
            r = fs->makeDirsAndSaveTextIfDifferent("/a/b/t.txt", sv(utf8), tf);
            SIM_CHECK(r == FSResult::OK, "save", "makeDirsAndSaveTextIfDifferent() returned %d", (int) r);
        } else {
            sim::k::mkdirs("/a/b");
            Owned<OutStream> o = fs->openTextForWrite("/a/b/t.txt", tf);
            SIM_CHECK(o, "save", "openTextForWrite() failed");
            o->write(sv(utf8));
            SIM_CHECK(o->flush(), "save", "flush() failed");
        }
        std::string now;
        sim::k::readFile("/a/b/t.txt", &now);
        same("export", now, raw, "saved text file");
        String back;
        u32 how = W.below(4);
        if ((how == 0 || how == 2) && F.chance(0.3)) { // the device fails
            sim::faultRate[sim::FT_READ_ERR] = 0.4;
            u32 ef = sim::errFaults();
            if (how == 0)
                back = fs->loadText("/a/b/t.txt", tf);
            else
                back = fs->loadTextAutodetect("/a/b/t.txt").first;
            sim::faultRate[sim::FT_READ_ERR] = 0;
            if (fs->lastResult() != FSResult::OK) {
                SIM_CHECK(sim::errFaults() != ef, "load", "loading left result code %d", (int) fs->lastResult());
                SIM_CHECK(back.isEmpty(), "load", "loading failed but returned %u bytes", back.numBytes);
            } else if (how == 0)
                same("import", str(back), lfText, "text loaded from the file");
            sim::hit("loads with errors");
        }
        if (how == 0) {
            back = fs->loadText("/a/b/t.txt", tf);
        } else if (how == 1) {
            Owned<InStream> i = fs->openTextForRead("/a/b/t.txt", tf);
            SIM_CHECK(i, "load", "openTextForRead() failed");
            back = i->readRemainingContents();
        } else {
            TextFormat seen;
            if (how == 2) {
                auto p = fs->loadTextAutodetect("/a/b/t.txt");
                back = std::move(p.first);
                seen = p.second;
            } else {
                auto p = fs->openTextForReadAutodetect("/a/b/t.txt");
                SIM_CHECK(p.first, "load", "openTextForReadAutodetect() failed");
                back = p.first->readRemainingContents();
                seen = p.second;
            }
            if ((bom || e == U8) && !control)
                SIM_CHECK(seen.encoding == tf.encoding && seen.bom == tf.bom, "autodetect", "a saved %s file (bom %d) was taken for encoding %d bom %d", encName[e], bom, (int) seen.encoding, seen.bom);
            if (!(seen.encoding == tf.encoding && seen.bom == tf.bom))
                return;
        }
        SIM_CHECK(fs->lastResult() == FSResult::OK, "load", "loading left result code %d", (int) fs->lastResult());
        same("import", str(back), lfText, "text loaded from the file");
        // saving what was loaded changes nothing
        std::string lf = str(back);
        sim::k::recordFs = true;
        r = fs->makeDirsAndSaveTextIfDifferent("/a/b/t.txt", sv(lf), tf);
        SIM_CHECK(r == FSResult::Unchanged, "save", "saving the loaded text again returned %d instead of Unchanged", (int) r);
        sim::hit("file round trips");
    }
}
SIM_PROP("C05", c05, "text formats round-trip");
} // namespace
