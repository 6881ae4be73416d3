// C14: the web server answers every well-formed request exactly once, in order, on the connection it
// came from, with exactly what the handler wrote, whatever happens on other connections.
#include "common.h"
#include <memory>
#include <signal.h>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <ply-runtime/network/Socket.h>
#include <web-common/Server.h>
#include <web-common/Echo.h>
using namespace wl;
extern char** environ;

namespace {
const u16 Port = 8080;
enum Plan { Normal, Generic, Nothing, NoEnd, Echo, NumPlans };
enum Kind { Good, BadTokens, BadHeader, Blank, Truncated };
struct Piece {
    std::string bytes;
    u8 after; // 1 flush, 2 flush twice, 3 yield, 4 sleep
};
struct Req {
    u32 id;
    Kind kind = Good;
    std::string method, uri, version;
    std::vector<std::pair<std::string, std::string>> fields;
    std::string wire;
    // the answer
    Plan plan = Normal;
    web::ResponseCode code = web::ResponseCode::OK;
    std::vector<std::string> headers; // as written by the handler
    std::vector<Piece> pieces;
    std::string body;
    bool quietEnd = false;
    u32 calls = 0;
    std::string ip;
    u32 port = 0;
};
struct Client {
    u32 id;
    std::vector<std::unique_ptr<Req>> reqs;
    u32 answers = 0;       // complete answers expected
    bool serverCloses = false;
    bool noAnswerAtEnd = false;
    bool unclearEnd = false; // after the answers, anything until the connection is closed
    bool pipelined = false, halfClose = false, abrupt = false, stalled = false;
    u32 abruptAfter = 0;
    u32 maxFrag;
    sim::Sock* sock = nullptr;
    std::string ip;
    int fd = -1;
    bool v6 = false;
};
std::vector<std::unique_ptr<Client>>* clients;
bool closing;
const char* const codeText[] = {"500 Internal Server Error", "200 OK", "400 Bad Request", "404 Not Found", "500 Internal Server Error"};

std::string genericBody(web::ResponseCode c) {
    std::string t = codeText[(int) c];
    return "<html>\n<head><title>" + t + "</title></head>\n<body>\n<center><h1>" + t + "</h1></center>\n<hr>\n</body>\n</html>\n";
}

//---------------------------------------------------------------- the handler
Req* findReq(const std::string& uri) {
    u32 c, r;
    if (sscanf(uri.c_str(), "/%u/%u", &c, &r) != 2 || c >= clients->size() || r >= (*clients)[c]->reqs.size())
        sim::violate("request", "the handler was called for '%s', which nobody asked for", sim::escape(uri).c_str());
    return (*clients)[c]->reqs[r].get();
}
void handle(u32* cookie, StringView path, web::ResponseIface* rs) {
    Req* r;
    {
        sim::Quiet q;
        const web::Request& in = rs->request;
        r = findReq(str(path));
        std::string where = sim::fmt("request %u ('%s')", r->id, sim::escape(r->uri).c_str());
        if (*cookie != 4711)
            sim::violate("request", "the handler got another argument");
        if (r->kind != Good)
            sim::violate("request", "%s: the handler was called for an ill-formed request", where.c_str());
        if (r->calls++)
            sim::violate("request", "%s: the handler was called twice", where.c_str());
        if (str(path) != r->uri || str(in.startLine.uri) != r->uri || str(in.startLine.method) != r->method || str(in.startLine.httpVersion) != r->version)
            sim::violate("request", "%s: the handler got '%s' '%s' '%s'", where.c_str(), sim::escape(str(in.startLine.method)).c_str(), sim::escape(str(in.startLine.uri)).c_str(),
                         sim::escape(str(in.startLine.httpVersion)).c_str());
        if (in.headerFields.numItems() != r->fields.size())
            sim::violate("request", "%s: the handler got %u header fields instead of %zu", where.c_str(), in.headerFields.numItems(), r->fields.size());
        for (u32 i = 0; i < r->fields.size(); i++) {
            const auto& f = in.headerFields[i];
            if (str(f.name) != r->fields[i].first || str(f.value) != r->fields[i].second)
                sim::violate("request", "%s: header field %u of %zu is '%s': '%s' instead of '%s': '%s'", where.c_str(), i, r->fields.size(), sim::escape(str(f.name)).c_str(), sim::escape(str(f.value)).c_str(),
                             sim::escape(r->fields[i].first).c_str(), sim::escape(r->fields[i].second).c_str());
        }
        if (memcmp(in.clientAddr.netOrdered, r->ip.data(), 16) != 0 || in.clientPort != r->port)
            sim::violate("request", "%s: wrong address or port of the client", where.c_str());
    }
    switch (r->plan) {
        case Nothing:
            return;
        case Generic:
            rs->respondGeneric(r->code);
            return;
        case Echo:
            web::echo_serve(nullptr, path, rs);
            return;
        default:
            break;
    }
    OutStream* outs = rs->beginResponseHeader(r->code);
    for (const std::string& h : r->headers)
        *outs << sv(h) << "\r\n";
    if (r->plan == NoEnd)
        return;
    *outs << "\r\n";
    rs->endResponseHeader();
    for (const Piece& p : r->pieces) {
        outs->write(sv(p.bytes));
        if (p.after == 1 || p.after == 2)
            outs->flush(p.after == 2);
        if (p.after == 2)
            outs->flush();
        if (p.after == 3)
            sim::yield();
        if (p.after == 4)
            sim::sleepNs(1000000 + W.below(1000000));
    }
}

//---------------------------------------------------------------- requests
std::string word(u32 maxLen, const char* set) {
    std::string s;
    u32 n = 1 + W.below(maxLen), m = (u32) strlen(set);
    while (s.size() < n)
        s += set[W.below(m)];
    return s;
}
const char* const uriChars = "abcXYZ019/._-~%?=&+#:;,@!$'()*[]<>\"\\\xc3\xa9\xff";
const char* const nameChars = "abcdefXYZ019-_!#$";
const char* const valueChars = "abcXYZ019 \t:;=,/()<>\"\xc3\xa9\x80";
std::string trimmed(const std::string& s) {
    size_t a = 0, b = s.size();
    while (a < b && strchr(" \t", s[a]))
        a++;
    while (b > a && strchr(" \t", s[b - 1]))
        b--;
    return s.substr(a, b - a);
}
std::string pad() {
    static const char* p[] = {"", " ", "  ", "\t", " \t"};
    return p[W.below(5)];
}
std::string xmlEscape(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '<')
            o += "&lt;";
        else if (c == '>')
            o += "&gt;";
        else if (c == '&')
            o += "&amp;";
        else if (c == '"')
            o += "&quot;";
        else
            o += c;
    }
    return o;
}
void makeRequest(Client& c, bool last, bool calm) {
    c.reqs.emplace_back(new Req);
    Req& r = *c.reqs.back();
    r.id = (u32) c.reqs.size() - 1;
    static const char* methods[] = {"GET", "GET", "POST", "X", "OPTIONS"};
    r.method = methods[W.below(5)];
    r.uri = sim::fmt("/%u/%u", c.id, r.id);
    if (W.below(2))
        r.uri += "/" + word(W.below(12) ? 12 : 3000, uriChars);
    static const char* versions[] = {"HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/0.9"};
    r.version = versions[W.below(last ? 5 : 4)];
    if (!last && W.below(4))
        r.version = "HTTP/1.1";
    if (!calm && W.below(8) == 0)
        r.kind = (Kind) (1 + W.below(4));
    std::string nl = W.below(4) ? "\r\n" : "\n";
    std::string start = r.method + " " + r.uri + " " + r.version;
    if (r.kind == BadTokens) {
        switch (W.below(4)) {
            case 0:
                start = r.uri;
                break;
            case 1:
                start = r.method + " " + r.uri;
                break;
            case 2:
                start += " x";
                break;
            default:
                start += " x y";
        }
    }
    if (r.kind == Blank)
        r.wire = (W.below(2) ? " \t" : "") + nl;
    r.wire += start + nl;
    u32 n = W.below(W.below(8) ? 4 : 40);
    u32 bad = r.kind == BadHeader ? W.below(n + 1) : ~0u;
    for (u32 i = 0; i <= n; i++) {
        if (i == bad) {
            r.wire += word(10, nameChars) + nl;
            continue;
        }
        if (i == n)
            break;
        std::string name = word(10, nameChars), value = W.below(6) ? word(W.below(40) ? 20 : 2000, valueChars) : "";
        r.fields.push_back({name, trimmed(value)});
        r.wire += name + (W.below(4) ? "" : pad()) + ":" + pad() + value + pad() + nl;
    }
    if (r.kind == Truncated) {
        // anywhere after the first byte, but before the end of the header
        r.wire.resize(1 + W.below(W.below(2) ? (u32) r.wire.size() : 60 < r.wire.size() ? 60 : (u32) r.wire.size()));
    } else
        r.wire += (W.below(6) ? "" : pad()) + nl;
    r.plan = W.below(2) ? Normal : (Plan) W.below(calm ? 3 : (u32) NumPlans);
    static const web::ResponseCode codes[] = {web::ResponseCode::OK, web::ResponseCode::NotFound, web::ResponseCode::BadRequest, web::ResponseCode::InternalError};
    r.code = codes[W.below(4)];
    if (r.plan == Normal || r.plan == NoEnd) {
        for (u32 k = W.below(4); k; k--)
            r.headers.push_back(sim::fmt("X-%s: ", word(6, "abcXYZ").c_str()) + trimmed("v" + word(W.below(8) ? 20 : 2000, valueChars)));
        for (u32 k = W.below(W.below(4) ? 4 : 20); k; k--) {
            std::string b = patternBytes(W.below(6) ? W.below(60) : sizeDraw(W.below(4) ? 500 : 4096), W.next());
            r.body += b;
            r.pieces.push_back({b, (u8) W.below(8)});
        }
    } else if (r.plan == Generic)
        r.body = genericBody(r.code);
    else if (r.plan == Nothing) {
        r.code = web::ResponseCode::InternalError;
        r.body = genericBody(r.code);
    } else if (r.plan == Echo)
        r.code = web::ResponseCode::OK;
    if (r.kind != Good) {
        r.code = web::ResponseCode::BadRequest;
        r.body = genericBody(r.code);
        r.headers.clear();
        r.plan = Generic;
    }
}
void finishEcho(Client& c, Req& r) {
    std::string ip;
    char t[64];
    if (c.v6) {
        inet_ntop(AF_INET6, r.ip.data(), t, sizeof(t));
        ip = t;
    } else {
        inet_ntop(AF_INET, r.ip.data() + 12, t, sizeof(t));
        ip = t;
    }
    r.body = "<html>\n<head><title>Echo</title></head>\n<body>\n<center><h1>Echo</h1></center>\n<p>Connection from: <code>" + ip + ":" + std::to_string(r.port) +
             "</code></p><p>Request header:</p>\n<pre>\n" + xmlEscape(r.method) + " " + xmlEscape(r.uri) + " " + xmlEscape(r.version) + "\n";
    for (auto& f : r.fields)
        r.body += xmlEscape(f.first) + ": " + xmlEscape(f.second) + "\n";
    r.body += "</pre>\n<p>Environment variables:</p>\n<pre>\nHOME=/root\nEMPTY=\nA=&lt;b&gt; &amp; &quot;c&quot;\n</pre>\n</body>\n</html>\n";
}

//---------------------------------------------------------------- an independent reader of responses
struct Parsed {
    bool complete = false;
    bool unframed = false; // lasts until the connection is closed
    std::string status;
    std::vector<std::string> headers;
    std::string body;
    size_t used = 0;
    bool haveHeader = false;
};
std::string lower(std::string s) {
    for (char& c : s)
        c = (char) tolower(c);
    return s;
}
Parsed parse(const std::string& in, size_t at, bool eof, const char* who) {
    Parsed p;
    size_t e = in.find("\r\n\r\n", at);
    if (e == std::string::npos)
        return p;
    p.haveHeader = true;
    size_t pos = at;
    bool chunked = false;
    s64 length = -1;
    while (pos < e + 2) {
        size_t nl = in.find("\r\n", pos);
        std::string line = in.substr(pos, nl - pos);
        if (pos == at) {
            if (line.compare(0, 9, "HTTP/1.1 ") != 0 && line.compare(0, 9, "HTTP/1.0 ") != 0)
                sim::violate("response", "%s: a response starts with '%s'", who, sim::escape(line).c_str());
            p.status = line.substr(9);
        } else {
            size_t col = line.find(':');
            if (col == std::string::npos || col == 0)
                sim::violate("response", "%s: '%s' is not a header field", who, sim::escape(line).c_str());
            std::string name = lower(line.substr(0, col)), value = trimmed(line.substr(col + 1));
            if (name == "transfer-encoding")
                chunked = lower(value) == "chunked";
            if (name == "content-length")
                length = atoll(value.c_str());
            p.headers.push_back(line.substr(0, col) + ": " + value);
        }
        pos = nl + 2;
    }
    pos = e + 4;
    if (chunked) {
        for (;;) {
            size_t nl = in.find("\r\n", pos);
            if (nl == std::string::npos) {
                if (in.size() - pos > 20)
                    sim::violate("response", "%s: no chunk size, but '%s'", who, sim::escape(in.substr(pos)).c_str());
                return p;
            }
            u64 n = 0;
            if (nl == pos)
                sim::violate("response", "%s: an empty chunk size", who);
            for (size_t i = pos; i < nl; i++) {
                char c = (char) tolower(in[i]);
                if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f')) || i - pos > 8)
                    sim::violate("response", "%s: '%s' is not a chunk size", who, sim::escape(in.substr(pos, nl - pos)).c_str());
                n = n * 16 + (u64) (c <= '9' ? c - '0' : c - 'a' + 10);
            }
            pos = nl + 2;
            if (in.size() - pos < n) {
                p.body += in.substr(pos);
                return p;
            }
            p.body += in.substr(pos, n);
            pos += n;
            if (in.size() - pos < 2)
                return p;
            if (in.compare(pos, 2, "\r\n") != 0)
                sim::violate("response", "%s: a chunk of %llu bytes does not end with a line end", who, (unsigned long long) n);
            pos += 2;
            if (n == 0)
                break;
        }
        p.complete = true;
    } else if (length >= 0) {
        p.body = in.substr(pos, (size_t) length);
        p.complete = p.body.size() == (size_t) length;
        pos += p.body.size();
    } else {
        p.unframed = true;
        p.body = in.substr(pos);
        pos = in.size();
        p.complete = eof;
    }
    p.used = pos - at;
    return p;
}
bool matches(const Req& r, const Parsed& p, const std::string& who, bool partial) {
    if (!p.haveHeader)
        return true;
    if (p.status != codeText[(int) r.code])
        sim::violate("response", "%s: the status is '%s' instead of '%s'", who.c_str(), sim::escape(p.status).c_str(), codeText[(int) r.code]);
    size_t k = 0;
    for (auto& h : p.headers)
        if (k < r.headers.size() && h == r.headers[k])
            k++;
    if (k != r.headers.size())
        sim::violate("response", "%s: the header field '%s' of the handler is missing", who.c_str(), sim::escape(r.headers[k]).c_str());
    if (partial) {
        if (p.body.size() > r.body.size() || r.body.compare(0, p.body.size(), p.body) != 0)
            sim::violate("response", "%s: the content does not start with what the handler wrote", who.c_str());
    } else if (p.body != r.body) {
        size_t d = 0;
        while (d < p.body.size() && d < r.body.size() && p.body[d] == r.body[d])
            d++;
        sim::violate("response", "%s: %zu bytes of content instead of %zu, different from byte %zu on ('%s' instead of '%s')", who.c_str(), p.body.size(), r.body.size(), d,
                     sim::escape(p.body.substr(d)).c_str(), sim::escape(r.body.substr(d)).c_str());
    }
    return true;
}

//---------------------------------------------------------------- clients
bool sendBytes(Client& c, const std::string& s, u32* sent) {
    size_t pos = 0;
    while (pos < s.size()) {
        size_t n = std::min<size_t>(s.size() - pos, 1 + W.below(c.maxFrag));
        if (c.abrupt && *sent + n > c.abruptAfter)
            n = c.abruptAfter - *sent;
        if (n == 0)
            return false;
        ssize_t w = write(c.fd, s.data() + pos, n);
        if (w <= 0)
            return false;
        pos += (size_t) w;
        *sent += (u32) w;
        if (W.below(8) == 0)
            sim::sleepNs(1 + W.below(500000));
    }
    return true;
}
void runClient(Client& c) {
    sim::exemptFiber();
    if (c.v6) {
        c.fd = socket(AF_INET6, SOCK_STREAM, 0);
        sockaddr_in6 a{};
        a.sin6_family = AF_INET6;
        a.sin6_port = htons(Port);
        a.sin6_addr = in6addr_loopback;
        if (connect(c.fd, (sockaddr*) &a, sizeof(a)) != 0)
            sim::violate("connect", "a client could not connect");
    } else {
        c.fd = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(Port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (connect(c.fd, (sockaddr*) &a, sizeof(a)) != 0)
            sim::violate("connect", "a client could not connect");
    }
    {
        sim::Quiet q;
        c.sock = sim::cur->proc->fds[c.fd].f->sock.get();
        c.ip = c.sock->ip.size() == 4 ? std::string("\0\0\0\0\0\0\0\0\0\0\xff\xff", 12) + c.sock->ip : c.sock->ip;
        for (auto& r : c.reqs) {
            r->ip = c.ip;
            r->port = c.sock->port;
            if (r->plan == Echo)
                finishEcho(c, *r);
        }
    }
    if (c.stalled) { // never sends anything (or only a part) until everybody else was served
        u32 sent = 0;
        if (W.below(2))
            sendBytes(c, c.reqs[0]->wire.substr(0, c.reqs[0]->wire.size() / 2), &sent);
        sim::waitUntil([] { return closing; });
        close(c.fd);
        return;
    }
    std::string in;
    size_t at = 0;
    bool eof = false, reset = false;
    u32 answered = 0; // complete answers so far
    u32 sentAll = 0;
    bool sending = true;
    bool shut = c.halfClose;
    auto maybeShut = [&] { // all is said: the server closes its side in turn
        if (answered == c.answers && !sending && !c.serverCloses && !shut) {
            shut = true;
            shutdown(c.fd, SHUT_WR);
        }
    };
    auto send = [&] {
        sim::exemptFiber();
        u32 sent = 0;
        for (u32 i = 0; i < c.reqs.size(); i++) {
            if (!c.pipelined && !c.abrupt)
                sim::waitUntil([&] { return answered >= i || eof; });
            if (eof || (!c.pipelined && c.serverCloses && i > 0 && i >= c.answers && !c.noAnswerAtEnd && !c.unclearEnd))
                break;
            if (!sendBytes(c, c.reqs[i]->wire, &sent)) {
                if (c.abrupt && sent == c.abruptAfter) {
                    sim::hit("client went away");
                    if (W.below(2))
                        sim::sleepNs(W.below(1000000));
                }
                break;
            }
            if (c.reqs[i]->kind == Truncated) {
                shutdown(c.fd, SHUT_WR);
                break;
            }
        }
        if (c.halfClose)
            shutdown(c.fd, SHUT_WR);
        sim::Quiet q;
        sending = false;
        maybeShut();
    };
    u32 w;
    {
        sim::Quiet q; // the simulator keeps the function
        w = sim::spawn("client-writer", send);
    }
    if (c.abrupt) { // it does not read, so writing may never end
        sim::waitUntil([&] { return !sending; }, 50000000);
        if (W.below(2)) {
            struct linger l {
                1, 0
            };
            setsockopt(c.fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
        }
        close(c.fd);
        sim::joinFiber(w);
        return;
    }
    char buf[2000];
    while (!eof) {
        ssize_t n = read(c.fd, buf, 1 + W.below(sizeof(buf)));
        sim::Quiet q;
        if (n <= 0) {
            eof = true;
            reset = n < 0;
        } else
            in.append(buf, (size_t) n);
        while (answered < c.answers) {
            std::string who = sim::fmt("client %u, response %u", c.id, answered);
            Parsed p = parse(in, at, eof && !reset && !c.sock->rst, who.c_str());
            Req& r = *c.reqs[answered];
            if (p.haveHeader && p.unframed && !(c.serverCloses && answered + 1 == c.answers))
                sim::violate("response", "%s: its end cannot be recognized", who.c_str());
            matches(r, p, who, !p.complete);
            if (!p.complete)
                break;
            at += p.used;
            answered++;
        }
        if (answered == c.answers && in.size() > at && !c.unclearEnd)
            sim::violate("response", "client %u: %zu extra bytes after the last response: '%s'", c.id, in.size() - at, sim::escape(in.substr(at)).c_str());
        maybeShut();
    }
    sim::joinFiber(w);
    {
        sim::Quiet q;
        bool excused = reset || c.sock->rst || (in.empty() && sim::faultCount(sim::FT_THREAD_ERR));
        if (answered < c.answers && !excused)
            sim::violate("response", "client %u: the connection was closed after %u of %u responses (%zu bytes received)", c.id, answered, c.answers, in.size());
        for (u32 i = 0; i < c.reqs.size(); i++) {
            Req& r = *c.reqs[i];
            bool expected = i < c.answers || (c.unclearEnd && i == c.answers);
            if (!expected && r.calls)
                sim::violate("request", "client %u: request %u was handled after the connection should have been closed", c.id, i);
            if (i < answered && r.kind == Good && !r.calls)
                sim::violate("request", "client %u: request %u was answered without the handler", c.id, i);
        }
        if (answered == c.answers)
            sim::hit("all answered");
        else
            sim::hit("connection broken");
    }
    close(c.fd);
}

std::unique_ptr<Client> makeClient(u32 id, bool calm, bool v6) {
    std::unique_ptr<Client> c(new Client);
    c->id = id;
    c->v6 = v6;
    u32 n = 1 + W.below(4);
    c->pipelined = W.below(2);
    c->halfClose = W.below(2);
    c->maxFrag = W.below(4) ? 5000 : 1 + W.below(20);
    for (u32 i = 0; i < n; i++)
        makeRequest(*c, i + 1 == n, calm);
    bool open = true;
    for (auto& r : c->reqs) {
        if (!open)
            break;
        if (r->kind == Blank) {
            open = false;
            c->noAnswerAtEnd = true;
        } else if (r->kind != Good) {
            c->answers++;
            open = false;
        } else if (r->plan == NoEnd) {
            c->unclearEnd = true;
            open = false;
        } else {
            c->answers++;
            open = r->version == "HTTP/1.1";
        }
    }
    c->serverCloses = !open;
    if (!calm && W.below(6) == 0) {
        if (W.below(2))
            c->stalled = true;
        else {
            c->abrupt = true;
            u32 total = 0;
            for (auto& r : c->reqs)
                total += (u32) r->wire.size();
            c->abruptAfter = W.below(total + 1);
        }
    }
    return c;
}

void c14() {
    sim::randomSchedule(W.below(3) == 0);
    sim::sched.raceDetect = true;
    static const char* env[] = {"HOME=/root", "EMPTY=", "A=<b> & \"c\"", nullptr};
    environ = (char**) env;
    bool v6 = W.below(2);
    Socket::initialize(v6 ? IPAddress::V6 : IPAddress::V4);
    sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0.1 : 0;
    sim::faultRate[sim::FT_SHORT_READ] = sim::faultRate[sim::FT_SHORT_WRITE] = W.below(2) ? 0.2 : 0;
    sim::faultRate[sim::FT_NET_DELAY] = W.below(2) ? 0.05 : 0;
    bool calm = W.below(3) == 0;
    if (!calm && W.below(2) == 0) {
        double r = W.below(2) ? 0.02 : 0.1;
        sim::faultRate[sim::FT_RESET] = W.below(2) ? r : 0;
        sim::faultRate[sim::FT_READ_ERR] = W.below(3) ? 0 : r;
        sim::faultRate[sim::FT_WRITE_ERR] = W.below(3) ? 0 : r;
        sim::faultRate[sim::FT_ACCEPT_ERR] = W.below(3) ? 0 : r * 3;
        sim::faultRate[sim::FT_FD_LIMIT] = W.below(3) ? 0 : r * 2;
        sim::faultRate[sim::FT_THREAD_ERR] = W.below(3) ? 0 : r * 3;
    }
    if (W.below(2)) {
        sim::k::net.sndCap = 1 + W.below(3000);
        sim::k::net.maxSegment = 1 + W.below(1500);
    }
    auto& all = *new std::vector<std::unique_ptr<Client>>; // stays: handlers may still be busy with it
    clients = &all;
    u32 n = 1 + W.below(4);
    for (u32 i = 0; i < n; i++)
        all.push_back(makeClient(i, calm, v6 && W.below(2)));
    for (u32 i = n; i < n + 2; i++) { // these come when everything is calm again
        all.push_back(makeClient(i, true, false));
        all.back()->pipelined = false;
    }
    u32 cookie = 4711;
    sim::Proc* server = nullptr;
    u32 srvFiber;
    {
        sim::Quiet q;
        server = sim::k::newProc("server");
        sim::k::attachNull(server);
        server->sigpipeIgnored = sim::rootProc->sigpipeIgnored;
        srvFiber = sim::k::spawnIn(server, "server", [&] {
            web::runServer(Port, {&handle, &cookie});
            // it only returns if it could not take the port
            if (!sim::faultCount(sim::FT_FD_LIMIT))
                sim::violate("server", "the server stopped");
        });
    }
    auto listening = [&] {
        for (auto& f : server->fds)
            if (f.second.f->sock && f.second.f->sock->st == sim::Sock::Listening)
                return true;
        return false;
    };
    sim::waitUntil([&] { return listening() || sim::fiberDone(srvFiber); });
    if (!listening()) {
        sim::hit("not started");
        return;
    }
    u32 fds0 = sim::k::numFds(server);
    std::vector<u32> ids;
    std::vector<u32> waitFor;
    for (u32 i = 0; i < n; i++) {
        Client* c = all[i].get();
        ids.push_back(sim::spawn("client", [c] { runClient(*c); }));
        if (!c->stalled)
            waitFor.push_back(ids.back());
        if (W.below(3) == 0)
            sim::sleepNs(W.below(3000000));
    }
    for (u32 id : waitFor)
        sim::joinFiber(id);
    sim::noFaults();
    // the server is still there
    u32 last = sim::spawn("last client", [&] { runClient(*all[n]); });
    sim::joinFiber(last);
    SIM_CHECK(!all[n]->sock->rst, "response", "the last client was disconnected");
    {
        sim::Quiet q;
        closing = true;
    }
    for (u32 id : ids)
        sim::joinFiber(id);
    auto calm2 = [&] { return sim::k::numFds(server) <= fds0 && sim::k::numFibers(server) <= 1; };
    if (!sim::waitUntil(calm2, 3600ull * 1000000000))
        sim::violate("fd-leak", "the server keeps descriptors or threads after all clients have gone: %s", sim::k::fdSummary(server).c_str());
    // nor does it lose memory
    u64 live = sim::heapLive();
    {
        sim::Quiet q;
        last = sim::spawn("last client", [&] { runClient(*all[n + 1]); });
    }
    sim::joinFiber(last);
    if (!sim::waitUntil(calm2, 3600ull * 1000000000))
        sim::violate("fd-leak", "the server keeps descriptors or threads after all clients have gone: %s", sim::k::fdSummary(server).c_str());
    SIM_CHECK(sim::heapLive() <= live, "leak", "the server keeps %llu blocks of memory after a client has gone", (unsigned long long) (sim::heapLive() - live));
    SIM_CHECK(!sim::fiberDone(srvFiber), "server", "the server stopped");
    sim::hit("done");
}
SIM_PROP("C14", c14, "web server");
} // namespace
