// C15: the file handlers of the web server give out exactly the files below their root directory.
#include "common.h"
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "webresp.h"
#include <web-common/FetchFromFileSystem.h>
#include <web-common/SourceCode.h>
#include <ply-web-serve-docs/DocServer.h>
using namespace wl;

namespace {
enum Handler { Static, Source, Page, NumHandlers };
struct File {
    std::string path; // below the root
    std::vector<std::string> versions;
    u32 live = 0; // the version that was certainly in place
};
struct World {
    std::string root;                    // absolute, of the handler
    std::map<std::string, File> files;   // by path relative to the root
    std::set<std::string> dirs;
};
World* world;
Handler handler;
std::string cwd;
web::FetchFromFileSystem* fetcher;
web::SourceCode* source;
web::DocServer* docs;

std::string textContent(bool forPage) {
    std::string s;
    u32 lines = W.below(W.below(6) ? 8 : 200);
    bool crlf = !forPage && W.below(4) == 0;
    for (u32 i = 0; i < lines; i++) {
        u32 n = W.below(8) ? W.below(40) : W.below(600);
        for (u32 k = 0; k < n; k++) {
            static const char* units[] = {"a", "b", " ", "<", ">", "&", "\"", "'", "\t", "\xc3\xa9", "\xe2\x82\xac", "z", "0", "{", "}", "%"};
            s += units[W.below(16)];
        }
        if (i + 1 < lines || W.below(3))
            s += crlf ? "\r\n" : "\n";
    }
    return s;
}
// As it is stored: source files may be in another encoding
bool otherEncoding = false;
std::string stored(const std::string& s) {
    u32 enc = handler == Source ? W.below(5) : 0;
    if (!enc || enc == 2)
        return s;
    otherEncoding = true; // not recognized when the start cannot be read
    if (enc == 1)
        return "\xef\xbb\xbf" + s;
    std::string r;
    auto put = [&](u32 u) {
        char lo = (char) (u & 255), hi = (char) (u >> 8);
        r += enc == 3 ? lo : hi;
        r += enc == 3 ? hi : lo;
    };
    put(0xfeff);
    for (size_t i = 0; i < s.size();) {
        u8 c = (u8) s[i];
        u32 len = c < 0x80 ? 1 : c < 0xe0 ? 2 : 3;
        u32 u = len == 1 ? c : len == 2 ? c & 31 : c & 15;
        for (u32 k = 1; k < len; k++)
            u = u << 6 | ((u8) s[i + k] & 63);
        put(u);
        i += len;
    }
    sim::hit("utf-16 file");
    return r;
}
std::string content() {
    if (handler == Static)
        return patternBytes(W.below(3) ? W.below(200) : sizeDraw(W.below(3) ? 4096 : 20000), W.next());
    std::string s = textContent(handler == Page);
    if (handler == Page)
        s = "Title " + std::to_string(W.below(1000)) + "\n" + s;
    return s;
}
const char* const exts[] = {".woff2", ".woff", ".ttf", ".eot", ".png", ".css", ".svg", ".js"};
const char* const mimes[] = {"font/woff2", "font/woff", "font/ttf", "application/vnd.ms-fontobject", "image/png", "text/css", "image/svg+xml", "text/javascript"};
std::string name() {
    static const char* n[] = {"a", "b", "logo", "docs", "x-y_z", "..a", "c..", "\xc3\xa9", "a b", "favicon@32x32", "%2e%2e", "..."};
    return n[W.below(12)];
}
std::string fileName() {
    if (handler == Page)
        return W.below(4) ? name() + ".html" : "index.html";
    if (handler == Source)
        return name() + (W.below(2) ? ".cpp" : "");
    return name() + (W.below(5) ? exts[W.below(8)] : W.below(2) ? ".txt" : "");
}
std::vector<std::string> split(const std::string& p) {
    std::vector<std::string> r;
    std::string c;
    for (char ch : p + "/") {
        if (ch == '/') {
            if (c.size())
                r.push_back(c);
            c.clear();
        } else
            c += ch;
    }
    return r;
}
// Path below the root, or "!" if it leads out of it
std::string resolve(const std::string& p) {
    std::vector<std::string> out;
    for (auto& c : split(p)) {
        if (c == ".")
            continue;
        if (c == "..") {
            if (out.empty())
                return "!";
            out.pop_back();
        } else
            out.push_back(c);
    }
    std::string r;
    for (auto& c : out)
        r += (r.empty() ? "" : "/") + c;
    return r;
}
std::string requestPath() {
    std::string p;
    switch (W.below(4)) {
        case 0:
        case 1: { // an existing file
            auto it = world->files.begin();
            std::advance(it, W.below((u32) world->files.size()));
            p = it->first;
            if (handler == Page && W.below(8)) {
                p = p.substr(0, p.size() - 5);
                if (p == "index")
                    p = "";
                else if (p.size() > 6 && p.compare(p.size() - 6, 6, "/index") == 0)
                    p = p.substr(0, p.size() - (W.below(2) ? 6 : 5));
            }
            if (W.below(3) == 0) { // a detour
                static const char* d[] = {"./", "a/../", ".//", "nosuch/../", "a/b/../../", "docs/./../"};
                p = d[W.below(6)] + p;
            }
            break;
        }
        case 2: { // somewhere
            for (u32 k = 1 + W.below(4); k; k--)
                p += (p.empty() ? "" : "/") + (W.below(3) ? name() : W.below(2) ? std::string("..") : std::string("."));
            p += "/" + fileName();
            break;
        }
        default: { // out of the root
            static const char* out[] = {"../secret.png", "../secret", "../other/secret.png", "../../etc/passwd.png", "../../../../etc/passwd", "a/../../secret.png", "docs/../../secret.png",
                                        "..", "../", "../pages/secret", "/etc/passwd", "//etc/passwd.png", "../../../../../../etc/passwd.png", "./../secret.png", "a/..//../secret.png", "../www2/secret.css",
                                        "a/b/../../../secret.js", "..//secret"};
            p = out[W.below(18)];
            if (W.below(4) == 0)
                p = sim::fmt("../%s/", split(world->root).back().c_str()) + p;
            break;
        }
    }
    return p;
}
std::string escapeXml(const std::string& s) {
    std::string o;
    for (char c : s)
        o += c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : std::string(1, c);
    return o;
}
std::string between(const std::string& s, const std::string& a, const std::string& b, const char* what) {
    size_t i = s.find(a);
    size_t j = i == std::string::npos ? i : s.find(b, i + a.size());
    if (j == std::string::npos)
        sim::violate("response", "the page has no %s", what);
    return s.substr(i + a.size(), j - i - a.size());
}
// The text of a source page
std::string sourceText(const std::string& body) {
    std::string t = between(body, "<tbody>\n", "</tbody>", "table"), r;
    size_t pos = 0;
    for (u32 n = 1; pos < t.size(); n++) {
        std::string open = sim::fmt("<tr><td id=\"L%u\">%u</td><td id=\"LC%u\">", n, n, n);
        size_t e = t.find("</td></tr>", pos);
        if (t.compare(pos, open.size(), open) != 0 || e == std::string::npos)
            sim::violate("response", "line %u of the page is '%s'", n, sim::escape(t.substr(pos, 100)).c_str());
        r += t.substr(pos + open.size(), e - pos - open.size());
        pos = e + 10;
    }
    return r;
}
std::string noCr(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++)
        if (!(s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n'))
            r += s[i];
    return r;
}

void request(std::string uri) {
    std::string path = uri;
    u32 e0 = sim::errFaults();
    size_t ops0;
    std::map<std::string, u32> first;
    {
        sim::Quiet q;
        ops0 = sim::k::fsOps.size();
        for (auto& f : world->files)
            first[f.first] = f.second.live;
    }
    Response resp;
    std::string send = uri;
    if (handler == Static && W.below(2)) {
        send = "/" + uri; // what comes from a client
        if (W.below(3) == 0)
            send += "?v=../1&x.css";
    }
    // the handler sees a part of a larger buffer
    std::string buf = "GET " + send + " HTTP/1.1";
    StringView view{buf.data() + 4, (u32) send.size()};
    if (handler == Static)
        web::FetchFromFileSystem::serve(fetcher, view, &resp);
    else if (handler == Source)
        web::SourceCode::serve(source, view, &resp);
    else
        docs->serveContentOnly(view, &resp);
    bool faulty = sim::errFaults() != e0;
    resp.finish(uri);
    sim::Quiet q;
    std::string shown = sim::escape(uri);
    bool absolute = uri[0] == '/';
    // nothing outside of the root is even looked at
    for (size_t i = ops0; i < sim::k::fsOps.size(); i++) {
        auto& op = sim::k::fsOps[i];
        if (op.fiber != sim::curFiber() || op.op == "getcwd")
            continue;
        std::string opPath = op.path;
        if (opPath[0] == '?') // something on the way does not exist
            opPath = "/" + resolve(opPath[1] == '/' ? opPath.substr(1) : cwd + "/" + opPath.substr(1));
        if (opPath != world->root && opPath.compare(0, world->root.size() + 1, world->root + "/") != 0)
            sim::violate("outside", "'%s': %s of '%s', which is outside of the root '%s'", shown.c_str(), op.op.c_str(), sim::escape(op.path).c_str(), world->root.c_str());
    }
    std::string rel = resolve(uri);
    bool outside = rel == "!" || (handler == Page && absolute);
    if (handler == Page && !outside) {
        if (world->dirs.count(rel) && faulty) { // maybe it could not be recognized as a directory
            sim::hit("unclear");
            return;
        }
        if (world->dirs.count(rel))
            rel += (rel.empty() ? "" : "/") + std::string("index.html");
        else if (uri.size() && (uri.back() == '/' || (uri.size() >= 2 && uri.substr(uri.size() - 2) == "/."))) {
            sim::hit("unclear");
            return;
        } else
            rel += ".html";
    }
    auto f = outside ? world->files.end() : world->files.find(rel);
    const char* mime = nullptr;
    bool unclearExt = false;
    if (handler == Static && f != world->files.end()) {
        std::string n = rel.substr(rel.rfind('/') + 1);
        size_t d = n.rfind('.');
        for (u32 i = 0; i < 8; i++)
            if (d != std::string::npos && d > 0 && n.substr(d) == exts[i])
                mime = mimes[i];
        unclearExt = n.find('.') != d; // more than one dot
        if (!mime)
            f = world->files.end();
    }
    if (f == world->files.end()) {
        if (resp.code != web::ResponseCode::NotFound)
            sim::violate("response", "'%s' is not there, but the answer is %d", shown.c_str(), (int) resp.code);
        sim::hit(outside ? "outside refused" : "not found");
        return;
    }
    if (resp.code != web::ResponseCode::OK) {
        if (resp.code != web::ResponseCode::NotFound)
            sim::violate("response", "'%s': the answer is %d", shown.c_str(), (int) resp.code);
        if (!faulty && !unclearExt)
            sim::violate("response", "'%s' is there, but was not served", shown.c_str());
        sim::hit("failed");
        return;
    }
    if (handler == Static && resp.field("content-type") != mime)
        sim::violate("response", "'%s': the content type is '%s'", shown.c_str(), resp.field("content-type").c_str());
    if (handler != Static && resp.field("content-type").compare(0, 9, "text/html") != 0)
        sim::violate("response", "'%s': the content type is '%s'", shown.c_str(), resp.field("content-type").c_str());
    bool ok = false;
    std::string got = handler == Source ? sourceText(resp.body) : resp.body;
    size_t last = f->second.versions.size();
    for (size_t v = first[rel]; v < last; v++) {
        std::string want = f->second.versions[v];
        if (handler == Source)
            want = escapeXml(noCr(want));
        else if (handler == Page) {
            size_t nl = want.find('\n');
            std::string title = want.substr(0, nl);
            want = title + "\n<h1>" + title + "</h1>\n" + want.substr(nl + 1);
        }
        ok |= got == want || (faulty && handler != Static && want.compare(0, got.size(), got) == 0);
        if (faulty && (handler == Page || (handler == Source && otherEncoding)))
            ok = true; // shown as far as it could be read
    }
    if (!ok)
        sim::violate("contents", "'%s': %zu bytes were served, which are not the contents of the file (%zu bytes): '%s' instead of '%s'", shown.c_str(), got.size(), f->second.versions[last - 1].size(),
                     sim::escape(got).c_str(), sim::escape(f->second.versions[last - 1]).c_str());
    if (handler == Source && between(resp.body, "<title>", "</title>", "title") != escapeXml(rel.substr(rel.rfind('/') + 1)))
        sim::violate("response", "'%s': the title is '%s'", shown.c_str(), sim::escape(between(resp.body, "<title>", "</title>", "title")).c_str());
    sim::hit("served");
    if (first[rel] + 1 < last)
        sim::hit("replaced meanwhile");
}

void c15() {
    sim::randomSchedule(W.below(3) == 0);
    sim::sched.raceDetect = true;
    handler = (Handler) W.below(NumHandlers);
    World w;
    world = &w;
    static const char* roots[] = {"/srv/www", "/srv/www", "/srv/docs/data", "/www"};
    std::string base = roots[W.below(4)];
    w.root = handler == Page ? base + "/pages" : base;
    sim::k::mkdirs(w.root);
    w.dirs.insert("");
    u32 n = 1 + W.below(8);
    for (u32 i = 0; i < n; i++) {
        std::string dir;
        for (u32 k = W.below(3); k; k--) {
            dir += (dir.empty() ? "" : "/") + name();
            if (w.files.count(dir))
                goto next;
        }
        {
            std::string p = (dir.empty() ? "" : dir + "/") + fileName();
            if (w.dirs.count(p) || w.files.count(p))
                continue;
            File f;
            f.path = p;
            f.versions.push_back(content());
            w.files[p] = f;
            std::string d;
            for (auto& c : split(dir)) {
                d += (d.empty() ? "" : "/") + c;
                w.dirs.insert(d);
            }
            sim::k::mkdirs(w.root + (dir.empty() ? "" : "/" + dir));
            sim::k::writeFile(w.root + "/" + p, stored(f.versions[0]));
        }
    next:;
    }
    if (w.files.empty())
        sim::discard("no files");
    if (handler == Page) // other files beside the pages
        for (auto& f : w.files)
            if (f.first.size() > 5 && f.first.substr(f.first.size() - 5) == ".html" && W.below(3) == 0) {
                std::string p = f.first.substr(0, f.first.size() - 5);
                if (!w.dirs.count(p) && !w.files.count(p) && p.back() != '/') {
                    sim::k::writeFile(w.root + "/" + p, "not a page");
                    sim::hit("file beside a page");
                }
            }
    std::string parent = w.root.substr(0, w.root.rfind('/'));
    for (const char* s : {"/secret.png", "/secret", "/secret.html", "/secret.js", "/index.html"})
        sim::k::writeFile(parent + s, "the secret");
    for (const char* d : {"/www2", "/other"}) {
        sim::k::mkdirs(parent + d);
        sim::k::writeFile(parent + d + "/secret.png", "the secret");
        sim::k::writeFile(parent + d + "/secret.css", "the secret");
    }
    sim::k::mkdirs("/etc");
    for (const char* s : {"/etc/passwd", "/etc/passwd.png", "/etc/passwd.html"})
        sim::k::writeFile(s, "the secret");
    // how the root is given
    std::string given = base;
    {
        u32 how = W.below(4);
        sim::k::mkdirs("/work");
        cwd = "/work";
        if (how == 1)
            given += "/";
        else if (how == 2) {
            cwd = "/";
            given = base.substr(1);
        } else if (how == 3)
            given = ".." + base;
        if (chdir(cwd.c_str()) != 0)
            sim::violate("harness", "chdir failed");
    }
    web::FetchFromFileSystem ff;
    web::SourceCode sc;
    web::DocServer ds;
    fetcher = &ff;
    source = &sc;
    docs = &ds;
    ff.rootDir = String{sv(given)};
    sc.rootDir = String{sv(given)};
    ds.dataRoot = String{sv(given)};
    sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0.15 : 0;
    sim::faultRate[sim::FT_SHORT_READ] = W.below(2) ? 0.3 : 0;
    if (W.below(2) == 0) {
        double r = W.below(2) ? 0.05 : 0.2;
        for (auto f : {sim::FT_READ_ERR, sim::FT_OPEN_ERR, sim::FT_STAT_ERR, sim::FT_FD_LIMIT, sim::FT_META_ERR})
            sim::faultRate[f] = W.below(2) ? r : 0;
    }
    sim::k::recordFs = true;
    u32 fds0 = sim::k::numFds(sim::rootProc);
    u32 threads = 1 + W.below(3);
    std::vector<u32> ids;
    u32 busy = threads;
    for (u32 t = 0; t < threads; t++)
        ids.push_back(sim::spawn("server", [&] {
            for (u32 k = 1 + W.below(5); k; k--) {
                std::string p;
                {
                    sim::Quiet q;
                    p = requestPath();
                }
                request(p);
            }
            sim::Quiet q;
            busy--;
        }));
    u32 writer = sim::spawn("writer", [&] {
        sim::exemptFiber();
        for (u32 k = W.below(4); k && busy; k--) {
            for (u32 y = W.below(20); y; y--)
                sim::yield();
            auto it = w.files.begin();
            std::advance(it, W.below((u32) w.files.size()));
            std::string v, tmp = "/work/tmp", to = w.root + "/" + it->first;
            {
                sim::Quiet q;
                v = content();
                sim::k::writeFile(tmp, stored(v));
                it->second.versions.push_back(v); // from now on it may be seen
            }
            if (rename(tmp.c_str(), to.c_str()) != 0)
                sim::violate("harness", "rename failed");
            sim::Quiet q;
            it->second.live = (u32) it->second.versions.size() - 1;
        }
    });
    for (u32 id : ids)
        sim::joinFiber(id);
    sim::joinFiber(writer);
    sim::noFaults();
    SIM_CHECK(sim::k::numFds(sim::rootProc) == fds0, "fd-leak", "descriptors are left open: %s", sim::k::fdSummary(sim::rootProc).c_str());
    sim::hit("done");
}
SIM_PROP("C15", c15, "file handlers");
} // namespace
