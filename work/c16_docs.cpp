// C16: the documentation server shows complete pages and always one complete, current table of contents.
#include "common.h"
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "webresp.h"
#include <ply-web-serve-docs/DocServer.h>
using namespace wl;

namespace {
struct TNode {
    std::string title, link;
    std::vector<TNode> kids;
};
struct Version {
    bool valid = true;
    bool cutsInvalid = true; // so are all texts cut off
    std::string text;
    std::vector<TNode> nodes;
};
std::vector<Version>* versions;
u32 begun, done;       // versions[begun] is being or was written, versions[done] is in place
u32 validDone;         // the newest valid one in place
u32 lowest;            // requests that start now show this version or a newer one
bool anyShown;
std::map<std::string, std::string>* pages;
web::DocServer* docs;
bool faultsOn;

std::string escapeXml(const std::string& s) {
    std::string o;
    for (char c : s)
        o += c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : c == '"' ? "&quot;" : std::string(1, c);
    return o;
}
std::string text(u32 n) {
    static const char* units[] = {"a", "B", " ", "<", ">", "&", "\"", "'", "\xc3\xa9", "\xe2\x82\xac", "z", "0", "\\", "{", "]", ":"};
    std::string s;
    for (u32 i = 1 + W.below(n); i; i--)
        s += units[W.below(16)];
    return s;
}
std::string quote(const std::string& s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\')
            o += '\\';
        o += c;
    }
    return o + "\"";
}
void makeNodes(std::vector<TNode>& out, u32 depth, u32 ver, u32* next) {
    u32 n = (depth ? 0 : 1) + W.below(depth ? 3 : 4);
    for (u32 i = 0; i < n && *next < 25; i++) {
        u32 id = (*next)++;
        TNode t;
        t.title = sim::fmt("v%u.%u ", ver, id) + text(10);
        switch (W.below(4)) {
            case 0:
                break;
            case 1:
                t.link = sim::fmt("/docs/other%u", id);
                break;
            default:
                if (id == 0)
                    t.link = "/";
                else
                    t.link = sim::fmt("/docs/p%u", id); // no two the same
        }
        if (depth < 3 && W.below(2))
            makeNodes(t.kids, depth + 1, ver, next);
        out.push_back(t);
    }
}
void writePylon(std::string& o, const std::vector<TNode>& nodes, u32 indent) {
    std::string in(indent * 2, ' ');
    o += "[\n";
    for (auto& n : nodes) {
        o += in + "  {";
        std::string sep = W.below(2) ? ", " : "\n" + in + "    ";
        o += sep == ", " ? "" : "\n" + in + "    ";
        bool first = true;
        auto field = [&](const char* name) {
            o += (first ? "" : sep) + name + ": ";
            first = false;
        };
        u32 order = W.below(2);
        if (order == 0) {
            field("title");
            o += quote(n.title);
        }
        if (n.link.size() || W.below(2)) {
            field("linkDestination");
            o += quote(n.link);
        }
        if (n.kids.size() || W.below(2)) {
            field("children");
            writePylon(o, n.kids, indent + 2);
        }
        if (order == 1) {
            field("title");
            o += quote(n.title);
        }
        o += "\n" + in + "  }" + (W.below(2) ? "," : "") + "\n";
    }
    o += in + "]";
}
Version makeVersion(u32 ver, bool valid) {
    Version v;
    u32 next = 0;
    makeNodes(v.nodes, 0, ver, &next);
    writePylon(v.text, v.nodes, 0);
    v.text += "\n";
    v.valid = valid;
    if (!valid) {
        switch (W.below(4)) {
            case 0:
                v.text = "";
                break;
            case 1: // cut off before the last bracket
                v.text.resize(W.below((u32) v.text.rfind(']')));
                break;
            case 2:
                v.text.insert(W.below((u32) v.text.size()), 1, '\1');
                v.text += "}";
                v.cutsInvalid = false;
                break;
            default:
                v.text += "]";
                v.cutsInvalid = false;
        }
    }
    return v;
}
// What the sidebar shows
void render(std::string& o, const TNode& n, std::vector<const TNode*> expand) {
    bool expanded = false, selected = false;
    if (expand.size() && expand.back() == &n) {
        expanded = true;
        expand.pop_back();
        selected = expand.empty();
    } else
        expand.clear();
    if (n.link.size())
        o += "<a href=\"" + n.link + "\">";
    o += "<li class=\"selectable";
    if (n.kids.size())
        o += expanded ? " caret caret-down" : " caret";
    if (selected)
        o += " selected";
    o += "\"><span>" + escapeXml(n.title) + "</span></li>\n";
    if (n.link.size())
        o += "</a>";
    if (n.kids.size()) {
        o += expanded ? "<ul class=\"nested active\">\n" : "<ul class=\"nested\">\n";
        for (auto& k : n.kids)
            render(o, k, expand);
        o += "</ul>\n";
    }
}
bool findPath(const std::vector<TNode>& nodes, const std::string& link, std::vector<const TNode*>& out) {
    for (auto& n : nodes) {
        if ((n.link.size() && n.link == link) || findPath(n.kids, link, out)) {
            out.push_back(&n);
            return true;
        }
    }
    return false;
}
std::string renderToc(const Version& v, const std::string& req) {
    std::vector<const TNode*> expand;
    findPath(v.nodes, req.empty() ? "/" : "/docs/" + req, expand);
    std::string o;
    for (auto& n : v.nodes)
        render(o, n, expand);
    return o;
}
std::string squeeze(const std::string& s) { // white space between elements does not matter
    std::string o;
    for (char c : s)
        if (c != '\n')
            o += c;
    while (o.size() && o.back() == ' ')
        o.pop_back();
    while (o.size() && o[0] == ' ')
        o.erase(0, 1);
    return o;
}
std::string between(const std::string& s, const std::string& a, const std::string& b, const char* what, size_t from = 0) {
    size_t i = s.find(a, from);
    size_t j = i == std::string::npos ? i : s.find(b, i + a.size());
    if (j == std::string::npos)
        sim::violate("response", "the page has no %s", what);
    return s.substr(i + a.size(), j - i - a.size());
}
void request(const std::string& req) {
    u32 from, begun0, e0 = sim::errFaults();
    bool shownBefore, current;
    {
        sim::Quiet q;
        from = lowest;
        shownBefore = anyShown;
        begun0 = begun;
        current = !faultsOn && begun == done && validDone == done;
    }
    Response resp;
    std::string buf = "/docs/" + req + " ";
    docs->serve({buf.data() + 6, (u32) req.size()}, &resp);
    resp.finish(req);
    bool faulty = e0 != sim::errFaults();
    sim::Quiet q;
    u32 to = begun;
    if (current && begun == begun0 && (*versions)[validDone].valid) { // in place all the time
        shownBefore = true;
        from = std::max(from, validDone);
    }
    std::string shown = sim::escape(req);
    auto p = pages->find(req);
    if (resp.code == web::ResponseCode::InternalError) {
        if (shownBefore)
            sim::violate("contents", "'%s': there is no table of contents although there was one before", shown.c_str());
        sim::hit("no contents yet");
        return;
    }
    if (resp.code == web::ResponseCode::NotFound) {
        if (p != pages->end() && !faulty)
            sim::violate("response", "the page '%s' was not found", shown.c_str());
        sim::hit("not found");
        return;
    }
    if (resp.code != web::ResponseCode::OK)
        sim::violate("response", "'%s': the answer is %d", shown.c_str(), (int) resp.code);
    if (p == pages->end())
        sim::violate("response", "the page '%s' does not exist, but was served", shown.c_str());
    std::string toc = between(resp.body, "<div class=\"sidebar\">", "</div>", "table of contents");
    size_t ul = toc.find("<ul>"), end = toc.rfind("</ul>");
    if (ul == std::string::npos || end == std::string::npos || end < ul)
        sim::violate("contents", "'%s': there is no table of contents", shown.c_str());
    toc = squeeze(toc.substr(ul + 4, end - ul - 4));
    s64 found = -1;
    for (s64 v = (s64) versions->size() - 1; v >= 0; v--)
        if ((*versions)[v].valid && squeeze(renderToc((*versions)[v], req)) == toc) {
            found = v;
            break;
        }
    if (found < 0)
{
        sim::log("shown: %s", toc.c_str());
        for (auto& v : *versions)
            if (v.valid)
                sim::log("version: %s", squeeze(renderToc(v, req)).c_str());
        sim::violate("contents", "'%s': the table of contents is none of those that were in place: '%s'", shown.c_str(), sim::escape(toc).c_str());
    }
    if (found < (s64) from)
        sim::violate("contents", "'%s': the table of contents is version %lld, but version %u was in place before the request", shown.c_str(), (long long) found, from);
    if (found > (s64) to)
        sim::violate("contents", "'%s': the table of contents is version %lld, which is not in place yet", shown.c_str(), (long long) found);
    size_t nl = p->second.find('\n');
    std::string title = p->second.substr(0, nl), rest = p->second.substr(nl + 1);
    std::string body = between(resp.body, "<article class=\"content\" id=\"article\">", "</article>", "article");
    if (squeeze(body) != squeeze("<h1>" + title + "</h1>\n" + rest) && !(faulty && sim::faultCount(sim::FT_READ_ERR)))
        sim::violate("page", "'%s': the content of the page is '%s' instead of '%s'", shown.c_str(), sim::escape(squeeze(body)).c_str(), sim::escape(rest).c_str());
    if (!(faulty && sim::faultCount(sim::FT_READ_ERR)) && between(resp.body, "<title>", "</title>", "title") != title)
        sim::violate("page", "'%s': wrong title", shown.c_str());
    anyShown = true;
    if ((u32) found > lowest)
        lowest = (u32) found;
    sim::hit("served");
    if (from < to)
        sim::hit("served during an update");
}

std::string root;
std::set<s64>* usedSecs; // modification times have a resolution of seconds
void nextTime() {
    s64 d;
    do {
        d = W.below(3) ? 1 + (s64) W.below(3) : (s64) W.below(400) - 300; // also older than before, as when a backup is put back
        d += (s64) (sim::k::wallNs() / 1000000000);
        if (!usedSecs->count(d) && !usedSecs->count(d + 1))
            break;
    } while (true);
    d -= (s64) (sim::k::wallNs() / 1000000000);
    if (d < 0)
        sim::hit("older file");
    sim::k::wallOffsetNs += d * 1000000000;
    s64 sec = (s64) (sim::k::wallNs() / 1000000000);
    usedSecs->insert(sec);
    usedSecs->insert(sec + 1);
}
void putVersion(Version v, bool inPlace) {
    {
        sim::Quiet q;
        nextTime();
        versions->push_back(v);
        begun = (u32) versions->size() - 1;
    }
    std::string path = root + "/contents.pylon";
    if (inPlace) {
        // (rewriting the same file could show a reader the head of the old and the tail of the new text)
        unlink(path.c_str());
        if (W.below(2))
            sim::yield();
        int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0644);
        size_t pos = 0;
        while (pos < v.text.size()) {
            size_t n = std::min<size_t>(v.text.size() - pos, 1 + W.below(300));
            ssize_t w = write(fd, v.text.data() + pos, n);
            if (w <= 0)
                sim::violate("harness", "write failed");
            pos += (size_t) w;
            sim::yield();
        }
        close(fd);
    } else {
        {
            sim::Quiet q;
            sim::k::writeFile("/srv/tmp", v.text);
        }
        if (rename("/srv/tmp", path.c_str()) != 0)
            sim::violate("harness", "rename failed");
    }
    sim::Quiet q;
    done = begun;
    if (v.valid)
        validDone = done;
}

void c16() {
    sim::randomSchedule(W.below(3) == 0);
    sim::sched.raceDetect = true;
    std::set<s64> secs;
    usedSecs = &secs;
    std::vector<Version> vs;
    versions = &vs;
    std::map<std::string, std::string> pg;
    pages = &pg;
    root = W.below(2) ? "/srv/docs" : "/docs";
    sim::k::mkdirs("/srv");
    sim::k::mkdirs(root + "/pages/dir");
    for (u32 i = W.below(10); i; i--) {
        u32 id = W.below(12);
        pg[sim::fmt("p%u", id)] = sim::fmt("Title %u\n", id) + (W.below(4) ? text(100) : patternBytes(0, 1) + text(3000)) + "\n<p>" + text(20) + "</p>\n";
    }
    for (auto& p : pg)
        sim::k::writeFile(root + "/pages/" + p.first + ".html", p.second);
    if (W.below(2)) {
        pg[""] = "Home\n<p>home</p>\n";
        sim::k::writeFile(root + "/pages/index.html", pg[""]);
    }
    if (W.below(2)) {
        pg["dir"] = "Directory\n" + text(50) + "\n";
        sim::k::writeFile(root + "/pages/dir/index.html", pg["dir"]);
    }
    bool relative = W.below(3) == 0;
    if (chdir(relative ? "/" : "/srv") != 0)
        sim::violate("harness", "chdir failed");
    begun = done = validDone = lowest = 0;
    anyShown = faultsOn = false;
    sim::k::wallOffsetNs += 1000000000ll * 1000;
    {
        Version none;
        none.valid = false;
        vs.push_back(none); // nothing there at first
    }
    if (W.below(5))
        putVersion(makeVersion(1, W.below(5) != 0), false);
    web::DocServer ds;
    docs = &ds;
    std::string given = relative ? root.substr(1) : root;
    double r = W.below(2) ? 0.05 : 0.2;
    bool errs = W.below(2) == 0;
    auto setFaults = [&] {
        sim::faultRate[sim::FT_EINTR] = W.below(2) ? 0.15 : 0;
        sim::faultRate[sim::FT_SHORT_READ] = W.below(2) ? 0.3 : 0;
        if (!errs)
            return;
        faultsOn = true;
        for (auto f : {sim::FT_READ_ERR, sim::FT_OPEN_ERR, sim::FT_STAT_ERR, sim::FT_FD_LIMIT})
            sim::faultRate[f] = W.below(2) ? r : 0;
    };
    if (W.below(3) == 0)
        setFaults();
    ds.init(sv(given));
    setFaults();
    u32 fds0 = sim::k::numFds(sim::rootProc);
    u32 threads = 1 + W.below(4);
    std::vector<u32> ids;
    auto pickPage = [&] {
        sim::Quiet q;
        switch (W.below(6)) {
            case 0:
                return std::string();
            case 1:
                return std::string("nosuch");
            case 2:
                return std::string("dir");
            default:
                if (pg.empty())
                    return std::string("p1");
                auto it = pg.begin();
                std::advance(it, W.below((u32) pg.size()));
                return it->first;
        }
    };
    for (u32 t = 0; t < threads; t++)
        ids.push_back(sim::spawn("server", [&] {
            for (u32 k = 1 + W.below(5); k; k--)
                request(pickPage());
        }));
    u32 writer = sim::spawn("author", [&] {
        sim::exemptFiber();
        for (u32 k = W.below(4); k; k--) {
            for (u32 y = W.below(25); y; y--)
                sim::yield();
            Version v;
            bool inPlace;
            {
                sim::Quiet q;
                v = makeVersion((u32) vs.size(), W.below(4) != 0);
                inPlace = W.below(3) == 0 && v.cutsInvalid;
            }
            putVersion(v, inPlace);
        }
    });
    for (u32 id : ids)
        sim::joinFiber(id);
    sim::joinFiber(writer);
    // when everything is calm again, the newest one is shown, and nothing is lost
    sim::noFaults();
    faultsOn = false;
    for (u32 k = 1 + W.below(3); k; k--)
        request(pickPage());
    SIM_CHECK(sim::k::numFds(sim::rootProc) == fds0, "fd-leak", "descriptors are left open: %s", sim::k::fdSummary(sim::rootProc).c_str());
    std::string page = pickPage();
    Version v;
    {
        sim::Quiet q;
        v = makeVersion((u32) vs.size(), true);
    }
    u64 live[3];
    for (u32 k = 0; k < 3; k++) {
        {
            sim::Quiet q;
            vs.push_back(v);
            begun = done = validDone = (u32) vs.size() - 1;
            nextTime();
            sim::k::writeFile(root + "/contents.pylon", v.text);
        }
        request(page);
        live[k] = sim::heapLive();
    }
    SIM_CHECK(live[2] == live[1], "leak", "%lld blocks of memory are lost when the contents are loaded again", (long long) (live[2] - live[1]));
    sim::hit("done");
}
SIM_PROP("C16", c16, "documentation server");
} // namespace
