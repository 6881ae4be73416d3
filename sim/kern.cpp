// Simulated kernel: file system with a durability model, descriptors, pipes, TCP, processes, clocks.
#include "kern.h"
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <dirent.h>
#include <signal.h>
#include <time.h>
#include <poll.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <sys/select.h>

namespace sim {

Proc* rootProc;
std::vector<Proc*> allProcs;
static Inode* fsRoot;
static u32 nextIno = 1;
static int nextPid = 100;
static u32 gOpenDirs = 0;
static std::vector<Inode*> allInodes;

void unsupported(const char* what) {
    if (cur)
        cur->inKernel++;
    snprintf(result->cls, sizeof(result->cls), "unsupported: %s", what);
    capturePcs(__builtin_return_address(0), __builtin_frame_address(0));
    finishResult(4);
    _exit(0);
}

static inline s64 err(int e) {
    if (cur)
        cur->err = e;
    return -1;
}
void sutRange(const void* p, size_t n, bool w, void* pc, void* bp);

namespace k {
std::function<bool(const std::string&, bool)> openFaultOk;
bool pipeReadErrors = true;
std::function<void*(const std::string&, const std::string&)> dlLoad;
std::function<void*(void*, const std::string&)> dlFind;
bool recordFs = false;
std::vector<FsOp> fsOps;
u32 numFsWrites = 0;
std::function<void(const char*)> onModify;
NetCfg net;
IoCfg io;
s64 wallOffsetNs = 0;
u64 diskFree = ~0ull;
bool shuffleDirs = false;
u64 wallNs() { return 1700000000000000000ull + simNow + wallOffsetNs; }
} // namespace k

static u64 fileTime() { return k::wallNs() / 1000000 * 1000000; }

//============================================================ durability journal
struct NsEdit {
    Inode* dir;
    std::string name;
    Inode* to; // null: removed
};
static std::vector<std::vector<NsEdit>> journal;
static void applyDur(const std::vector<NsEdit>& v) {
    for (auto& e : v)
        if (e.to)
            e.dir->durEnts[e.name] = e.to;
        else
            e.dir->durEnts.erase(e.name);
}
static void commitJournal(size_t n) {
    for (size_t i = 0; i < n; i++)
        applyDur(journal[i]);
    journal.erase(journal.begin(), journal.begin() + n);
}
static void modify(const char* what) {
    k::numFsWrites++;
    if (k::onModify) {
        auto f = k::onModify;
        f(what);
    }
}
static Inode* newInode(Inode::Type t, u32 mode) {
    Inode* n = new Inode;
    n->type = t;
    n->mode = mode;
    n->ino = nextIno++;
    n->mtime = n->ctime = n->atime = fileTime();
    allInodes.push_back(n);
    return n;
}
static void setEnt(Inode* dir, const std::string& name, Inode* to) {
    if (to) {
        dir->ents[name] = to;
        if (to->type == Inode::Dir)
            to->parent = dir;
    } else
        dir->ents.erase(name);
    dir->mtime = dir->ctime = fileTime();
}
static void applyPend(std::string& d, const Inode::Pend& p, size_t take) {
    if (p.trunc) {
        d.resize(p.off);
        return;
    }
    if (take > p.bytes.size())
        take = p.bytes.size();
    if (d.size() < p.off + take)
        d.resize(p.off + take);
    memcpy(&d[0] + p.off, p.bytes.data(), take);
}
static void dataSync(Inode* n) {
    n->durData = n->data;
    n->pend.clear();
}

//============================================================ path resolution
struct Res {
    int e = 0;
    Inode* dir = nullptr;   // parent directory, if it exists
    std::string name;       // last component ("" for "/")
    Inode* node = nullptr;  // null if it does not exist
    bool wantDir = false;   // trailing slash
};
static Res resolveFrom(Inode* base, const std::string& path, bool follow, int depth = 0) {
    Res r;
    if (path.empty()) {
        r.e = ENOENT;
        return r;
    }
    if (path.size() >= 4096) {
        r.e = ENAMETOOLONG;
        return r;
    }
    Inode* d = path[0] == '/' ? fsRoot : base;
    std::vector<std::string> comps;
    size_t i = 0;
    while (i < path.size()) {
        while (i < path.size() && path[i] == '/')
            i++;
        size_t j = i;
        while (j < path.size() && path[j] != '/')
            j++;
        if (j > i)
            comps.push_back(path.substr(i, j - i));
        i = j;
    }
    r.wantDir = path.back() == '/';
    if (comps.empty()) {
        r.dir = d;
        r.node = d;
        return r;
    }
    for (size_t c = 0; c < comps.size(); c++) {
        bool last = c + 1 == comps.size();
        const std::string& nm = comps[c];
        if (d->type != Inode::Dir) {
            r.e = ENOTDIR;
            return r;
        }
        if (nm.size() > 255) {
            r.e = ENAMETOOLONG;
            return r;
        }
        if (!(d->mode & 0100)) {
            r.e = EACCES;
            return r;
        }
        Inode* n = nullptr;
        if (nm == ".")
            n = d;
        else if (nm == "..")
            n = d->parent ? d->parent : d;
        else {
            auto it = d->ents.find(nm);
            if (it != d->ents.end())
                n = it->second;
        }
        if (n && n->type == Inode::Link && (!last || follow || r.wantDir)) {
            if (depth > 20) {
                r.e = ELOOP;
                return r;
            }
            Res s = resolveFrom(d, n->data, true, depth + 1);
            if (s.e)
                return s;
            if (last) {
                s.wantDir = s.wantDir || r.wantDir;
                r = s;
                break;
            }
            n = s.node;
            if (!n) {
                r.e = ENOENT;
                return r;
            }
        } else if (last) {
            r.dir = d;
            r.name = nm;
            r.node = n;
            break;
        }
        if (!n) {
            r.e = ENOENT;
            return r;
        }
        d = n;
    }
    if (r.node && r.wantDir && r.node->type != Inode::Dir)
        r.e = ENOTDIR;
    return r;
}
namespace k {
std::string pathOf(Inode* n) {
    std::string s;
    int guard = 0;
    while (n && n != fsRoot && guard++ < 200) {
        Inode* p = n->parent;
        if (!p)
            return "(deleted)" + s;
        bool found = false;
        for (auto& e : p->ents)
            if (e.second == n) {
                s = "/" + e.first + s;
                found = true;
                break;
            }
        if (!found)
            return "(deleted)" + s;
        n = p;
    }
    return s.empty() ? "/" : s;
}
} // namespace k
static std::string resPath(const Res& r) {
    if (!r.dir)
        return "?";
    if (r.node && r.node->type == Inode::Dir)
        return k::pathOf(r.node);
    std::string s = k::pathOf(r.dir);
    if (s != "/")
        s += "/";
    return s + r.name;
}
static Inode* cwdOf() { return cur && cur->proc && cur->proc->cwd ? cur->proc->cwd : fsRoot; }
static Res resolve(const char* path, bool follow) { return resolveFrom(cwdOf(), path, follow); }
static void rec(const char* op, const Res& r, bool ok, const char* raw) {
    if (k::recordFs)
        k::fsOps.push_back(k::FsOp{op, r.dir ? resPath(r) : std::string("?") + raw, ok, cur && cur->proc ? cur->proc->pid : 0, cur ? cur->id : 0});
    if (tracing || true)
        log("%s(%s) %s", op, escape(raw, strlen(raw), 200).c_str(), ok ? "ok" : "fails");
}

//============================================================ harness-side FS access
namespace k {
Inode* root() { return fsRoot; }
Inode* lookup(const std::string& p, bool follow) {
    Res r = resolveFrom(fsRoot, p, follow);
    return r.e ? nullptr : r.node;
}
static Inode* mkdirsI(const std::string& p) {
    Inode* d = fsRoot;
    size_t i = 0;
    while (i < p.size()) {
        while (i < p.size() && p[i] == '/')
            i++;
        size_t j = p.find('/', i);
        if (j == std::string::npos)
            j = p.size();
        if (j > i) {
            std::string nm = p.substr(i, j - i);
            Inode*& c = d->ents[nm];
            if (!c) {
                c = newInode(Inode::Dir, 0755);
                c->parent = d;
                d->durEnts[nm] = c;
            }
            d = c;
        }
        i = j;
    }
    return d;
}
static Inode* parentOf(const std::string& p, std::string* name) {
    size_t s = p.rfind('/');
    *name = p.substr(s + 1);
    return mkdirsI(p.substr(0, s + 1));
}
void mkdirs(const std::string& p) {
    KernelScope ks;
    mkdirsI(p);
}
void writeFile(const std::string& p, const std::string& data) {
    KernelScope ks;
    std::string nm;
    Inode* d = parentOf(p, &nm);
    Inode* n = d->ents[nm];
    if (!n || n->type != Inode::File)
        n = newInode(Inode::File, 0644);
    d->ents[nm] = n;
    d->durEnts[nm] = n;
    n->data = std::string(data.data(), data.size());
    n->mtime = n->ctime = fileTime();
    dataSync(n);
}
void symlink(const std::string& target, const std::string& p) {
    KernelScope ks;
    std::string nm;
    Inode* d = parentOf(p, &nm);
    Inode* n = newInode(Inode::Link, 0777);
    n->data = target;
    d->ents[nm] = n;
    d->durEnts[nm] = n;
}
void remove(const std::string& p) {
    KernelScope ks;
    Res r = resolveFrom(fsRoot, p, false);
    if (r.e || !r.node || r.name.empty())
        return;
    r.dir->ents.erase(r.name);
    r.dir->durEnts.erase(r.name);
}
bool readFile(const std::string& p, std::string* out) {
    KernelScope ks;
    Inode* n = lookup(p);
    if (!n || n->type != Inode::File)
        return false;
    if (out)
        *out = n->data;
    return true;
}
bool isDir(const std::string& p) {
    KernelScope ks;
    Inode* n = lookup(p);
    return n && n->type == Inode::Dir;
}
static void walkTree(Inode* d, const std::string& p, std::map<std::string, std::string>& out) {
    for (auto& e : d->ents) {
        std::string q = p + "/" + e.first;
        switch (e.second->type) {
            case Inode::Dir:
                out[q] = "d";
                walkTree(e.second, q, out);
                break;
            case Inode::Link:
                out[q] = "l:" + e.second->data;
                break;
            case Inode::File:
                out[q] = "f:" + e.second->data;
                break;
            default:
                out[q] = "x";
        }
    }
}
std::map<std::string, std::string> tree(const std::string& p) {
    KernelScope ks;
    std::map<std::string, std::string> out;
    Inode* d = lookup(p);
    if (d && d->type == Inode::Dir)
        walkTree(d, p == "/" ? "" : p, out);
    return out;
}
void installProgram(const std::string& p, std::function<int(const std::vector<std::string>&)> fn) {
    KernelScope ks;
    writeFile(p, "#!program");
    Inode* n = lookup(p);
    n->mode = 0755;
    n->prog = std::move(fn);
}
void sync() {
    KernelScope ks;
    commitJournal(journal.size());
    for (Inode* n : allInodes)
        if (n->type == Inode::File)
            dataSync(n);
}
void powerLoss() {
    KernelScope ks;
    faultFired(FT_POWER);
    // the directory journal is written in order: some prefix of it survives
    commitJournal(F.below((u32) journal.size() + 1));
    journal.clear();
    for (Inode* n : allInodes) {
        n->ents = n->durEnts;
        if (n->type == Inode::Dir)
            for (auto& e : n->ents)
                if (e.second->type == Inode::Dir)
                    e.second->parent = n;
        if (n->type == Inode::File && n->pend.size()) {
            // unsynced data: writes reach the disk in any order, or not, or torn
            u32 mode = F.below(4);
            std::string d = n->durData;
            if (mode == 1) {
                size_t m = F.below((u32) n->pend.size() + 1);
                for (size_t i = 0; i < m; i++)
                    applyPend(d, n->pend[i], ~0ull >> 1);
            } else if (mode == 2) {
                for (auto& p : n->pend)
                    if (p.trunc || F.below(2))
                        applyPend(d, p, p.trunc ? 0 : F.below((u32) p.bytes.size() + 1));
            } else if (mode == 3) {
                d = n->data;
                for (auto& p : n->pend) // size reached the disk, data did not
                    if (!p.trunc)
                        for (size_t i = 0; i < p.bytes.size() && p.off + i < d.size(); i++)
                            d[p.off + i] = 0;
            }
            n->data = d;
            dataSync(n);
        }
    }
}
bool procAlive(Proc* p) { return !p->dead; }
u32 numFibers(Proc* p) {
    u32 n = 0;
    for (Fiber* f : fibers)
        n += f->proc == p && f->state != Fiber::Done;
    return n;
}
u32 numFds(Proc* p) { return (u32) p->fds.size(); }
u32 numZombies() {
    u32 n = 0;
    for (Proc* p : allProcs)
        n += p->zombie && !p->reaped;
    return n;
}
u32 numOpenDirs() { return gOpenDirs; }
} // namespace k

//============================================================ descriptors
static OpenFile* newOF(OpenFile::Kind kd) {
    OpenFile* f = new OpenFile;
    f->kind = kd;
    return f;
}
static int allocFd(OpenFile* f, bool cloexec, int lo = 0) {
    Proc* p = cur->proc;
    if ((int) p->fds.size() >= p->fdLimit)
        return -1;
    int fd = lo;
    while (p->fds.count(fd))
        fd++;
    p->fds[fd] = FdEnt{f, cloexec};
    f->refs++;
    return fd;
}
static OpenFile* getFd(int fd) {
    Proc* p = cur->proc;
    auto it = p->fds.find(fd);
    return it == p->fds.end() ? nullptr : it->second.f;
}
static void sockClosed(std::shared_ptr<Sock> s);
static void unrefOF(OpenFile* f) {
    if (--f->refs)
        return;
    switch (f->kind) {
        case OpenFile::PipeR:
            if (--f->pipe->readers == 0)
                wakeAll(f->pipe->wq);
            break;
        case OpenFile::PipeW:
            if (--f->pipe->writers == 0)
                wakeAll(f->pipe->rq);
            break;
        case OpenFile::Socket:
            sockClosed(f->sock);
            break;
        default:
            break;
    }
    if (f->ino)
        f->ino->opens--;
    // the OpenFile itself is kept: another fiber may be blocked on it
}
static bool closeFd(Proc* p, int fd) {
    auto it = p->fds.find(fd);
    if (it == p->fds.end())
        return false;
    OpenFile* f = it->second.f;
    p->fds.erase(it);
    unrefOF(f);
    return true;
}

//============================================================ processes
namespace k {
Proc* newProc(const char* name, Proc* parent) {
    KernelScope ks;
    Proc* p = new Proc;
    p->pid = nextPid++;
    p->name = name;
    p->parent = parent;
    p->cwd = fsRoot;
    allProcs.push_back(p);
    return p;
}
void attachNull(Proc* p) {
    KernelScope ks;
    for (int i = 0; i < 3; i++) {
        OpenFile* f = newOF(OpenFile::Null);
        f->flags = O_RDWR;
        f->refs = 1;
        p->fds[i] = FdEnt{f, false};
    }
}
u32 spawnIn(Proc* p, const char* name, std::function<void()> fn) {
    KernelScope ks;
    return newFiber(name, std::move(fn), p)->id;
}
void killProc(Proc* p, int sig) {
    if (p->dead)
        return;
    KernelScope ks;
    log("process %s (pid %d) killed by signal %d", p->name.c_str(), p->pid, sig);
    if (p->isRoot)
        violateAt(nullptr, __builtin_frame_address(0), "killed-by-signal", "the process is killed by signal %d", sig);
    p->dead = true;
    while (p->fds.size())
        closeFd(p, p->fds.begin()->first);
    p->zombie = true;
    p->status = sig;
    if (p->parent)
        wakeAll(p->parent->childQ);
    bool me = false;
    for (Fiber* f : fibers)
        if (f->proc == p) {
            if (f == cur)
                me = true;
            else
                killFiber(f);
        }
    if (me)
        killFiber(cur);
}
std::string fdSummary(Proc* p) {
    KernelScope ks;
    std::string s;
    for (auto& e : p->fds) {
        static const char* names[] = {"file", "dir", "pipe-read-end", "pipe-write-end", "socket", "/dev/null"};
        s += fmt("%d:%s%s ", e.first, names[e.second.f->kind], e.second.cloexec ? "(cloexec)" : "");
    }
    return s;
}
} // namespace k
[[noreturn]] static void exitProc(int code) {
    Proc* p = cur->proc;
    KernelScope ks;
    log("process %s (pid %d) exits with %d", p->name.c_str(), p->pid, code);
    if (p->isRoot)
        violate("root-exit", "the code under test ends the process with exit(%d)", code);
    p->dead = true;
    while (p->fds.size())
        closeFd(p, p->fds.begin()->first);
    p->zombie = true;
    p->status = (code & 255) << 8;
    if (p->parent)
        wakeAll(p->parent->childQ);
    for (Fiber* f : fibers)
        if (f->proc == p && f != cur)
            killFiber(f);
    killFiber(cur);
    __builtin_unreachable();
}
void kernelFiberGone(Fiber*) {}

//============================================================ fork log
struct LogRec {
    u32 kind; // 'd' dup2, 'D' dup, 'c' close, 'f' fcntl, 'o' open, 'h' chdir, 'w' write, 's' signal, 'x' exec, 'e' exit, 'k' killed, 'n' nop
    s32 a, b, c;
    s64 ret;
    u32 len;
};
static char* forkLog; // [u32 used][records]
static const u32 ForkLogSize = 1 << 20;
static void flog(u32 kind, s32 a, s32 b, s32 c, s64 ret, const std::string& str = std::string()) {
    if (!inForkChild)
        return;
    u32& used = *(u32*) forkLog;
    LogRec r{kind, a, b, c, ret, (u32) str.size()};
    if (used + sizeof(r) + r.len + 8 > ForkLogSize)
        return;
    memcpy(forkLog + 4 + used, &r, sizeof(r));
    memcpy(forkLog + 4 + used + sizeof(r), str.data(), r.len);
    used += sizeof(r) + r.len;
}
void forkChildCrashed(int sig) {
    flog('k', sig, 0, 0, 0);
    _exit(0);
}

static Inode* findProgram(const char* file, Res* out) {
    std::string f = file;
    if (f.find('/') != std::string::npos) {
        *out = resolve(file, true);
        return out->e ? nullptr : out->node;
    }
    for (const char* d : {"/usr/local/bin/", "/bin/", "/usr/bin/"}) {
        *out = resolve((d + f).c_str(), true);
        if (!out->e && out->node)
            return out->node;
    }
    out->e = ENOENT;
    return nullptr;
}
static std::string joinArgs(const std::vector<std::string>& v) {
    std::string s;
    for (auto& a : v) {
        u32 n = (u32) a.size();
        s.append((const char*) &n, 4);
        s += a;
    }
    return s;
}
static std::vector<std::string> splitArgs(const std::string& s) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i + 4 <= s.size()) {
        u32 n;
        memcpy(&n, s.data() + i, 4);
        v.push_back(s.substr(i + 4, n));
        i += 4 + n;
    }
    return v;
}
static int execProc(const std::vector<std::string>& a) {
    // a[0] = file, rest = argv. On success does not return.
    Res r;
    Inode* n = findProgram(a[0].c_str(), &r);
    if (!n)
        return r.e ? r.e : ENOENT;
    if (n->type == Inode::Dir || !(n->mode & 0100))
        return EACCES;
    if (!n->prog)
        return ENOEXEC;
    if (inForkChild)
        return 0;
    Proc* p = cur->proc;
    std::vector<int> gone;
    for (auto& e : p->fds)
        if (e.second.cloexec)
            gone.push_back(e.first);
    for (int fd : gone)
        closeFd(p, fd);
    p->execed = true;
    p->fdsAtExec = p->fds;
    p->execPath = resPath(r);
    p->cwdAtExec = k::pathOf(p->cwd);
    p->argv.assign(a.begin() + 1, a.end());
    p->sigHandlers.clear();
    p->name = a[0];
    log("pid %d execs %s", p->pid, p->execPath.c_str());
    int rc;
    {
        Fiber* f = cur;
        u32 saved = f->inKernel;
        f->inKernel = 0;
        rc = n->prog(p->argv);
        f->inKernel = saved;
    }
    exitProc(rc);
}
} // namespace sim

using namespace sim;
using std::string;

#define RA __builtin_return_address(0)
#define FA __builtin_frame_address(0)
#define IN(p, n) sutRange(p, n, false, RA, FA)
#define OUT(p, n) sutRange(p, n, true, RA, FA)
#define SYS()                                                                                      \
    syncPoint();                                                                                   \
    KernelScope ks_
#define HB(f) hbBoth((f)->hb)

extern "C" {
static int fallbackErrno;
int* sim___errno_location() { return cur ? &cur->err : &fallbackErrno; }

//------------------------------------------------------------ open and friends
static s64 doOpen(const char* path, int flags, u32 mode) {
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    bool mayFail = !k::openFaultOk || k::openFaultOk(path, wr);
    if (mayFail && fault(FT_FD_LIMIT))
        return err(F.below(2) ? ENFILE : EMFILE);
    if (mayFail && fault(FT_OPEN_ERR)) {
        static const int es[] = {EACCES, EIO, EMFILE, ENOMEM, EPERM, ENOSPC, EROFS, EINTR, ENXIO, ELOOP};
        int e = es[F.below(wr ? 8 : 5)];
        log("open(%s) injected errno %d", escape(path, strlen(path), 200).c_str(), e);
        return err(e);
    }
    Res r = resolve(path, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)));
    if (!r.e && r.node && (flags & O_CREAT) && (flags & O_EXCL))
        r.e = EEXIST;
    if (!r.e && r.node && r.node->type == Inode::Link)
        r.e = ELOOP;
    if (!r.e && r.node && r.node->type == Inode::Dir && wr)
        r.e = EISDIR;
    if (!r.e && r.node && (flags & O_DIRECTORY) && r.node->type != Inode::Dir)
        r.e = ENOTDIR;
    if (!r.e && r.node && (((flags & O_ACCMODE) != O_WRONLY && !(r.node->mode & 0400)) || (wr && !(r.node->mode & 0200))))
        r.e = EACCES;
    if (!r.e && !r.node) {
        if (!(flags & O_CREAT))
            r.e = ENOENT;
        else if (r.wantDir)
            r.e = EISDIR;
        else if (!(r.dir->mode & 0200))
            r.e = EACCES;
    }
    if (!r.e && (int) cur->proc->fds.size() >= cur->proc->fdLimit)
        r.e = EMFILE;
    rec((flags & O_CREAT) && !r.e && !r.node ? "create" : (flags & O_TRUNC) ? "open-trunc" : wr ? "open-write" : "open", r, !r.e, path);
    if (r.e)
        return err(r.e);
    if (!r.node) {
        modify("create");
        r.node = newInode(Inode::File, mode & ~cur->proc->umask);
        setEnt(r.dir, r.name, r.node);
        journal.push_back({NsEdit{r.dir, r.name, r.node}});
    } else if ((flags & O_TRUNC) && wr && r.node->type == Inode::File) {
        if (r.node->data.size()) {
            modify("truncate");
            r.node->data.clear();
            r.node->pend.push_back(Inode::Pend{true, 0, ""});
        }
        r.node->mtime = fileTime();
    }
    OpenFile* f = newOF(r.node->type == Inode::Dir ? OpenFile::Dir : r.node->type == Inode::Null ? OpenFile::Null : OpenFile::File);
    f->flags = flags;
    f->ino = r.node;
    f->ino->opens++;
    return allocFd(f, flags & O_CLOEXEC);
}
int sim_open(const char* path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    u32 mode = (flags & O_CREAT) ? va_arg(ap, u32) : 0;
    va_end(ap);
    SYS();
    s64 r = doOpen(path, flags, mode);
    flog('o', flags, mode, 0, r, path);
    return (int) r;
}
int sim_open64(const char* path, int flags, u32 mode) {
    SYS();
    return (int) doOpen(path, flags, mode);
}
static Inode* atBase(int dirfd, int* e) {
    if (dirfd == AT_FDCWD)
        return cwdOf();
    OpenFile* f = getFd(dirfd);
    if (!f) {
        *e = EBADF;
        return nullptr;
    }
    if (f->kind != OpenFile::Dir) {
        *e = ENOTDIR;
        return nullptr;
    }
    return f->ino;
}
static string atPath(int dirfd, const char* path, int* e) {
    if (path[0] == '/')
        return path;
    Inode* b = atBase(dirfd, e);
    if (!b)
        return "";
    if (b == cwdOf())
        return path;
    return k::pathOf(b) + "/" + path;
}
int sim_openat(int dirfd, const char* path, int flags, u32 mode) {
    SYS();
    int e = 0;
    string p = atPath(dirfd, path, &e);
    if (e)
        return (int) err(e);
    return (int) doOpen(p.c_str(), flags, mode);
}
int sim_creat(const char* path, u32 mode) {
    SYS();
    return (int) doOpen(path, O_CREAT | O_WRONLY | O_TRUNC, mode);
}
int sim_mkstemp(char* tmpl) {
    SYS();
    size_t n = strlen(tmpl);
    static u32 ctr;
    for (int tries = 0; tries < 100; tries++) {
        u32 v = ctr++ * 7919 + 12345;
        for (int i = 0; i < 6; i++, v /= 26)
            tmpl[n - 6 + i] = 'a' + v % 26;
        s64 r = doOpen(tmpl, O_CREAT | O_EXCL | O_RDWR, 0600);
        if (r >= 0 || cur->err != EEXIST)
            return (int) r;
    }
    return (int) err(EEXIST);
}
int sim_mkostemp(char* tmpl, int) { return sim_mkstemp(tmpl); }
int sim_close(int fd) {
    SYS();
    OpenFile* f = getFd(fd);
    if (!f) {
        flog('c', fd, 0, 0, -1);
        if (!inForkChild)
            hit("close_of_bad_fd");
        log("close(%d) EBADF", fd);
        return (int) err(EBADF);
    }
    HB(f);
    bool bad = f->kind != OpenFile::Null && fault(FT_CLOSE_ERR);
    closeFd(cur->proc, fd);
    log("close(%d)%s", fd, bad ? " EIO/EINTR" : "");
    flog('c', fd, 0, 0, 0);
    return bad ? (int) err(F.below(2) ? EINTR : EIO) : 0;
}
int sim_dup(int fd) {
    SYS();
    OpenFile* f = getFd(fd);
    s64 r = !f ? err(EBADF) : fault(FT_FD_LIMIT) ? err(EMFILE) : allocFd(f, false);
    if (f && r < 0 && cur->err != EMFILE)
        err(EMFILE);
    flog('D', fd, 0, 0, r);
    log("dup(%d) = %d", fd, (int) r);
    return (int) r;
}
static s64 doDup2(int a, int b, bool ce) {
    OpenFile* f = getFd(a);
    if (!f || b < 0)
        return err(EBADF);
    if (a != b) {
        f->refs++;
        closeFd(cur->proc, b);
        cur->proc->fds[b] = FdEnt{f, ce};
    }
    return b;
}
int sim_dup2(int a, int b) {
    SYS();
    s64 r = doDup2(a, b, false);
    flog('d', a, b, 0, r);
    return (int) r;
}
int sim_dup3(int a, int b, int flags) {
    SYS();
    if (a == b)
        return (int) err(EINVAL);
    s64 r = doDup2(a, b, flags & O_CLOEXEC);
    flog('d', a, b, flags & O_CLOEXEC ? 1 : 0, r);
    return (int) r;
}
static s64 doFcntl(int fd, int cmd, long arg) {
    OpenFile* f = getFd(fd);
    if (!f)
        return err(EBADF);
    FdEnt& e = cur->proc->fds[fd];
    switch (cmd) {
        case F_GETFD:
            return e.cloexec ? FD_CLOEXEC : 0;
        case F_SETFD:
            e.cloexec = arg & FD_CLOEXEC;
            return 0;
        case F_GETFL:
            return f->flags;
        case F_SETFL:
            f->flags = (f->flags & ~(O_NONBLOCK | O_APPEND)) | ((int) arg & (O_NONBLOCK | O_APPEND));
            return 0;
        case F_DUPFD:
        case F_DUPFD_CLOEXEC: {
            if (fault(FT_FD_LIMIT))
                return err(EMFILE);
            int r = allocFd(f, cmd == F_DUPFD_CLOEXEC, (int) arg);
            return r < 0 ? err(EMFILE) : r;
        }
        default:
            return err(EINVAL);
    }
}
int sim_fcntl(int fd, int cmd, long arg) {
    SYS();
    s64 r = doFcntl(fd, cmd, arg);
    flog('f', fd, cmd, (s32) arg, r);
    return (int) r;
}
int sim_fcntl64(int fd, int cmd, long arg) { return sim_fcntl(fd, cmd, arg); }
static s64 doPipe(int* fds, int flags) {
    if (fault(FT_FD_LIMIT))
        return err(F.below(2) ? ENFILE : EMFILE);
    auto p = std::make_shared<PipeObj>();
    p->cap = k::net.pipeCap;
    OpenFile* r = newOF(OpenFile::PipeR);
    OpenFile* w = newOF(OpenFile::PipeW);
    r->pipe = w->pipe = p;
    r->flags = O_RDONLY | (flags & O_NONBLOCK);
    w->flags = O_WRONLY | (flags & O_NONBLOCK);
    int a = allocFd(r, flags & O_CLOEXEC);
    if (a < 0)
        return err(EMFILE);
    int b = allocFd(w, flags & O_CLOEXEC);
    if (b < 0) {
        cur->proc->fds.erase(a);
        return err(EMFILE);
    }
    p->readers = p->writers = 1;
    fds[0] = a;
    fds[1] = b;
    log("pipe() = %d,%d", a, b);
    return 0;
}
int sim_pipe(int* fds) {
    OUT(fds, 8);
    SYS();
    if (inForkChild)
        unsupported("pipe between fork and exec");
    return (int) doPipe(fds, 0);
}
int sim_pipe2(int* fds, int flags) {
    OUT(fds, 8);
    SYS();
    return (int) doPipe(fds, flags);
}

//------------------------------------------------------------ read and write
static void raisePipe() {
    Proc* p = cur->proc;
    if (p->sigpipeIgnored || p->sigHandlers.count(SIGPIPE))
        return;
    if (inForkChild)
        forkChildCrashed(SIGPIPE);
    k::killProc(p, SIGPIPE);
}
static size_t capRead(size_t n) {
    if (k::io.maxRead && n > k::io.maxRead)
        n = k::io.maxRead;
    return n;
}
static s64 sockRead(OpenFile* f, void* buf, size_t n, int flags);
static s64 sockWrite(OpenFile* f, const void* buf, size_t n, int flags);
static s64 sockError(OpenFile* f, int e);
static s64 doRead(int fd, void* buf, size_t n, s64 at = -1) {
    OpenFile* f = getFd(fd);
    if (!f)
        return err(EBADF);
    HB(f);
    if (f->kind == OpenFile::Dir)
        return err(EISDIR);
    if ((f->flags & O_ACCMODE) == O_WRONLY && f->kind != OpenFile::Socket)
        return err(EBADF);
    if (f->kind == OpenFile::Null)
        return 0;
    if (n == 0)
        return 0;
    if (fault(FT_EINTR))
        return err(EINTR);
    if ((k::pipeReadErrors || f->kind == OpenFile::File || f->kind == OpenFile::Socket) && fault(FT_READ_ERR)) {
        static const int es[] = {EIO, ECONNRESET, EAGAIN, ETIMEDOUT, EISDIR};
        return f->kind == OpenFile::Socket ? sockError(f, es[1 + 2 * F.below(2)]) : err(es[0]);
    }
    if (n > 1 && fault(FT_SHORT_READ))
        n = 1 + F.below((u32) (n > 100000 ? 100000 : n - 1));
    n = capRead(n);
    switch (f->kind) {
        case OpenFile::File: {
            u64 pos = at >= 0 ? (u64) at : f->pos;
            string& d = f->ino->data;
            size_t m = pos >= d.size() ? 0 : std::min<u64>(n, d.size() - pos);
            memcpy(buf, d.data() + pos, m);
            if (at < 0)
                f->pos += m;
            return m;
        }
        case OpenFile::PipeR: {
            PipeObj* p = f->pipe.get();
            while (p->buf.empty()) {
                if (!p->writers)
                    return 0;
                if (f->flags & O_NONBLOCK)
                    return err(EAGAIN);
                waitOn(p->rq, "read from pipe");
            }
            size_t m = std::min(n, p->buf.size());
            memcpy(buf, p->buf.data(), m);
            p->buf.erase(0, m);
            wakeAll(p->wq);
            HB(f);
            return m;
        }
        case OpenFile::Socket: {
            s64 r = sockRead(f, buf, n, 0);
            HB(f);
            return r;
        }
        default:
            return err(EBADF);
    }
}
static s64 fileWrite(OpenFile* f, const char* b, size_t n, s64 at) {
    Inode* ino = f->ino;
    u64 pos = at >= 0 ? (u64) at : (f->flags & O_APPEND) ? ino->data.size() : f->pos;
    if (ino->data.size() < pos)
        ino->data.resize(pos);
    u64 growth = pos + n > ino->data.size() ? pos + n - ino->data.size() : 0;
    if (ino->sound)
        growth = 0;
    if (growth > k::diskFree) {
        size_t m = (size_t) (n - (growth - k::diskFree));
        faultFired(FT_DISK_FULL);
        if (m == 0)
            return err(ENOSPC);
        n = m;
        growth = k::diskFree;
    }
    if (k::diskFree != ~0ull)
        k::diskFree -= growth;
    modify("write");
    // a process that dies inside write() may leave a prefix behind
    size_t half = n > 1 ? n / 2 : n;
    for (int part = 0; part < 2; part++) {
        size_t o = part ? half : 0, m = part ? n - half : half;
        if (!m)
            continue;
        if (part)
            modify("write-mid");
        if (ino->data.size() < pos + o + m)
            ino->data.resize(pos + o + m);
        memcpy(&ino->data[0] + pos + o, b + o, m);
        ino->pend.push_back(Inode::Pend{false, pos + o, string(b + o, m)});
        if (at < 0)
            f->pos = pos + o + m;
    }
    ino->mtime = fileTime();
    return n;
}
static s64 doWrite(int fd, const void* buf, size_t n, s64 at = -1) {
    OpenFile* f = getFd(fd);
    if (!f)
        return err(EBADF);
    HB(f);
    if (f->kind == OpenFile::Dir || (f->kind != OpenFile::Socket && (f->flags & O_ACCMODE) == O_RDONLY))
        return err(EBADF);
    if (f->kind == OpenFile::Null)
        return n;
    if (fault(FT_EINTR))
        return err(EINTR);
    if (!(f->kind == OpenFile::File && f->ino->sound) && fault(FT_WRITE_ERR)) {
        static const int es[] = {EIO, ENOSPC, EDQUOT, EFBIG};
        if (f->kind == OpenFile::Socket) {
            static const int se[] = {ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENOBUFS};
            return sockError(f, se[F.below(4)]);
        }
        if (f->kind == OpenFile::PipeW)
            return err(EIO);
        return err(es[F.below(4)]);
    }
    if (n > 1 && fault(FT_SHORT_WRITE))
        n = 1 + F.below((u32) (n > 100000 ? 100000 : n - 1));
    if (k::io.maxWrite && n > k::io.maxWrite)
        n = k::io.maxWrite;
    switch (f->kind) {
        case OpenFile::File:
            return fileWrite(f, (const char*) buf, n, at);
        case OpenFile::PipeW: {
            PipeObj* p = f->pipe.get();
            const char* b = (const char*) buf;
            size_t done = 0;
            for (;;) {
                if (!p->readers) {
                    if (done)
                        return done;
                    raisePipe();
                    return err(EPIPE);
                }
                size_t room = p->cap - std::min(p->cap, p->buf.size());
                size_t need = n <= 4096 && n <= p->cap ? n - done : 1;
                if (room >= need && n > done) {
                    size_t m = std::min(room, n - done);
                    p->buf.append(b + done, m);
                    done += m;
                    wakeAll(p->rq);
                }
                if (done == n)
                    break;
                if (f->flags & O_NONBLOCK)
                    return done ? (s64) done : err(EAGAIN);
                waitOn(p->wq, "write to pipe");
            }
            HB(f);
            return done;
        }
        case OpenFile::Socket:
            return sockWrite(f, buf, n, 0);
        default:
            return err(EBADF);
    }
}
s64 sim_read(int fd, void* buf, size_t n) {
    OUT(buf, n);
    SYS();
    if (inForkChild)
        unsupported("read between fork and exec");
    s64 r = doRead(fd, buf, n);
    log("read(%d, %zu) = %lld%s", fd, n, (long long) r, r < 0 ? fmt(" errno %d", cur->err).c_str() : "");
    return r;
}
s64 sim_write(int fd, const void* buf, size_t n) {
    IN(buf, n);
    SYS();
    s64 r = doWrite(fd, buf, n);
    if (inForkChild)
        flog('w', fd, 0, 0, r, string((const char*) buf, n));
    log("write(%d, %zu) = %lld%s", fd, n, (long long) r, r < 0 ? fmt(" errno %d", cur->err).c_str() : "");
    return r;
}
s64 sim_pread(int fd, void* buf, size_t n, off_t o) {
    OUT(buf, n);
    SYS();
    return doRead(fd, buf, n, o);
}
s64 sim_pwrite(int fd, const void* buf, size_t n, off_t o) {
    IN(buf, n);
    SYS();
    return doWrite(fd, buf, n, o);
}
s64 sim_pread64(int fd, void* buf, size_t n, off_t o) { return sim_pread(fd, buf, n, o); }
s64 sim_pwrite64(int fd, const void* buf, size_t n, off_t o) { return sim_pwrite(fd, buf, n, o); }
s64 sim_readv(int fd, const struct iovec* v, int c) {
    SYS();
    s64 t = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len)
            continue;
        s64 r = doRead(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0)
            return t ? t : r;
        t += r;
        if ((size_t) r < v[i].iov_len)
            break;
    }
    return t;
}
s64 sim_writev(int fd, const struct iovec* v, int c) {
    SYS();
    string all;
    for (int i = 0; i < c; i++)
        all.append((const char*) v[i].iov_base, v[i].iov_len);
    return doWrite(fd, all.data(), all.size());
}
off_t sim_lseek(int fd, off_t o, int wh) {
    SYS();
    OpenFile* f = getFd(fd);
    if (!f)
        return err(EBADF);
    if (f->kind != OpenFile::File)
        return f->kind == OpenFile::Null ? 0 : err(ESPIPE);
    HB(f);
    s64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (s64) f->pos : (s64) f->ino->data.size();
    if (b + o < 0)
        return err(EINVAL);
    f->pos = b + o;
    return f->pos;
}
off_t sim_lseek64(int fd, off_t o, int wh) { return sim_lseek(fd, o, wh); }
static int doSync(int fd) {
    OpenFile* f = getFd(fd);
    if (!f)
        return (int) err(EBADF);
    if (f->kind != OpenFile::File && f->kind != OpenFile::Dir)
        return (int) err(EINVAL);
    if (fault(FT_EINTR))
        return (int) err(EINTR);
    if (fault(FT_FSYNC_ERR)) {
        log("fsync(%d) EIO", fd);
        return (int) err(EIO);
    }
    modify("fsync");
    if (f->kind == OpenFile::File)
        dataSync(f->ino);
    commitJournal(journal.size());
    log("fsync(%d)", fd);
    return 0;
}
int sim_fsync(int fd) {
    SYS();
    return doSync(fd);
}
int sim_fdatasync(int fd) {
    SYS();
    return doSync(fd);
}
int sim_ftruncate(int fd, off_t n) {
    SYS();
    OpenFile* f = getFd(fd);
    if (!f || f->kind != OpenFile::File)
        return (int) err(EBADF);
    if (fault(FT_META_ERR))
        return (int) err(EIO);
    modify("truncate");
    f->ino->data.resize(n);
    f->ino->pend.push_back(Inode::Pend{true, (u64) n, ""});
    f->ino->mtime = fileTime();
    return 0;
}
int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
int sim_isatty(int) { return (int) err(ENOTTY); }

//------------------------------------------------------------ stat
static void fillStat(struct stat* st, Inode* n) {
    memset(st, 0, sizeof(*st));
    st->st_ino = n->ino;
    st->st_dev = 1;
    st->st_nlink = 1;
    st->st_uid = st->st_gid = 1000;
    st->st_mode = n->mode | (n->type == Inode::Dir ? S_IFDIR : n->type == Inode::Link ? S_IFLNK : n->type == Inode::Null ? S_IFCHR : S_IFREG);
    st->st_size = n->type == Inode::Dir ? 4096 : n->data.size();
    st->st_blksize = 4096;
    st->st_blocks = (st->st_size + 511) / 512;
    st->st_mtim.tv_sec = n->mtime / 1000000000;
    st->st_mtim.tv_nsec = n->mtime % 1000000000;
    st->st_atim.tv_sec = n->atime / 1000000000;
    st->st_atim.tv_nsec = n->atime % 1000000000;
    st->st_ctim.tv_sec = n->ctime / 1000000000;
    st->st_ctim.tv_nsec = n->ctime % 1000000000;
}
static int doStat(const char* path, struct stat* st, bool follow) {
    if (fault(FT_STAT_ERR)) {
        static const int es[] = {EACCES, EIO, ENOMEM, ELOOP};
        int e = es[F.below(4)];
        log("stat(%s) injected errno %d", escape(path, strlen(path), 200).c_str(), e);
        return (int) err(e);
    }
    Res r = resolve(path, follow);
    if (!r.e && !r.node)
        r.e = ENOENT;
    rec("stat", r, !r.e, path);
    if (r.e)
        return (int) err(r.e);
    fillStat(st, r.node);
    return 0;
}
int sim_stat(const char* p, struct stat* st) {
    OUT(st, sizeof(*st));
    SYS();
    return doStat(p, st, true);
}
int sim_lstat(const char* p, struct stat* st) {
    OUT(st, sizeof(*st));
    SYS();
    return doStat(p, st, false);
}
int sim_stat64(const char* p, struct stat* st) { return sim_stat(p, st); }
int sim_lstat64(const char* p, struct stat* st) { return sim_lstat(p, st); }
int sim_fstatat(int dfd, const char* p, struct stat* st, int flags) {
    OUT(st, sizeof(*st));
    SYS();
    int e = 0;
    string q = atPath(dfd, p, &e);
    if (e)
        return (int) err(e);
    return doStat(q.c_str(), st, !(flags & AT_SYMLINK_NOFOLLOW));
}
int sim_fstat(int fd, struct stat* st) {
    OUT(st, sizeof(*st));
    SYS();
    OpenFile* f = getFd(fd);
    if (!f)
        return (int) err(EBADF);
    if (f->ino) {
        fillStat(st, f->ino); // (on an open file this does not fail)
    } else {
        memset(st, 0, sizeof(*st));
        st->st_mode = f->kind == OpenFile::Socket ? S_IFSOCK : f->kind == OpenFile::Null ? S_IFCHR : S_IFIFO;
    }
    return 0;
}
int sim_fstat64(int fd, struct stat* st) { return sim_fstat(fd, st); }
static int doAccess(const char* p, int mode) {
    if (fault(FT_STAT_ERR))
        return (int) err(F.below(2) ? EACCES : EIO);
    Res r = resolve(p, true);
    if (!r.e && !r.node)
        r.e = ENOENT;
    if (!r.e && (((mode & R_OK) && !(r.node->mode & 0400)) || ((mode & W_OK) && !(r.node->mode & 0200)) || ((mode & X_OK) && !(r.node->mode & 0100))))
        r.e = EACCES;
    rec("access", r, !r.e, p);
    return r.e ? (int) err(r.e) : 0;
}
int sim_access(const char* p, int mode) {
    SYS();
    return doAccess(p, mode);
}
int sim_faccessat(int dfd, const char* p, int mode, int) {
    SYS();
    int e = 0;
    string q = atPath(dfd, p, &e);
    return e ? (int) err(e) : doAccess(q.c_str(), mode);
}

//------------------------------------------------------------ dynamic libraries
static string dlError;
static bool dlErrSet;
static void* dlFail(const string& what) {
    dlError = what;
    dlErrSet = true;
    return nullptr;
}
void* sim_dlopen(const char* path, int) {
    SYS();
    if (!path)
        unsupported("dlopen of the program itself");
    if ((!k::openFaultOk || k::openFaultOk(path, false)) && fault(FT_OPEN_ERR))
        return dlFail(string(path) + ": cannot open shared object file: Input/output error");
    Res r = resolve(path, true);
    rec("dlopen", r, !r.e && r.node, path);
    if (r.e || !r.node || r.node->type != Inode::File)
        return dlFail(string(path) + ": cannot open shared object file: No such file or directory");
    void* h = k::dlLoad ? k::dlLoad(resPath(r), r.node->data) : nullptr;
    if (!h)
        return dlFail(string(path) + ": invalid ELF header");
    return h;
}
void* sim_dlsym(void* h, const char* name) {
    SYS();
    void* s = k::dlFind ? k::dlFind(h, name) : nullptr;
    return s ? s : dlFail(string("undefined symbol: ") + name);
}
char* sim_dlerror() {
    if (!dlErrSet)
        return nullptr;
    dlErrSet = false;
    return const_cast<char*>(dlError.c_str());
}
int sim_dlclose(void*) { return 0; }

//------------------------------------------------------------ namespace
static int metaErr(const char* op, const char* path) {
    static const int es[] = {EACCES, EIO, ENOSPC, EPERM, EROFS, EBUSY, EDQUOT, ENOMEM};
    int e = es[F.below(8)];
    log("%s(%s) injected errno %d", op, escape(path, strlen(path), 200).c_str(), e);
    if (k::recordFs)
        k::fsOps.push_back(k::FsOp{op, string("!") + path, false, cur->proc->pid, cur->id});
    return (int) err(e);
}
static int doMkdir(const char* path, u32 mode) {
    if (fault(FT_META_ERR))
        return metaErr("mkdir", path);
    Res r = resolve(path, false);
    if (r.e == ENOTDIR && r.node)
        r.e = EEXIST;
    if (!r.e && r.node)
        r.e = EEXIST;
    if (!r.e && !(r.dir->mode & 0200))
        r.e = EACCES;
    rec("mkdir", r, !r.e, path);
    if (r.e)
        return (int) err(r.e);
    modify("mkdir");
    Inode* n = newInode(Inode::Dir, mode & ~cur->proc->umask);
    n->parent = r.dir;
    setEnt(r.dir, r.name, n);
    journal.push_back({NsEdit{r.dir, r.name, n}});
    return 0;
}
int sim_mkdir(const char* path, u32 mode) {
    SYS();
    return doMkdir(path, mode);
}
int sim_mkdirat(int dfd, const char* path, u32 mode) {
    SYS();
    int e = 0;
    string q = atPath(dfd, path, &e);
    return e ? (int) err(e) : doMkdir(q.c_str(), mode);
}
static int doUnlink(const char* path) {
    if (fault(FT_META_ERR))
        return metaErr("unlink", path);
    Res r = resolve(path, false);
    if (!r.e && !r.node)
        r.e = ENOENT;
    if (!r.e && r.node->type == Inode::Dir)
        r.e = EISDIR;
    if (!r.e && !(r.dir->mode & 0200))
        r.e = EACCES;
    rec("unlink", r, !r.e, path);
    if (r.e)
        return (int) err(r.e);
    modify("unlink");
    setEnt(r.dir, r.name, nullptr);
    journal.push_back({NsEdit{r.dir, r.name, nullptr}});
    return 0;
}
static int doRmdir(const char* path) {
    if (fault(FT_META_ERR))
        return metaErr("rmdir", path);
    Res r = resolve(path, false);
    if (!r.e && !r.node)
        r.e = ENOENT;
    if (!r.e && r.node->type != Inode::Dir)
        r.e = ENOTDIR;
    if (!r.e && (r.name.empty() || r.name == "."))
        r.e = EINVAL;
    if (!r.e && (r.name == ".." || r.node->ents.size()))
        r.e = ENOTEMPTY;
    if (!r.e && !(r.dir->mode & 0200))
        r.e = EACCES;
    rec("rmdir", r, !r.e, path);
    if (r.e)
        return (int) err(r.e);
    modify("rmdir");
    setEnt(r.dir, r.name, nullptr);
    r.node->parent = nullptr;
    journal.push_back({NsEdit{r.dir, r.name, nullptr}});
    return 0;
}
int sim_unlink(const char* path) {
    SYS();
    return doUnlink(path);
}
int sim_rmdir(const char* path) {
    SYS();
    return doRmdir(path);
}
int sim_remove(const char* path) {
    SYS();
    Res r = resolve(path, false);
    return !r.e && r.node && r.node->type == Inode::Dir ? doRmdir(path) : doUnlink(path);
}
int sim_unlinkat(int dfd, const char* path, int flags) {
    SYS();
    int e = 0;
    string q = atPath(dfd, path, &e);
    if (e)
        return (int) err(e);
    return (flags & AT_REMOVEDIR) ? doRmdir(q.c_str()) : doUnlink(q.c_str());
}
static bool isAncestor(Inode* a, Inode* n) {
    for (int g = 0; n && g < 300; g++, n = n->parent)
        if (n == a)
            return true;
    return false;
}
static int doRename(const char* from, const char* to) {
    if (fault(FT_META_ERR))
        return metaErr("rename", from);
    Res a = resolve(from, false), b = resolve(to, false);
    int e = a.e;
    if (!e && !a.node)
        e = ENOENT;
    if (!e && b.e)
        e = b.e;
    if (!e && (a.name.empty() || a.name == "." || a.name == ".." || b.name.empty() || b.name == "." || b.name == ".."))
        e = EBUSY;
    if (!e && b.node && b.node != a.node) {
        if (a.node->type == Inode::Dir && b.node->type != Inode::Dir)
            e = ENOTDIR;
        else if (a.node->type != Inode::Dir && b.node->type == Inode::Dir)
            e = EISDIR;
        else if (b.node->type == Inode::Dir && b.node->ents.size())
            e = ENOTEMPTY;
    }
    if (!e && !b.node && b.wantDir && a.node->type != Inode::Dir)
        e = ENOTDIR;
    if (!e && a.node->type == Inode::Dir && isAncestor(a.node, b.dir))
        e = EINVAL;
    if (!e && (!(a.dir->mode & 0200) || !(b.dir->mode & 0200)))
        e = EACCES;
    rec("rename-from", a, !e, from);
    rec("rename-to", b, !e, to);
    if (e)
        return (int) err(e);
    if (a.node == b.node)
        return 0;
    modify("rename");
    Inode* n = a.node;
    Inode* victim = b.node;
    setEnt(a.dir, a.name, nullptr);
    setEnt(b.dir, b.name, n);
    if (victim && victim->type == Inode::Dir)
        victim->parent = nullptr;
    journal.push_back({NsEdit{a.dir, a.name, nullptr}, NsEdit{b.dir, b.name, n}});
    return 0;
}
int sim_rename(const char* a, const char* b) {
    SYS();
    return doRename(a, b);
}
int sim_renameat(int d1, const char* a, int d2, const char* b) {
    SYS();
    int e = 0;
    string p = atPath(d1, a, &e), q = e ? "" : atPath(d2, b, &e);
    return e ? (int) err(e) : doRename(p.c_str(), q.c_str());
}
int sim_symlink(const char* target, const char* path) {
    SYS();
    if (fault(FT_META_ERR))
        return metaErr("symlink", path);
    Res r = resolve(path, false);
    if (!r.e && r.node)
        r.e = EEXIST;
    rec("symlink", r, !r.e, path);
    if (r.e)
        return (int) err(r.e);
    modify("symlink");
    Inode* n = newInode(Inode::Link, 0777);
    n->data = target;
    setEnt(r.dir, r.name, n);
    journal.push_back({NsEdit{r.dir, r.name, n}});
    return 0;
}
int sim_link(const char* a, const char* b) {
    SYS();
    if (fault(FT_META_ERR))
        return metaErr("link", b);
    Res x = resolve(a, false), y = resolve(b, false);
    int e = x.e ? x.e : !x.node ? ENOENT : y.e ? y.e : y.node ? EEXIST : x.node->type == Inode::Dir ? EPERM : 0;
    rec("link", y, !e, b);
    if (e)
        return (int) err(e);
    modify("link");
    setEnt(y.dir, y.name, x.node);
    journal.push_back({NsEdit{y.dir, y.name, x.node}});
    return 0;
}
s64 sim_readlink(const char* path, char* buf, size_t n) {
    SYS();
    Res r = resolve(path, false);
    if (r.e || !r.node)
        return err(r.e ? r.e : ENOENT);
    if (r.node->type != Inode::Link)
        return err(EINVAL);
    size_t m = std::min(n, r.node->data.size());
    memcpy(buf, r.node->data.data(), m);
    return m;
}
char* sim_realpath(const char* path, char* out) {
    SYS();
    Res r = resolve(path, true);
    if (r.e || !r.node) {
        err(r.e ? r.e : ENOENT);
        return nullptr;
    }
    string s = resPath(r);
    if (!out)
        out = (char*) malloc(s.size() + 1);
    strcpy(out, s.c_str());
    return out;
}
static int setCwd(const char* path) {
    if (fault(FT_META_ERR))
        return metaErr("chdir", path);
    Res r = resolve(path, true);
    if (!r.e && !r.node)
        r.e = ENOENT;
    if (!r.e && r.node->type != Inode::Dir)
        r.e = ENOTDIR;
    if (!r.e && !(r.node->mode & 0100))
        r.e = EACCES;
    rec("chdir", r, !r.e, path);
    if (r.e)
        return (int) err(r.e);
    cur->proc->cwd = r.node;
    return 0;
}
int sim_chdir(const char* path) {
    SYS();
    int r = setCwd(path);
    flog('h', 0, 0, 0, r, path);
    return r;
}
int sim_fchdir(int fd) {
    SYS();
    int e = 0;
    Inode* n = atBase(fd, &e);
    if (!n)
        return (int) err(e);
    cur->proc->cwd = n;
    return 0;
}
char* sim_getcwd(char* buf, size_t n) {
    SYS();
    string s = k::pathOf(cwdOf());
    if (s.find("(deleted)") == 0) {
        err(ENOENT);
        return nullptr;
    }
    if (fault(FT_STAT_ERR)) {
        err(EACCES);
        return nullptr;
    }
    if (s.size() + 1 > n) {
        err(ERANGE);
        return nullptr;
    }
    sutRange(buf, s.size() + 1, true, RA, FA);
    memcpy(buf, s.c_str(), s.size() + 1);
    return buf;
}
int sim_chmod(const char* path, u32 mode) {
    SYS();
    Res r = resolve(path, true);
    if (r.e || !r.node)
        return (int) err(r.e ? r.e : ENOENT);
    r.node->mode = mode & 07777;
    return 0;
}
int sim_fchmod(int fd, u32 mode) {
    SYS();
    OpenFile* f = getFd(fd);
    if (!f || !f->ino)
        return (int) err(EBADF);
    f->ino->mode = mode & 07777;
    return 0;
}
u32 sim_umask(u32 m) {
    u32 o = cur->proc->umask;
    cur->proc->umask = m;
    return o;
}

//------------------------------------------------------------ directories
struct SimDir {
    u64 magic;
    Inode* ino;
    std::vector<string> names;
    size_t i;
    struct dirent ent;
    int fd;
};
static const u64 DirMagic = 0x5d5d5d5d11223344ull;
static SimDir* makeDir(Inode* n, int fd) {
    SimDir* d = new SimDir;
    d->magic = DirMagic;
    d->ino = n;
    d->fd = fd;
    d->names = {".", ".."};
    for (auto& e : n->ents)
        d->names.push_back(e.first);
    if (k::shuffleDirs)
        for (size_t i = d->names.size(); i > 1; i--)
            std::swap(d->names[i - 1], d->names[i - 1 - F.below((u32) i)]);
    d->i = 0;
    gOpenDirs++;
    return d;
}
DIR* sim_opendir(const char* path) {
    SYS();
    bool mayFail = !k::openFaultOk || k::openFaultOk(path, false);
    if (mayFail && fault(FT_FD_LIMIT)) {
        err(EMFILE);
        return nullptr;
    }
    if (mayFail && fault(FT_OPEN_ERR)) {
        static const int es[] = {EACCES, EIO, EMFILE, ENOMEM};
        int e = es[F.below(4)];
        log("opendir(%s) injected errno %d", escape(path, strlen(path), 200).c_str(), e);
        err(e);
        return nullptr;
    }
    Res r = resolve(path, true);
    if (!r.e && !r.node)
        r.e = ENOENT;
    if (!r.e && r.node->type != Inode::Dir)
        r.e = ENOTDIR;
    if (!r.e && !(r.node->mode & 0400))
        r.e = EACCES;
    rec("opendir", r, !r.e, path);
    if (r.e) {
        err(r.e);
        return nullptr;
    }
    OpenFile* f = newOF(OpenFile::Dir);
    f->ino = r.node;
    r.node->opens++;
    int fd = allocFd(f, true);
    if (fd < 0) {
        r.node->opens--;
        err(EMFILE);
        return nullptr;
    }
    return (DIR*) makeDir(r.node, fd);
}
DIR* sim_fdopendir(int fd) {
    SYS();
    OpenFile* f = getFd(fd);
    if (!f || f->kind != OpenFile::Dir) {
        err(f ? ENOTDIR : EBADF);
        return nullptr;
    }
    return (DIR*) makeDir(f->ino, fd);
}
int sim_dirfd(DIR* d) { return ((SimDir*) d)->fd; }
struct dirent* sim_readdir(DIR* dp) {
    SYS();
    SimDir* d = (SimDir*) dp;
    if (!d || d->magic != DirMagic)
        violateAt(RA, FA, "closed-dir-use", "readdir on a directory stream that is not open");
    while (d->i < d->names.size()) {
        if (d->i > 0 && fault(FT_READDIR_ERR)) {
            log("readdir injected EIO");
            d->i = d->names.size();
            err(EIO);
            return nullptr;
        }
        const string& nm = d->names[d->i++];
        memset(&d->ent, 0, sizeof(d->ent));
        Inode* n = nullptr;
        if (nm == ".")
            n = d->ino;
        else if (nm == "..")
            n = d->ino->parent ? d->ino->parent : d->ino;
        else {
            auto it = d->ino->ents.find(nm);
            if (it == d->ino->ents.end())
                continue; // removed meanwhile
            n = it->second;
        }
        strncpy(d->ent.d_name, nm.c_str(), sizeof(d->ent.d_name) - 1);
        d->ent.d_ino = n->ino;
        d->ent.d_type = n->type == Inode::Dir ? DT_DIR : n->type == Inode::Link ? DT_LNK : n->type == Inode::Null ? DT_CHR : DT_REG;
        if (fault(FT_DTYPE_UNKNOWN))
            d->ent.d_type = DT_UNKNOWN;
        return &d->ent;
    }
    return nullptr; // errno unchanged
}
struct dirent* sim_readdir64(DIR* d) { return sim_readdir(d); }
void sim_rewinddir(DIR* d) { ((SimDir*) d)->i = 0; }
int sim_closedir(DIR* dp) {
    SYS();
    SimDir* d = (SimDir*) dp;
    if (!d || d->magic != DirMagic)
        violateAt(RA, FA, "closed-dir-use", "closedir on a directory stream that is not open");
    d->magic = 0;
    gOpenDirs--;
    closeFd(cur->proc, d->fd);
    return 0;
}

//------------------------------------------------------------ processes
int sim_fork() {
    SYS();
    if (fault(FT_NOMEM)) {
        log("fork fails");
        return (int) err(EAGAIN);
    }
    Proc* me = cur->proc;
    Proc* c = k::newProc("child", me);
    c->cwd = me->cwd;
    c->umask = me->umask;
    c->sigpipeIgnored = me->sigpipeIgnored;
    c->sigHandlers = me->sigHandlers;
    c->fdLimit = me->fdLimit;
    c->fds = me->fds;
    for (auto& e : c->fds)
        e.second.f->refs++;
    *(u32*) forkLog = 0;
    log("fork() = %d", c->pid);
    pid_t r = ::fork();
    if (r < 0)
        unsupported("real fork failed");
    if (r == 0) {
        inForkChild = true;
        tracing = false;
        cur->proc = c;
        return 0;
    }
    int st = 0;
    while (::waitpid(r, &st, 0) < 0 && errno == EINTR)
        ;
    if (result->status == 2 || result->status == 4)
        _exit(0);
    if (WIFSIGNALED(st))
        violateAt(RA, FA, "fork-child-hang", "the code between fork and exec does not finish (signal %d)", WTERMSIG(st));
    string lg(forkLog + 4, *(u32*) forkLog);
    newFiber(fmt("pid%d", c->pid).c_str(), [c, lg] {
        size_t i = 0;
        while (i < lg.size()) {
            LogRec q;
            memcpy(&q, lg.data() + i, sizeof(q));
            string str = lg.substr(i + sizeof(q), q.len);
            i += sizeof(q) + q.len;
            s64 ret = q.ret;
            switch (q.kind) {
                case 'd':
                    ret = q.c ? sim_dup3(q.a, q.b, O_CLOEXEC) : sim_dup2(q.a, q.b);
                    break;
                case 'D':
                    ret = sim_dup(q.a);
                    break;
                case 'c':
                    ret = sim_close(q.a);
                    ret = q.ret; // injected close errors do not matter here
                    break;
                case 'f':
                    ret = sim_fcntl(q.a, q.b, q.c);
                    break;
                case 'o': {
                    SYS();
                    double keep[2] = {faultRate[FT_OPEN_ERR], faultRate[FT_FD_LIMIT]};
                    faultRate[FT_OPEN_ERR] = faultRate[FT_FD_LIMIT] = 0;
                    ret = doOpen(str.c_str(), q.a, q.b);
                    faultRate[FT_OPEN_ERR] = keep[0];
                    faultRate[FT_FD_LIMIT] = keep[1];
                    break;
                }
                case 'h': {
                    SYS();
                    double keep = faultRate[FT_META_ERR];
                    faultRate[FT_META_ERR] = 0;
                    setCwd(str.c_str());
                    faultRate[FT_META_ERR] = keep;
                    break;
                }
                case 'w':
                    sim_write(q.a, str.data(), str.size());
                    break;
                case 's':
                    if (q.a == SIGPIPE)
                        c->sigpipeIgnored = q.b == 1;
                    break;
                case 'x': {
                    SYS();
                    if (execProc(splitArgs(str)))
                        unsupported("exec result changed between fork and replay");
                    break;
                }
                case 'e':
                    exitProc(q.a);
                case 'k': {
                    KernelScope ks;
                    hit("fork_child_crashed");
                    k::killProc(c, q.a);
                    break;
                }
            }
            if (ret != q.ret)
                unsupported("fork replay diverged");
        }
        unsupported("fork child ended without exec or exit");
    }, c);
    return c->pid;
}
int sim_vfork() { return sim_fork(); }
static int doExec(const char* file, char* const* argv) {
    std::vector<string> a{file};
    for (int i = 0; argv && argv[i]; i++)
        a.push_back(argv[i]);
    if (!inForkChild)
        unsupported("exec outside a forked child");
    int e = execProc(a);
    if (e)
        return (int) err(e);
    flog('x', 0, 0, 0, 0, joinArgs(a));
    _exit(0);
}
int sim_execvp(const char* file, char* const* argv) {
    SYS();
    return doExec(file, argv);
}
int sim_execv(const char* file, char* const* argv) {
    SYS();
    return doExec(file, argv);
}
int sim_execve(const char* file, char* const* argv, char* const*) {
    SYS();
    return doExec(file, argv);
}
int sim_execvpe(const char* file, char* const* argv, char* const*) {
    SYS();
    return doExec(file, argv);
}
[[noreturn]] void sim__exit(int code) {
    KernelScope ks_;
    if (inForkChild) {
        flog('e', code, 0, 0, 0);
        _exit(0);
    }
    exitProc(code);
}
[[noreturn]] void sim_exit(int code) { sim__exit(code); }
[[noreturn]] void sim_quick_exit(int code) { sim__exit(code); }
[[noreturn]] void sim_abort() {
    if (inForkChild)
        forkChildCrashed(SIGABRT);
    violateAt(RA, FA, "crash:abort", "abort() called");
}
int sim_waitpid(int pid, int* status, int opts) {
    SYS();
    Proc* me = cur->proc;
    for (;;) {
        bool any = false;
        for (Proc* p : allProcs)
            if (p->parent == me && !p->reaped && (pid <= 0 || p->pid == pid)) {
                any = true;
                if (p->zombie) {
                    p->reaped = true;
                    if (status)
                        *status = p->status;
                    log("waitpid(%d) = %d status %#x", pid, p->pid, p->status);
                    return p->pid;
                }
            }
        if (!any)
            return (int) err(ECHILD);
        if (opts & WNOHANG)
            return 0;
        if (fault(FT_EINTR))
            return (int) err(EINTR);
        waitOn(me->childQ, "waitpid");
    }
}
int sim_wait(int* st) { return sim_waitpid(-1, st, 0); }
int sim_wait4(int pid, int* st, int o, void*) { return sim_waitpid(pid, st, o); }
int sim_kill(int pid, int sig) {
    SYS();
    for (Proc* p : allProcs)
        if (p->pid == pid && !p->reaped) {
            if (sig && !p->dead)
                k::killProc(p, sig);
            return 0;
        }
    return (int) err(ESRCH);
}
int sim_raise(int sig) {
    if (inForkChild)
        forkChildCrashed(sig);
    violateAt(RA, FA, "crash:raise", "raise(%d)", sig);
}
int sim_getpid() { return cur && cur->proc ? cur->proc->pid : 1; }
int sim_getppid() { return cur->proc->parent ? cur->proc->parent->pid : 1; }
int sim_setpgid(int, int) { return 0; }
int sim_setsid() { return 1; }
u32 sim_getuid() { return 1000; }
u32 sim_geteuid() { return 1000; }
void* sim_signal(int sig, void* h) {
    SYS();
    if (sig == SIGPIPE)
        cur->proc->sigpipeIgnored = h == (void*) SIG_IGN;
    flog('s', sig, h == (void*) SIG_IGN ? 1 : 0, 0, 0);
    void* old = nullptr;
    if (cur->proc->sigHandlers.count(sig))
        old = cur->proc->sigHandlers[sig];
    cur->proc->sigHandlers.erase(sig);
    if (h != (void*) SIG_IGN && h != (void*) SIG_DFL)
        cur->proc->sigHandlers[sig] = h;
    return old;
}
int sim_sigaction(int sig, const struct sigaction* a, struct sigaction* o) {
    SYS();
    if (o)
        memset(o, 0, sizeof(*o));
    if (a && sig == SIGPIPE) {
        cur->proc->sigpipeIgnored = a->sa_handler == SIG_IGN;
        if (a->sa_handler != SIG_IGN && a->sa_handler != SIG_DFL)
            cur->proc->sigHandlers[sig] = (void*) a->sa_handler;
        flog('s', sig, a->sa_handler == SIG_IGN ? 1 : 0, 0, 0);
    }
    return 0;
}
int sim_sigprocmask(int, const void*, void*) { return 0; }
int sim_pthread_sigmask(int, const void*, void*) { return 0; }
char* sim_getenv(const char* n) {
    static std::map<string, string> keep;
    KernelScope ks;
    if (!cur || !cur->proc)
        return nullptr;
    auto it = cur->proc->env.find(n);
    if (it == cur->proc->env.end())
        return nullptr;
    string& s = keep[n];
    s = it->second;
    return &s[0];
}
long sim_sysconf(int name) {
    switch (name) {
        case _SC_PAGESIZE:
            return 4096;
        case _SC_OPEN_MAX:
            return cur->proc->fdLimit;
        case _SC_NPROCESSORS_ONLN:
        case _SC_NPROCESSORS_CONF:
            return 4;
        default:
            return sysconf(name);
    }
}
int sim_getpagesize() { return 4096; }

//------------------------------------------------------------ memory mapping
// Real pages at simulated addresses: seeded placement, exact bookkeeping of what is mapped.
struct Mapping {
    u64 size;
    int prot;
};
static std::map<u64, Mapping> maps; // by address; split so that each entry has one protection
static const u64 Page = 4096;

static void realMap(u64 a, u64 n, int prot) {
    void* p = mmap((void*) a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p == MAP_FAILED)
        sim::unsupported("cannot map real pages");
}
static void splitAt(u64 a) {
    auto it = maps.upper_bound(a);
    if (it == maps.begin())
        return;
    --it;
    if (it->first < a && a < it->first + it->second.size) {
        Mapping m = it->second;
        it->second.size = a - it->first;
        m.size -= it->second.size;
        maps[a] = m;
    }
}
static bool allMapped(u64 a, u64 n, bool usable) {
    u64 at = a;
    auto it = maps.upper_bound(a);
    if (it == maps.begin())
        return false;
    --it;
    while (at < a + n) {
        if (it == maps.end() || it->first > at || it->first + it->second.size <= at)
            return false;
        if (usable && !(it->second.prot & PROT_WRITE))
            return false;
        at = it->first + it->second.size;
        ++it;
    }
    return true;
}
static std::vector<std::pair<u64, u64>> holes() {
    std::vector<std::pair<u64, u64>> r;
    u64 at = mapLo();
    for (auto& m : maps) {
        if (m.first > at)
            r.push_back({at, m.first});
        at = m.first + m.second.size;
    }
    if (at < mapLo() + mapSize())
        r.push_back({at, mapLo() + mapSize()});
    return r;
}
static struct {
    u64 a, n;
} early[64]; // mapped while static objects were initialized, before any run: really
static u32 numEarly;
static bool isEarly(const void* p, u64 n) {
    for (u32 i = 0; i < numEarly; i++)
        if ((u64) p >= early[i].a && (u64) p + n <= early[i].a + early[i].n)
            return true;
    return false;
}
void* sim_mmap(void* addr, size_t n, int prot, int flags, int fd, off_t off) {
    if (!simOn) {
        void* p = mmap(addr, n, prot, flags | MAP_NORESERVE, fd, off);
        if (p != MAP_FAILED && numEarly < 64)
            early[numEarly++] = {(u64) p, n};
        return p;
    }
    SYS();
    if (!(flags & MAP_ANONYMOUS) || !(flags & MAP_PRIVATE) || (flags & MAP_FIXED) || addr)
        sim::unsupported("mmap of this kind");
    if (!n) {
        err(EINVAL);
        return MAP_FAILED;
    }
    n = (n + Page - 1) & ~(Page - 1);
    if (fault(FT_MMAP_ERR)) {
        err(ENOMEM);
        return MAP_FAILED;
    }
    std::vector<std::pair<u64, u64>> hs;
    for (auto& h : holes())
        if (h.second - h.first >= n)
            hs.push_back(h);
    if (hs.empty())
        sim::unsupported("simulated address space exhausted");
    u64 a;
    switch (k::map.placement) {
        case 0:
            a = hs.back().second - n;
            for (auto& h : hs) // top down from the lowest mapping, as long as there is room below it
                if (h.first == mapLo() && !maps.empty())
                    a = h.second - n;
            break;
        case 1:
            a = hs[0].first;
            break;
        case 2: {
            auto& h = hs[F.below((u32) hs.size())];
            a = h.first + (h.second - h.first - n) / Page / 2 * Page;
            break;
        }
        default: {
            auto& h = hs[hs.size() - 1 - F.below((u32) hs.size())];
            u64 room = (h.second - h.first - n) / Page;
            switch (F.below(3)) {
                case 0:
                    a = h.second - n;
                    break;
                case 1:
                    a = h.first;
                    break;
                default:
                    a = h.first + F.below((u32) room + 1) * Page;
            }
        }
    }
    realMap(a, n, prot);
    maps[a] = Mapping{n, prot};
    raceForgetRange((void*) a, n);
    log("mmap %llu pages at +%llu", (unsigned long long) (n / Page), (unsigned long long) ((a - mapLo()) / Page));
    return (void*) a;
}
static bool mapArg(const char* what, void* addr, u64* n, void* ra, void* fa) {
    if ((u64) addr % Page)
        return false;
    *n = (*n + Page - 1) & ~(Page - 1);
    if (!*n)
        return false;
    if ((u64) addr < mapLo() || (u64) addr + *n > mapLo() + mapSize() || !allMapped((u64) addr, *n, false))
        violateAt(ra, fa, "map", "%s of %llu pages that are not all mapped", what, (unsigned long long) (*n / Page));
    splitAt((u64) addr);
    splitAt((u64) addr + *n);
    return true;
}
int sim_munmap(void* addr, size_t n_) {
    if (!simOn || isEarly(addr, n_))
        return munmap(addr, n_);
    SYS();
    u64 n = n_;
    if (!mapArg("munmap", addr, &n, RA, FA))
        return (int) err(EINVAL);
    if (fault(FT_NOMEM)) // too many mappings
        return (int) err(ENOMEM);
    u64 a = (u64) addr;
    realMap(a, n, PROT_NONE);
    maps.erase(maps.lower_bound(a), maps.lower_bound(a + n));
    raceForgetRange(addr, n);
    log("munmap %llu pages at +%llu", (unsigned long long) (n / Page), (unsigned long long) ((a - mapLo()) / Page));
    return 0;
}
int sim_mprotect(void* addr, size_t n_, int prot) {
    if (!simOn || isEarly(addr, n_))
        return mprotect(addr, n_, prot);
    SYS();
    u64 n = n_;
    if (!mapArg("mprotect", addr, &n, RA, FA))
        return (int) err(EINVAL);
    u64 a = (u64) addr;
    mprotect(addr, n, prot);
    for (auto it = maps.lower_bound(a); it != maps.end() && it->first < a + n; ++it)
        it->second.prot = prot;
    return 0;
}
int sim_madvise(void* addr, size_t n_, int advice) {
    if (!simOn || isEarly(addr, n_))
        return madvise(addr, n_, advice);
    SYS();
    u64 n = n_;
    if (!mapArg("madvise", addr, &n, RA, FA))
        return (int) err(EINVAL);
    if (advice == MADV_DONTNEED) {
        for (auto it = maps.lower_bound((u64) addr); it != maps.end() && it->first < (u64) addr + n; ++it)
            realMap(it->first, it->second.size, it->second.prot);
        raceForgetRange(addr, n);
    }
    return 0;
}
} // extern "C"
namespace sim {
namespace k {
MapCfg map;
u64 mappedBytes() {
    u64 n = 0;
    for (auto& m : maps)
        n += m.second.size;
    return n;
}
u32 numMappings() {
    u32 n = 0;
    u64 end = 0;
    for (auto& m : maps) {
        n += m.first != end;
        end = m.first + m.second.size;
    }
    return n;
}
bool isMapped(const void* p, size_t n, bool usable) { return allMapped((u64) p, n, usable); }
} // namespace k
} // namespace sim
extern "C" {
int sim_sched_setaffinity(int, size_t, const void*) { return 0; }

//------------------------------------------------------------ clocks
static void maybeJump() {
    if (faultRate[FT_CLOCK_JUMP] > 0 && fault(FT_CLOCK_JUMP)) {
        s64 mag = 1000000ll << F.below(24);
        k::wallOffsetNs += F.below(2) ? mag : -mag;
    }
}
static void getTs(int id, struct timespec* ts) {
    u64 t;
    simNow += 30;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        maybeJump();
        t = k::wallNs();
    } else
        t = simNow + 1000000000ull;
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
}
int sim_clock_gettime(int id, struct timespec* ts) {
    OUT(ts, sizeof(*ts));
    SYS();
    getTs(id, ts);
    return 0;
}
int sim_gettimeofday(struct timeval* tv, void*) {
    SYS();
    struct timespec ts;
    getTs(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
long sim_time(long* t) {
    SYS();
    struct timespec ts;
    getTs(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
int sim_nanosleep(const struct timespec* req, struct timespec* rem) {
    SYS();
    if (req->tv_nsec < 0 || req->tv_nsec >= 1000000000 || req->tv_sec < 0)
        return (int) err(EINVAL);
    u64 ns = req->tv_sec * 1000000000ull + req->tv_nsec;
    if (ns > 1 && fault(FT_EINTR)) {
        u64 part = F.below((u32) std::min<u64>(ns - 1, 4000000000u));
        u64 t0 = simNow;
        sleepNs(part);
        u64 slept = simNow - t0;
        u64 left = slept >= ns ? 0 : ns - slept;
        if (rem) {
            rem->tv_sec = left / 1000000000;
            rem->tv_nsec = left % 1000000000;
        }
        return (int) err(EINTR);
    }
    sleepNs(ns);
    return 0;
}
int sim_clock_nanosleep(int id, int flags, const struct timespec* req, struct timespec* rem) {
    if (flags & TIMER_ABSTIME) {
        SYS();
        u64 t = req->tv_sec * 1000000000ull + req->tv_nsec;
        u64 now = id == CLOCK_REALTIME ? k::wallNs() : simNow + 1000000000ull;
        if (t > now)
            sleepNs(t - now);
        return 0;
    }
    int r = sim_nanosleep(req, rem);
    return r < 0 ? cur->err : 0;
}
int sim_usleep(u32 us) {
    struct timespec ts = {us / 1000000, (long) (us % 1000000) * 1000};
    return sim_nanosleep(&ts, nullptr);
}
u32 sim_sleep(u32 s) {
    struct timespec ts = {s, 0}, rem = {0, 0};
    return sim_nanosleep(&ts, &rem) < 0 ? (u32) rem.tv_sec : 0;
}
int sim_sched_yield() {
    if (inSUT() && !inForkChild)
        yield();
    return 0;
}

//------------------------------------------------------------ sockets
static std::vector<std::pair<string, std::vector<string>>> hosts;
static std::vector<std::shared_ptr<Sock>> listeners;
static u32 nextPort = 40000;
static bool readAddr(const struct sockaddr* a, socklen_t n, string* ip, u32* port) {
    if (a->sa_family == AF_INET && n >= sizeof(sockaddr_in)) {
        auto* s = (const sockaddr_in*) a;
        ip->assign((const char*) &s->sin_addr, 4);
        *port = ntohs(s->sin_port);
        return true;
    }
    if (a->sa_family == AF_INET6 && n >= sizeof(sockaddr_in6)) {
        auto* s = (const sockaddr_in6*) a;
        ip->assign((const char*) &s->sin6_addr, 16);
        *port = ntohs(s->sin6_port);
        return true;
    }
    return false;
}
static const string v4mapped("\0\0\0\0\0\0\0\0\0\0\xff\xff", 12);
static string unmap(const string& ip) { return ip.size() == 16 && ip.substr(0, 12) == v4mapped ? ip.substr(12) : ip; }
static bool isAny(const string& ip) {
    for (char c : ip)
        if (c)
            return false;
    return true;
}
static void writeAddr(int family, const string& ip0, u32 port, struct sockaddr* out, socklen_t* len) {
    char b[sizeof(sockaddr_in6)];
    memset(b, 0, sizeof(b));
    socklen_t n;
    string ip = ip0;
    if (family == AF_INET) {
        auto* s = (sockaddr_in*) b;
        s->sin_family = AF_INET;
        s->sin_port = htons(port);
        ip = unmap(ip);
        if (ip.size() == 4)
            memcpy(&s->sin_addr, ip.data(), 4);
        n = sizeof(*s);
    } else {
        auto* s = (sockaddr_in6*) b;
        s->sin6_family = AF_INET6;
        s->sin6_port = htons(port);
        if (ip.size() == 4)
            ip = v4mapped + ip;
        if (ip.size() == 16)
            memcpy(&s->sin6_addr, ip.data(), 16);
        n = sizeof(*s);
    }
    if (out && len) {
        memcpy(out, b, std::min(n, *len));
        *len = n;
    }
}
static u64 netDelay() {
    u64 d = k::net.minDelayNs;
    if (k::net.maxDelayNs > d)
        d += F.below((u32) (k::net.maxDelayNs - d));
    if (fault(FT_NET_DELAY))
        d += 1000000ull << F.below(14);
    return d;
}
static void doReset(std::shared_ptr<Sock> s, int e = ECONNRESET) {
    if (s->st != Sock::Connected || s->rst)
        return;
    s->rst = true;
    s->soErr = e;
    wakeAll(s->rq);
    wakeAll(s->wq);
}
static void resetBoth(std::shared_ptr<Sock> s) {
    auto p = s->peer.lock();
    doReset(s);
    if (p)
        doReset(p);
}
// After an error the connection is unusable on both sides.
static s64 sockError(OpenFile* f, int e) {
    if (f->sock->st == Sock::Connected) {
        resetBoth(f->sock);
        f->sock->soErr = 0;
        f->sock->rbuf.clear(); // nothing can be read after the error
    }
    return err(e);
}
// Something travels from s to its peer, in order.
static void travel(std::shared_ptr<Sock> s, std::function<void(std::shared_ptr<Sock> peer)> arrive) {
    u64 at = simNow + netDelay();
    if (at <= s->lastDelivery)
        at = s->lastDelivery + 1;
    s->lastDelivery = at;
    auto p = s->peer.lock();
    after(at - simNow, [s, p, arrive] {
        if (p)
            arrive(p);
    });
}
static void sendRst(std::shared_ptr<Sock> s) {
    travel(s, [](std::shared_ptr<Sock> p) { doReset(p); });
}
static void sockClosed(std::shared_ptr<Sock> s) {}
} // extern "C"

namespace sim {
static void sockClosed(std::shared_ptr<Sock> s) {
    s->closed = true;
    if (s->st == Sock::Listening) {
        for (size_t i = 0; i < listeners.size(); i++)
            if (listeners[i] == s) {
                listeners.erase(listeners.begin() + i);
                break;
            }
        for (auto& c : s->acceptQ) {
            c->closed = true;
            sendRst(c);
        }
        s->acceptQ.clear();
        wakeAll(s->aq);
        return;
    }
    if (s->st == Sock::Connected && !s->rst) {
        if (s->rbuf.size()) {
            s->rst = true;
            sendRst(s); // unread data: the peer sees a reset
        } else if (!s->finOut) {
            s->finOut = true;
            travel(s, [](std::shared_ptr<Sock> p) {
                p->finIn = true;
                wakeAll(p->rq);
            });
        }
    }
    wakeAll(s->rq);
    wakeAll(s->wq);
}
namespace k {
void addHost(const std::string& name, const std::vector<std::string>& ips) {
    KernelScope ks;
    hosts.push_back({name, ips});
}
} // namespace k
} // namespace sim

extern "C" {
int sim_socket(int family, int type, int) {
    SYS();
    if (fault(FT_FD_LIMIT))
        return (int) err(F.below(2) ? ENFILE : EMFILE);
    if (fault(FT_NOMEM))
        return (int) err(F.below(2) ? ENOBUFS : EACCES);
    if (family != AF_INET && family != AF_INET6)
        return (int) err(EAFNOSUPPORT);
    auto s = std::make_shared<Sock>();
    s->family = family;
    OpenFile* f = newOF(OpenFile::Socket);
    f->sock = s;
    f->flags = O_RDWR | ((type & SOCK_NONBLOCK) ? O_NONBLOCK : 0);
    int fd = allocFd(f, type & SOCK_CLOEXEC);
    if (fd < 0)
        return (int) err(EMFILE);
    log("socket() = %d", fd);
    return fd;
}
static OpenFile* sockFd(int fd) {
    OpenFile* f = getFd(fd);
    if (!f) {
        err(EBADF);
        return nullptr;
    }
    if (f->kind != OpenFile::Socket) {
        err(ENOTSOCK);
        return nullptr;
    }
    return f;
}
int sim_bind(int fd, const struct sockaddr* a, socklen_t n) {
    IN(a, n);
    SYS();
    OpenFile* f = sockFd(fd);
    if (!f)
        return -1;
    string ip;
    u32 port;
    if (!readAddr(a, n, &ip, &port) || a->sa_family != f->sock->family)
        return (int) err(EINVAL);
    if (fault(FT_META_ERR))
        return (int) err(F.below(2) ? EADDRINUSE : EACCES);
    if (!port)
        port = nextPort++;
    for (auto& l : listeners)
        if (l->port == port && (isAny(l->ip) || isAny(ip) || unmap(l->ip) == unmap(ip)))
            return (int) err(EADDRINUSE);
    f->sock->ip = ip;
    f->sock->port = port;
    f->sock->st = Sock::Bound;
    return 0;
}
int sim_listen(int fd, int backlog) {
    SYS();
    OpenFile* f = sockFd(fd);
    if (!f)
        return -1;
    auto s = f->sock;
    if (s->st != Sock::Bound && s->st != Sock::Listening)
        return (int) err(EINVAL);
    if (fault(FT_META_ERR))
        return (int) err(EADDRINUSE);
    if (s->st == Sock::Bound)
        listeners.push_back(s);
    s->st = Sock::Listening;
    s->backlog = backlog < 1 ? 1 : backlog;
    return 0;
}
static s64 doAccept(int fd, struct sockaddr* a, socklen_t* n, int flags) {
    OpenFile* f = sockFd(fd);
    if (!f)
        return -1;
    auto s = f->sock;
    if (s->st != Sock::Listening)
        return err(EINVAL);
    if (fault(FT_EINTR))
        return err(EINTR);
    for (;;) {
        if (s->closed)
            return err(EBADF);
        if (s->rdShut)
            return err(EINVAL);
        if (s->acceptQ.size())
            break;
        if (f->flags & O_NONBLOCK)
            return err(EAGAIN);
        waitOn(s->aq, "accept");
    }
    if (fault(FT_ACCEPT_ERR)) {
        static const int es[] = {ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO, EPERM};
        int e = es[F.below(7)];
        if (e == ECONNABORTED || e == EPROTO) {
            auto c = s->acceptQ.front();
            s->acceptQ.pop_front();
            c->closed = true;
            sendRst(c);
        }
        log("accept injected errno %d", e);
        return err(e);
    }
    auto c = s->acceptQ.front();
    OpenFile* nf = newOF(OpenFile::Socket);
    nf->sock = c;
    nf->flags = O_RDWR | ((flags & SOCK_NONBLOCK) ? O_NONBLOCK : 0);
    int r = allocFd(nf, flags & SOCK_CLOEXEC);
    if (r < 0)
        return err(EMFILE);
    s->acceptQ.pop_front();
    wakeAll(s->cq);
    if (a)
        writeAddr(s->family, c->peerIp, c->peerPort, a, n);
    log("accept(%d) = %d", fd, r);
    return r;
}
int sim_accept(int fd, struct sockaddr* a, socklen_t* n) {
    int r;
    {
        SYS();
        r = (int) doAccept(fd, a, n, 0);
    }
    if (r >= 0 && a && n)
        OUT(a, *n);
    return r;
}
int sim_accept4(int fd, struct sockaddr* a, socklen_t* n, int flags) {
    int r;
    {
        SYS();
        r = (int) doAccept(fd, a, n, flags);
    }
    if (r >= 0 && a && n)
        OUT(a, *n);
    return r;
}
int sim_connect(int fd, const struct sockaddr* a, socklen_t n) {
    IN(a, n);
    SYS();
    OpenFile* f = sockFd(fd);
    if (!f)
        return -1;
    auto s = f->sock;
    string ip;
    u32 port;
    if (!readAddr(a, n, &ip, &port))
        return (int) err(EINVAL);
    if (a->sa_family != s->family)
        return (int) err(EAFNOSUPPORT);
    if (s->st == Sock::Connected)
        return (int) err(EISCONN);
    u64 d = netDelay() * 2;
    if (fault(FT_CONN_ERR)) {
        static const int es[] = {ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH, ECONNRESET};
        sleepNs(d);
        int e = es[F.below(5)];
        log("connect injected errno %d", e);
        return (int) err(e);
    }
    sleepNs(d);
    string want = unmap(ip);
    if (isAny(want)) // connecting to the wildcard address means this host
        want = want.size() == 4 ? string("\x7f\0\0\1", 4) : string("\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\1", 16);
    auto find = [&]() -> std::shared_ptr<Sock> {
        for (auto& l : listeners) {
            if (l->port != port)
                continue;
            if (l->family == AF_INET && want.size() != 4)
                continue;
            if (l->family == AF_INET6 && want.size() == 4 && l->v6only)
                continue;
            if (isAny(l->ip) || unmap(l->ip) == want)
                return l;
        }
        return nullptr;
    };
    auto l = find();
    while (l && l->acceptQ.size() > l->backlog) {
        // SYNs are dropped and retransmitted until there is room
        waitOn(l->cq, "connect (backlog full)", simNow + 1000000000ull);
        l = find();
    }
    if (!l) {
        log("connect(%d) refused", fd);
        return (int) err(ECONNREFUSED);
    }
    auto c = std::make_shared<Sock>();
    c->family = l->family;
    c->st = s->st = Sock::Connected;
    if (!s->port)
        s->port = nextPort++;
    if (s->ip.empty() || isAny(s->ip))
        s->ip = want.size() == 4 ? string("\x7f\0\0\1", 4) : string("\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\1", 16);
    s->peerIp = want;
    s->peerPort = port;
    c->ip = want;
    c->port = port;
    c->peerIp = s->ip;
    c->peerPort = s->port;
    c->peer = s;
    s->peer = c;
    l->acceptQ.push_back(c);
    wakeAll(l->aq);
    log("connect(%d) ok", fd);
    return 0;
}
static s64 sockRead(OpenFile* f, void* buf, size_t n, int flags) {
    auto s = f->sock;
    if (s->st != Sock::Connected)
        return err(ENOTCONN);
    if (fault(FT_RESET)) {
        log("connection reset");
        resetBoth(s);
    }
    for (;;) {
        if (s->rbuf.size())
            break;
        if (s->rst) {
            if (s->soErr) {
                int e = s->soErr;
                s->soErr = 0;
                return err(e);
            }
            return 0;
        }
        if (s->finIn || s->rdShut)
            return 0;
        if ((f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT))
            return err(EAGAIN);
        if (s->rcvTimeoNs) {
            if (!waitOn(s->rq, "read from socket", simNow + s->rcvTimeoNs))
                return err(EAGAIN);
        } else
            waitOn(s->rq, "read from socket");
        if (s->closed)
            return err(EBADF);
    }
    size_t m = std::min(n, s->rbuf.size());
    memcpy(buf, s->rbuf.data(), m);
    if (!(flags & MSG_PEEK)) {
        s->rbuf.erase(0, m);
        s->bytesRead += m;
        auto p = s->peer.lock();
        if (p)
            wakeAll(p->wq);
    }
    return m;
}
static s64 sockWrite(OpenFile* f, const void* buf, size_t n, int flags) {
    auto s = f->sock;
    if (s->st != Sock::Connected)
        return err(s->st == Sock::Fresh ? EPIPE : ENOTCONN);
    if (fault(FT_RESET)) {
        log("connection reset");
        resetBoth(s);
    }
    size_t done = 0;
    const char* b = (const char*) buf;
    while (done < n) {
        if (s->rst || s->finOut) {
            if (done)
                return done;
            if (s->soErr) {
                int e = s->soErr;
                s->soErr = 0;
                return err(e);
            }
            if (!(flags & MSG_NOSIGNAL))
                raisePipe();
            return err(EPIPE);
        }
        auto p = s->peer.lock();
        size_t used = s->inFlight + (p ? p->rbuf.size() : 0);
        size_t room = used >= k::net.sndCap ? 0 : k::net.sndCap - used;
        if (!room) {
            if ((f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT))
                return done ? (s64) done : err(EAGAIN);
            if (s->sndTimeoNs) {
                if (!waitOn(s->wq, "write to socket", simNow + s->sndTimeoNs))
                    return done ? (s64) done : err(EAGAIN);
            } else
                waitOn(s->wq, "write to socket");
            if (s->closed)
                return done ? (s64) done : err(EBADF);
            continue;
        }
        size_t m = std::min(std::min(room, n - done), (size_t) k::net.maxSegment);
        if (m > 1 && k::net.maxSegment < 65536)
            m = 1 + F.below((u32) m);
        string seg(b + done, m);
        s->inFlight += m;
        s->bytesSent += m;
        travel(s, [s, seg](std::shared_ptr<Sock> p) {
            s->inFlight -= seg.size();
            if (p->rst)
                return;
            if (p->closed) {
                sendRst(p);
                return;
            }
            if (!p->rdShut) {
                p->rbuf += seg;
                p->log += seg;
            }
            wakeAll(p->rq);
            wakeAll(s->wq);
        });
        done += m;
    }
    return done;
}
s64 sim_recv(int fd, void* buf, size_t n, int flags) {
    OUT(buf, n);
    SYS();
    OpenFile* f = sockFd(fd);
    if (!f)
        return -1;
    if (flags & MSG_PEEK)
        return sockRead(f, buf, n, flags);
    if (fault(FT_EINTR))
        return err(EINTR);
    if (fault(FT_READ_ERR))
        return sockError(f, ECONNRESET);
    if (n > 1 && !(flags & MSG_WAITALL) && fault(FT_SHORT_READ))
        n = 1 + F.below((u32) (n > 100000 ? 100000 : n - 1));
    HB(f);
    s64 r = sockRead(f, buf, n, flags);
    HB(f);
    while ((flags & MSG_WAITALL) && r >= 0 && (size_t) r < n) {
        s64 q = sockRead(f, (char*) buf + r, n - r, flags);
        if (q <= 0)
            break;
        r += q;
    }
    log("recv(%d, %zu) = %lld", fd, n, (long long) r);
    return r;
}
s64 sim_send(int fd, const void* buf, size_t n, int flags) {
    IN(buf, n);
    SYS();
    OpenFile* f = sockFd(fd);
    if (!f)
        return -1;
    if (fault(FT_EINTR))
        return err(EINTR);
    if (fault(FT_WRITE_ERR))
        return sockError(f, ECONNRESET);
    if (n > 1 && fault(FT_SHORT_WRITE))
        n = 1 + F.below((u32) (n > 100000 ? 100000 : n - 1));
    HB(f);
    s64 r = sockWrite(f, buf, n, flags);
    log("send(%d, %zu) = %lld", fd, n, (long long) r);
    return r;
}
s64 sim_recvfrom(int fd, void* buf, size_t n, int flags, struct sockaddr*, socklen_t*) { return sim_recv(fd, buf, n, flags); }
s64 sim_sendto(int fd, const void* buf, size_t n, int flags, const struct sockaddr*, socklen_t) { return sim_send(fd, buf, n, flags); }
int sim_shutdown(int fd, int how) {
    SYS();
    OpenFile* f = sockFd(fd);
    if (!f)
        return -1;
    auto s = f->sock;
    if (s->st == Sock::Listening) {
        s->rdShut = true;
        wakeAll(s->aq);
        return 0;
    }
    if (s->st != Sock::Connected)
        return (int) err(ENOTCONN);
    if (how != SHUT_RD && !s->finOut && !s->rst) {
        s->finOut = true;
        travel(s, [](std::shared_ptr<Sock> p) {
            p->finIn = true;
            wakeAll(p->rq);
        });
    }
    if (how != SHUT_WR) {
        s->rdShut = true;
        wakeAll(s->rq);
    }
    return 0;
}
int sim_setsockopt(int fd, int level, int opt, const void* v, socklen_t n) {
    SYS();
    OpenFile* f = sockFd(fd);
    if (!f)
        return -1;
    if (fault(FT_META_ERR))
        return (int) err(ENOPROTOOPT);
    if (level == IPPROTO_IPV6 && opt == IPV6_V6ONLY)
        f->sock->v6only = *(const int*) v != 0;
    if (level == SOL_SOCKET && opt == SO_RCVTIMEO) {
        auto* tv = (const struct timeval*) v;
        f->sock->rcvTimeoNs = tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull;
    }
    if (level == SOL_SOCKET && opt == SO_SNDTIMEO) {
        auto* tv = (const struct timeval*) v;
        f->sock->sndTimeoNs = tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull;
    }
    return 0;
}
int sim_getsockopt(int fd, int level, int opt, void* v, socklen_t* n) {
    SYS();
    OpenFile* f = sockFd(fd);
    if (!f)
        return -1;
    memset(v, 0, *n);
    if (level == SOL_SOCKET && opt == SO_ERROR && *n >= 4) {
        *(int*) v = f->sock->soErr;
        f->sock->soErr = 0;
    }
    return 0;
}
int sim_getsockname(int fd, struct sockaddr* a, socklen_t* n) {
    SYS();
    OpenFile* f = sockFd(fd);
    if (!f)
        return -1;
    writeAddr(f->sock->family, f->sock->ip, f->sock->port, a, n);
    return 0;
}
int sim_getpeername(int fd, struct sockaddr* a, socklen_t* n) {
    SYS();
    OpenFile* f = sockFd(fd);
    if (!f)
        return -1;
    if (f->sock->st != Sock::Connected)
        return (int) err(ENOTCONN);
    writeAddr(f->sock->family, f->sock->peerIp, f->sock->peerPort, a, n);
    return 0;
}
static short pollMask(OpenFile* f) {
    short m = 0;
    switch (f->kind) {
        case OpenFile::PipeR:
            if (f->pipe->buf.size())
                m |= POLLIN;
            if (!f->pipe->writers)
                m |= POLLHUP;
            break;
        case OpenFile::PipeW:
            if (f->pipe->buf.size() < f->pipe->cap)
                m |= POLLOUT;
            if (!f->pipe->readers)
                m |= POLLERR;
            break;
        case OpenFile::Socket: {
            auto s = f->sock;
            if (s->st == Sock::Listening) {
                if (s->acceptQ.size())
                    m |= POLLIN;
                break;
            }
            auto p = s->peer.lock();
            if (s->rbuf.size() || s->finIn || s->rst)
                m |= POLLIN;
            if (s->rst)
                m |= POLLERR | POLLHUP;
            if (s->inFlight + (p ? p->rbuf.size() : 0) < k::net.sndCap)
                m |= POLLOUT;
            break;
        }
        default:
            m = POLLIN | POLLOUT;
    }
    return m;
}
int sim_poll(struct pollfd* p, unsigned long n, int timeoutMs) {
    SYS();
    if (fault(FT_EINTR))
        return (int) err(EINTR);
    auto check = [&]() -> int {
        int c = 0;
        for (unsigned long i = 0; i < n; i++) {
            p[i].revents = 0;
            if (p[i].fd < 0)
                continue;
            OpenFile* f = getFd(p[i].fd);
            p[i].revents = f ? pollMask(f) & (p[i].events | POLLERR | POLLHUP) : POLLNVAL;
            c += p[i].revents != 0;
        }
        return c;
    };
    int c = check();
    if (c || timeoutMs == 0)
        return c;
    Fiber* me = cur;
    Proc* pr = cur->proc;
    waitUntil([&, me, pr] {
        Fiber* was = cur;
        cur = me; // descriptors are looked up in the waiting fiber's process
        int r = check();
        cur = was;
        return r > 0;
    }, timeoutMs < 0 ? ~0ull : timeoutMs * 1000000ull);
    return check();
}
int sim_select(int nfds, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
    std::vector<struct pollfd> v;
    {
        KernelScope ks;
        for (int i = 0; i < nfds; i++) {
            short ev = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0);
            if (ev)
                v.push_back({i, ev, 0});
        }
    }
    int rc = sim_poll(v.data(), v.size(), tv ? (int) (tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1);
    if (rc < 0)
        return rc;
    if (r)
        FD_ZERO(r);
    if (w)
        FD_ZERO(w);
    if (e)
        FD_ZERO(e);
    rc = 0;
    for (auto& p : v) {
        if (r && (p.events & POLLIN) && (p.revents & (POLLIN | POLLHUP | POLLERR))) {
            FD_SET(p.fd, r);
            rc++;
        }
        if (w && (p.events & POLLOUT) && (p.revents & (POLLOUT | POLLERR))) {
            FD_SET(p.fd, w);
            rc++;
        }
    }
    return rc;
}
static u32 gAddrInfos;
int sim_getaddrinfo(const char* node, const char* service, const struct addrinfo* hints, struct addrinfo** out) {
    SYS();
    sleepNs(netDelay());
    if (fault(FT_DNS_ERR)) {
        static const int es[] = {EAI_AGAIN, EAI_FAIL, EAI_NONAME, EAI_MEMORY, EAI_SYSTEM};
        int e = es[F.below(5)];
        log("getaddrinfo injected %d", e);
        if (e == EAI_SYSTEM)
            err(EIO);
        return e;
    }
    int fam = hints ? hints->ai_family : AF_UNSPEC;
    u32 port = service ? atoi(service) : 0;
    std::vector<string> ips;
    bool known = false;
    char b[16];
    if (node && inet_pton(AF_INET, node, b) == 1)
        ips.push_back(string(b, 4));
    else if (node && inet_pton(AF_INET6, node, b) == 1)
        ips.push_back(string(b, 16));
    else if (node)
        for (auto& h : hosts)
            if (h.first == node) {
                known = true;
                for (auto& t : h.second)
                    if (inet_pton(AF_INET, t.c_str(), b) == 1)
                        ips.push_back(string(b, 4));
                    else if (inet_pton(AF_INET6, t.c_str(), b) == 1)
                        ips.push_back(string(b, 16));
            }
    if (fam == AF_INET6 && (hints->ai_flags & AI_V4MAPPED)) {
        bool has6 = false;
        for (auto& ip : ips)
            has6 |= ip.size() == 16;
        if (!has6)
            for (auto& ip : ips)
                ip = v4mapped + ip;
    }
    struct addrinfo* head = nullptr;
    struct addrinfo** tail = &head;
    for (auto& ip : ips) {
        int f = ip.size() == 4 ? AF_INET : AF_INET6;
        if (fam != AF_UNSPEC && fam != f)
            continue;
        auto* ai = (struct addrinfo*) calloc(1, sizeof(struct addrinfo) + sizeof(sockaddr_in6));
        ai->ai_family = f;
        ai->ai_socktype = SOCK_STREAM;
        ai->ai_addr = (struct sockaddr*) (ai + 1);
        socklen_t n = sizeof(sockaddr_in6);
        writeAddr(f, ip, port, ai->ai_addr, &n);
        ai->ai_addrlen = n;
        *tail = ai;
        tail = &ai->ai_next;
        gAddrInfos++;
    }
    (void) known;
    if (!head)
        return EAI_NONAME; // *out is left alone, as glibc does
    *out = head;
    return 0;
}
void sim_freeaddrinfo(struct addrinfo* a) {
    while (a) {
        struct addrinfo* n = a->ai_next;
        ::free(a);
        gAddrInfos--;
        a = n;
    }
}
int sim_gethostname(char* b, size_t n) {
    strncpy(b, "simhost", n);
    return 0;
}
u32 sim_getrandom_dummy;
s64 sim_getrandom(void* b, size_t n, u32) {
    SYS();
    for (size_t i = 0; i < n; i++)
        ((char*) b)[i] = (char) W.next();
    return n;
}
} // extern "C"

namespace sim {
u32 liveAddrInfos() { return gAddrInfos; }
void kernelInit() {
    fsRoot = newInode(Inode::Dir, 0755);
    Inode* dev = newInode(Inode::Dir, 0755);
    dev->parent = fsRoot;
    fsRoot->ents["dev"] = fsRoot->durEnts["dev"] = dev;
    Inode* nul = newInode(Inode::Null, 0666);
    dev->ents["null"] = dev->durEnts["null"] = nul;
    forkLog = (char*) mmap(nullptr, ForkLogSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    rootProc = k::newProc("main", nullptr);
    rootProc->isRoot = true;
    k::attachNull(rootProc);
    k::addHost("localhost", {"127.0.0.1", "::1"});
}
} // namespace sim
