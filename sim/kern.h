// Simulated kernel: harness-side interface.
#pragma once
#include "core.h"
#include <map>
#include <memory>
#include <set>
#include <sys/types.h>

namespace sim {

struct Inode {
    enum Type { File, Dir, Link, Null, Fifo } type = File;
    u32 ino = 0, mode = 0644;
    u32 opens = 0;
    bool sound = false; // writing to it never fails
    std::string data; // contents or link target (volatile view: what running processes see)
    std::map<std::string, Inode*> ents;
    Inode* parent = nullptr;
    u64 mtime = 0, atime = 0, ctime = 0;
    // what survives power loss
    std::string durData;
    std::map<std::string, Inode*> durEnts;
    struct Pend {
        bool trunc;
        u64 off;
        std::string bytes;
    };
    std::vector<Pend> pend;
    std::function<int(const std::vector<std::string>& argv)> prog;
};

struct PipeObj {
    std::string buf;
    size_t cap = 65536;
    u32 readers = 0, writers = 0;
    WaitQ rq, wq;
};

struct Sock {
    enum St { Fresh, Bound, Listening, Connecting, Connected, Dead } st = Fresh;
    int family = 0;
    std::string ip;  // 4 or 16 raw bytes
    u32 port = 0;
    std::string peerIp;
    u32 peerPort = 0;
    bool v6only = false, nonblock = false;
    // listening
    u32 backlog = 0;
    std::deque<std::shared_ptr<Sock>> acceptQ;
    // connected
    std::weak_ptr<Sock> peer;
    std::string rbuf;        // delivered, not yet read
    size_t inFlight = 0;     // sent by us, not yet delivered
    bool finIn = false;      // peer's FIN was delivered
    bool finOut = false;     // we sent FIN
    bool rst = false;        // connection was reset
    bool closed = false;     // our descriptor is gone
    bool rdShut = false;
    int soErr = 0;
    u64 lastDelivery = 0;    // FIFO delivery
    u64 bytesSent = 0, bytesRead = 0;
    u64 rcvTimeoNs = 0, sndTimeoNs = 0;
    WaitQ rq, wq, aq, cq;
    std::string log; // everything delivered, for harness use
};

struct OpenFile {
    enum Kind { File, Dir, PipeR, PipeW, Socket, Null } kind = Null;
    u32 refs = 0;
    int flags = 0; // O_ flags
    Inode* ino = nullptr;
    u64 pos = 0;
    std::shared_ptr<PipeObj> pipe;
    std::shared_ptr<Sock> sock;
    VClock hb;
    std::vector<std::string> dirNames;
};
struct FdEnt {
    OpenFile* f = nullptr;
    bool cloexec = false;
};
struct Proc {
    int pid = 0;
    std::string name;
    Proc* parent = nullptr;
    std::map<int, FdEnt> fds;
    Inode* cwd = nullptr;
    u32 umask = 022;
    bool sigpipeIgnored = false;
    std::map<int, void*> sigHandlers;
    bool zombie = false, reaped = false, dead = false;
    int status = 0;
    std::vector<std::string> argv;
    std::map<std::string, std::string> env;
    WaitQ childQ;
    int fdLimit = 256;
    bool execed = false;
    std::string execPath;
    std::string cwdAtExec;
    std::map<int, FdEnt> fdsAtExec;
    bool isRoot = false;
};

extern Proc* rootProc;
extern std::vector<Proc*> allProcs;

namespace k {
// File system, directly (no faults, no scheduling).
Inode* root();
Inode* lookup(const std::string& absPath, bool follow = true);
void mkdirs(const std::string& absPath);
void writeFile(const std::string& absPath, const std::string& data); // durable
void symlink(const std::string& target, const std::string& absPath);
void remove(const std::string& absPath); // recursive
bool readFile(const std::string& absPath, std::string* out = nullptr);
bool isDir(const std::string& absPath);
// Every path below absPath -> "d", "l:target" or "f:contents"
std::map<std::string, std::string> tree(const std::string& absPath = "/");
void installProgram(const std::string& absPath, std::function<int(const std::vector<std::string>&)> fn);
void sync(); // everything is durable
void powerLoss(); // draws from F which unsynced effects survive
std::string pathOf(Inode* n);

// Processes
Proc* newProc(const char* name, Proc* parent = nullptr);
void attachNull(Proc* p); // fds 0-2 = /dev/null
u32 spawnIn(Proc* p, const char* name, std::function<void()> fn);
void killProc(Proc* p, int sig); // kill -9, or an exit with that signal
bool procAlive(Proc* p);
u32 numFds(Proc* p);
u32 numFibers(Proc* p); // not yet ended
u32 numZombies();
u32 numOpenDirs();
std::string fdSummary(Proc* p);

// Limits FT_OPEN_ERR and FT_FD_LIMIT in open(), opendir() and dlopen() to some paths (as given by the caller)
extern std::function<bool(const std::string& path, bool write)> openFaultOk;
extern bool pipeReadErrors; // FT_READ_ERR also hits pipes

// Dynamic libraries: dlopen() reads the file and hands its contents to the harness, which decides
// whether it is one and which symbols it has.
extern std::function<void*(const std::string& path, const std::string& contents)> dlLoad; // null: not a library
extern std::function<void*(void* handle, const std::string& symbol)> dlFind;

// Recorded file-system operations (op, absolute resolved path)
struct FsOp {
    std::string op, path;
    bool ok;
    int pid;
    u32 fiber;
};
extern bool recordFs;
extern std::vector<FsOp> fsOps;
extern u32 numFsWrites;    // number of data or namespace modifications so far
extern std::function<void(const char* what)> onModify; // called before each modification (crash points)

// Network
void addHost(const std::string& name, const std::vector<std::string>& ips); // textual addresses
struct NetCfg {
    u64 minDelayNs = 20000, maxDelayNs = 200000;
    u32 maxSegment = 65536; // writes are cut into segments of at most this many bytes
    u32 sndCap = 65536;     // bytes in flight + unread before a writer blocks
    u32 pipeCap = 65536;
};
extern NetCfg net;
// Sizes asked for in read/write calls can be capped to provoke fragmentation without counting as faults
struct IoCfg {
    u32 maxRead = 0, maxWrite = 0;
};
extern IoCfg io;
// Memory mapping
struct MapCfg {
    u32 placement = 0; // 0 next to the lowest mapping (as Linux does), 1 lowest hole, 2 with gaps, 3 anything
};
extern MapCfg map;
u64 mappedBytes(); // by the simulated mmap, in this run
u32 numMappings(); // contiguous ranges
bool isMapped(const void* p, size_t n, bool usable = true);
extern s64 wallOffsetNs;
extern u64 diskFree;
u64 wallNs();
extern bool shuffleDirs;
} // namespace k
[[noreturn]] void unsupported(const char* what); // machinery limit: neither pass nor violation
} // namespace sim
