// Runner: executes seeds in forked children, replays and shrinks choice sequences.
#include "kern.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <set>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace sim {
const std::vector<Prop>& allProps();
void forkChildCrashed(int sig);
}
using namespace sim;

static const Prop* gProp;
static int gCpuLimit = 10;

static void onCrash(int sig, siginfo_t* si, void* uc) {
    ucontext_t* u = (ucontext_t*) uc;
    void* pc = (void*) u->uc_mcontext.gregs[REG_RIP];
    void* bp = (void*) u->uc_mcontext.gregs[REG_RBP];
    if (inForkChild)
        forkChildCrashed(sig);
    static const char* const names[] = {"?"};
    (void) names;
    const char* nm = sig == SIGILL ? "SIGILL" : sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGTRAP ? "SIGTRAP" : "SIGABRT";
    if (cur && cur->inKernel) {
        snprintf(result->cls, sizeof(result->cls), "simulator crash %s pc=%p addr=%p", nm, pc, si->si_addr);
        capturePcs(pc, bp);
        finishResult(4);
        _exit(0);
    }
    violateAt(pc, bp, fmt("crash:%s", nm).c_str(), "%s at pc=%p (address %p)%s", nm, pc, si->si_addr,
              sig == SIGILL || sig == SIGTRAP ? ": assertion failure or trap" : "");
}
static u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
static void* shared(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return p;
}
struct Choices {
    std::vector<u32> w, f, s;
    size_t size() const { return w.size() + f.size() + s.size(); }
};
struct Outcome {
    u32 status = 0;
    std::string key; // violation class, with the program counter for crashes and memory errors
};
static void childRun(bool replay, u64 seed, u64 index) {
    Stream* st[3] = {&W, &F, &S};
    u32* recs[3] = {recW, recF, recS};
    u32 lens[3] = {result->nW, result->nF, result->nS};
    u64 h = 1469598103934665603ull;
    for (const char* p = gProp->id; *p; p++)
        h = (h ^ (unsigned char) *p) * 1099511628211ull;
    for (int i = 0; i < 3; i++) {
        st[i]->rec = recs[i];
        st[i]->cap = MaxChoices;
        st[i]->pos = 0;
        st[i]->len = replay ? lens[i] : 0;
        st[i]->replay = replay;
        u64 a = mix(seed ^ mix(h ^ mix(index * 3 + i)));
        st[i]->s[0] = a;
        st[i]->s[1] = mix(a);
        if (!st[i]->s[0] && !st[i]->s[1])
            st[i]->s[0] = 1;
    }
    static char alt[65536];
    stack_t ss;
    memset(&ss, 0, sizeof(ss));
    ss.ss_sp = alt;
    ss.ss_size = sizeof(alt);
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = onCrash;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT})
        sigaction(s, &sa, nullptr);
    struct itimerval it = {{0, 0}, {gCpuLimit, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    heapInit();
    kernelInit();
    runMain([] {
        gProp->fn();
        onMainEnd();
        endRun();
    }, rootProc);
}
namespace sim {
void onMainEnd() {}
}
static Outcome runOnce(bool replay, u64 seed, u64 index) {
    u32 nW = result->nW, nF = result->nF, nS = result->nS;
    memset((void*) result, 0, offsetof(Result, counters));
    result->nW = nW;
    result->nF = nF;
    result->nS = nS;
    pid_t p = fork();
    if (p < 0) {
        perror("fork");
        exit(3);
    }
    if (p == 0) {
        childRun(replay, seed, index);
        _exit(9);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        ;
    if (WIFSIGNALED(st) && (result->status == 0)) {
        if (WTERMSIG(st) == SIGPROF) {
            strcpy(result->cls, "hang");
            snprintf(result->msg, sizeof(result->msg), "the run used more than %d s of CPU time without reaching a scheduling point", gCpuLimit);
            result->status = 2;
        } else {
            snprintf(result->cls, sizeof(result->cls), "simulator died of signal %d", WTERMSIG(st));
            result->status = 4;
        }
    } else if (result->status == 0) {
        snprintf(result->cls, sizeof(result->cls), "simulator exited with %#x without a result", st);
        result->status = 4;
    }
    Outcome o;
    o.status = result->status;
    o.key = result->cls;
    if (o.status == 2 && result->nPcs && (o.key.compare(0, 6, "crash:") == 0 || o.key.compare(0, 5, "heap-") == 0 || o.key.compare(0, 9, "data-race") == 0))
        o.key += fmt("@%llx", (unsigned long long) result->pcs[0]);
    return o;
}
static std::string js(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\')
            (r += '\\') += (char) c;
        else if (c < 32 || c >= 127)
            r += fmt("\\u%04x", c);
        else
            r += (char) c;
    }
    return r + "\"";
}
static std::string outcomeJson(const Outcome& o) {
    std::string s = fmt("{\"status\":%u,\"key\":%s,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"steps\":%llu,\"simNs\":%llu,\"switches\":%llu,\"faults\":%llu,\"nW\":%u,\"nF\":%u,\"nS\":%u,\"pcs\":[",
                        o.status, js(o.key).c_str(), js(result->cls).c_str(), "", (unsigned long long) result->hash,
                        (unsigned long long) result->steps, (unsigned long long) result->simNs,
                        (unsigned long long) result->switches, (unsigned long long) result->nFaults, result->nW, result->nF, result->nS);
    size_t m = s.find("\"msg\":");
    s.insert(m + 6, js(result->msg));
    for (u32 i = 0; i < result->nPcs; i++)
        s += fmt("%s\"%#llx\"", i ? "," : "", (unsigned long long) result->pcs[i]);
    return s + "]}";
}
static Choices takeChoices() {
    Choices c;
    c.w.assign(recW, recW + std::min(result->nW, MaxChoices));
    c.f.assign(recF, recF + std::min(result->nF, MaxChoices));
    c.s.assign(recS, recS + std::min(result->nS, MaxChoices));
    return c;
}
static void putChoices(const Choices& c) {
    std::copy(c.w.begin(), c.w.end(), recW);
    std::copy(c.f.begin(), c.f.end(), recF);
    std::copy(c.s.begin(), c.s.end(), recS);
    result->nW = (u32) c.w.size();
    result->nF = (u32) c.f.size();
    result->nS = (u32) c.s.size();
}
static void trimZeros(Choices& c) {
    for (auto* v : {&c.w, &c.f, &c.s})
        while (v->size() && v->back() == 0)
            v->pop_back();
}
static void writeChoices(FILE* f, const Choices& c) {
    const char* nm[] = {"W", "F", "S"};
    const std::vector<u32>* v[] = {&c.w, &c.f, &c.s};
    for (int i = 0; i < 3; i++) {
        fprintf(f, "%s %zu", nm[i], v[i]->size());
        for (u32 x : *v[i])
            fprintf(f, " %u", x);
        fprintf(f, "\n");
    }
}
static bool readReplay(const char* path, Choices* c, std::string* prop, std::string* key) {
    FILE* f = fopen(path, "r");
    if (!f)
        return false;
    char tag[64];
    while (fscanf(f, "%60s", tag) == 1) {
        if (!strcmp(tag, "property")) {
            char b[256];
            if (fscanf(f, "%250s", b) == 1)
                *prop = b;
        } else if (!strcmp(tag, "key")) {
            char b[1024];
            if (fgets(b, sizeof(b), f)) {
                *key = b + 1;
                while (key->size() && key->back() == '\n')
                    key->pop_back();
            }
        } else if (!strcmp(tag, "W") || !strcmp(tag, "F") || !strcmp(tag, "S")) {
            std::vector<u32>* v = tag[0] == 'W' ? &c->w : tag[0] == 'F' ? &c->f : &c->s;
            size_t n;
            if (fscanf(f, "%zu", &n) != 1)
                break;
            v->resize(n);
            for (size_t i = 0; i < n; i++)
                if (fscanf(f, "%u", &(*v)[i]) != 1)
                    return false;
        } else {
            int ch;
            while ((ch = fgetc(f)) != EOF && ch != '\n')
                ;
        }
    }
    fclose(f);
    return true;
}
static double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static bool tryKey(const Choices& c, const std::string& key, u64* runs) {
    putChoices(c);
    (*runs)++;
    Outcome o = runOnce(true, 0, 0);
    return o.status == 2 && o.key == key;
}
static Choices shrink(Choices c, const std::string& key, double budget, u64* runs) {
    double end = now() + budget;
    trimZeros(c);
    auto attempt = [&](Choices d) {
        if (now() > end)
            return false;
        trimZeros(d);
        if (!tryKey(d, key, runs))
            return false;
        c = d;
        return true;
    };
    auto vec = [](Choices& x, int i) -> std::vector<u32>& { return i == 0 ? x.s : i == 1 ? x.f : x.w; };
    bool progress = true;
    for (int round = 0; progress && now() < end && round < 20; round++) {
        progress = false;
        for (int i = 0; i < 3; i++) {
            if (vec(c, i).empty())
                continue;
            { // drop everything
                Choices d = c;
                vec(d, i).clear();
                if (attempt(d)) {
                    progress = true;
                    continue;
                }
            }
            // truncate the tail
            for (size_t n = vec(c, i).size() / 2; n >= 1 && now() < end;) {
                if (n >= vec(c, i).size()) {
                    n /= 2;
                    continue;
                }
                Choices d = c;
                vec(d, i).resize(vec(c, i).size() - n);
                if (attempt(d))
                    progress = true;
                else
                    n /= 2;
            }
            // zero, then delete, chunks
            for (int mode = 0; mode < 2; mode++)
                for (size_t n = std::max<size_t>(1, vec(c, i).size() / 2); n >= 1 && now() < end; n /= 2) {
                    for (size_t o = 0; o < vec(c, i).size() && now() < end;) {
                        size_t m = std::min(n, vec(c, i).size() - o);
                        Choices d = c;
                        auto& v = vec(d, i);
                        bool changed = false;
                        if (mode == 0) {
                            for (size_t j = o; j < o + m; j++)
                                if (v[j]) {
                                    v[j] = 0;
                                    changed = true;
                                }
                        } else {
                            v.erase(v.begin() + o, v.begin() + o + m);
                            changed = true;
                        }
                        if (changed && attempt(d)) {
                            progress = true;
                            if (mode == 0)
                                o += m;
                        } else
                            o += m;
                    }
                    if (n == 1)
                        break;
                }
            // smaller values
            for (size_t o = 0; o < vec(c, i).size() && now() < end; o++) {
                for (int sh = 1; sh <= 24; sh += 4) {
                    u32 v = vec(c, i)[o];
                    if (!v || i == 1)
                        break;
                    Choices d = c;
                    vec(d, i)[o] = v >> sh;
                    if (attempt(d)) {
                        progress = true;
                        sh -= 4;
                        if (!vec(c, i)[o])
                            break;
                    } else if (sh == 1)
                        continue;
                }
            }
        }
    }
    return c;
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    std::string cmd = argc > 1 ? argv[1] : "list";
    std::string pos;
    for (int i = 2; i < argc; i++) {
        std::string s = argv[i];
        if (s.compare(0, 2, "--") == 0 && i + 1 < argc)
            a[s.substr(2)] = argv[++i];
        else
            pos = s;
    }
    if (cmd == "list") {
        for (auto& p : allProps())
            printf("%s\t%s\n", p.id, p.what);
        return 0;
    }
    result = (Result*) shared(sizeof(Result));
    recW = (u32*) shared(MaxChoices * 4);
    recF = (u32*) shared(MaxChoices * 4);
    recS = (u32*) shared(MaxChoices * 4);
    traceBuf = (char*) shared(MaxTrace);
    if (a.count("cpu"))
        gCpuLimit = atoi(a["cpu"].c_str());
    std::string propId = a["prop"];
    Choices ch;
    std::string key;
    if (cmd == "replay" || cmd == "shrink")
        if (!readReplay(pos.c_str(), &ch, &propId, &key)) {
            fprintf(stderr, "cannot read %s\n", pos.c_str());
            return 3;
        }
    for (auto& p : allProps())
        if (propId == p.id)
            gProp = &p;
    if (!gProp) {
        fprintf(stderr, "no such property '%s'\n", propId.c_str());
        return 3;
    }
    u64 seed = strtoull(a["seed"].c_str(), nullptr, 10);
    if (cmd == "replay") {
        tracing = a.count("trace") > 0;
        putChoices(ch);
        Outcome o = runOnce(true, 0, 0);
        printf("%s\n", outcomeJson(o).c_str());
        if (tracing) {
            FILE* f = fopen(a["trace"].c_str(), "w");
            if (f) {
                fwrite(traceBuf, 1, result->traceLen, f);
                fclose(f);
            }
        }
        return 0;
    }
    if (cmd == "one") { // one seed, with a trace
        tracing = a.count("trace") > 0;
        Outcome o = runOnce(false, seed, strtoull(a["index"].c_str(), nullptr, 10));
        printf("%s\n", outcomeJson(o).c_str());
        fwrite(result->counters, 1, result->countersLen, stdout);
        if (tracing) {
            FILE* f = fopen(a["trace"].c_str(), "w");
            if (f) {
                fwrite(traceBuf, 1, result->traceLen, f);
                fclose(f);
            }
        }
        return 0;
    }
    if (cmd == "shrink") {
        u64 runs = 0;
        Choices c = shrink(ch, key, a.count("budget") ? atof(a["budget"].c_str()) : 20, &runs);
        FILE* f = fopen(a["out"].c_str(), "w");
        if (!f)
            return 3;
        fprintf(f, "property %s\nkey %s\n", propId.c_str(), key.c_str());
        writeChoices(f, c);
        fclose(f);
        printf("{\"runs\":%llu,\"before\":%zu,\"after\":%zu}\n", (unsigned long long) runs, ch.size(), c.size());
        return 0;
    }
    if (cmd == "run") {
        u64 from = strtoull(a["from"].c_str(), nullptr, 10), count = strtoull(a["count"].c_str(), nullptr, 10);
        u64 stride = a.count("stride") ? strtoull(a["stride"].c_str(), nullptr, 10) : 1;
        double limit = a.count("time") ? atof(a["time"].c_str()) : 1e9;
        std::string out = a["out"];
        FILE* fh = fopen((out + ".hashes").c_str(), "wb");
        FILE* fv = fopen((out + ".viol").c_str(), "w");
        if (!fh || !fv)
            return 3;
        std::map<std::string, u64> sums, keys;
        u64 ran = 0, ok = 0, disc = 0, viol = 0, bad = 0, simNs = 0, steps = 0, sw = 0, nf = 0, acc = 0, withFault = 0, withSwitch = 0;
        double t0 = now();
        for (u64 i = 0; i < count; i++) {
            if (now() - t0 > limit)
                break;
            u64 idx = from + i * stride;
            Outcome o = runOnce(false, seed, idx);
            ran++;
            u64 rec[4] = {idx, result->hash ^ o.status, result->schedHash, (u64) o.status | (result->nFaults ? 16 : 0) | (result->switches > 1 ? 32 : 0)};
            fwrite(rec, 8, 4, fh);
            simNs += result->simNs;
            steps += result->steps;
            sw += result->switches;
            nf += result->nFaults;
            acc += result->accesses;
            withFault += result->nFaults > 0;
            withSwitch += result->switches > 1;
            char* p = result->counters;
            char* e = p + result->countersLen;
            while (p < e) {
                char* nl = (char*) memchr(p, '\n', e - p);
                char* eq = (char*) memrchr(p, '=', nl - p);
                sums[std::string(p, eq - p)] += strtoull(eq + 1, nullptr, 10);
                p = nl + 1;
            }
            if (o.status == 1)
                ok++;
            else if (o.status == 3) {
                disc++;
                sums[std::string("discard.") + result->cls]++;
            } else if (o.status == 4) {
                bad++;
                fprintf(fv, "{\"index\":%llu,\"o\":%s}\n", (unsigned long long) idx, outcomeJson(o).c_str());
                if (bad > 5)
                    break;
            } else {
                viol++;
                if (keys[o.key]++ == 0) {
                    Choices c = takeChoices();
                    std::string rf = fmt("%s.v%zu.replay", out.c_str(), keys.size());
                    FILE* f = fopen(rf.c_str(), "w");
                    fprintf(f, "property %s\nkey %s\n", propId.c_str(), o.key.c_str());
                    writeChoices(f, c);
                    fclose(f);
                    fprintf(fv, "{\"index\":%llu,\"replay\":%s,\"o\":%s}\n", (unsigned long long) idx, js(rf).c_str(), outcomeJson(o).c_str());
                    fflush(fv);
                }
                if (keys.size() >= 12 || (o.key == "hang" && viol >= 2))
                    break;
            }
        }
        fclose(fh);
        fclose(fv);
        FILE* f = fopen((out + ".json").c_str(), "w");
        fprintf(f, "{\"ran\":%llu,\"ok\":%llu,\"discarded\":%llu,\"violations\":%llu,\"bad\":%llu,\"simNs\":%llu,\"steps\":%llu,\"switches\":%llu,\"faults\":%llu,\"accesses\":%llu,\"withFault\":%llu,\"withSwitch\":%llu,\"wall\":%.3f,\"counters\":{",
                (unsigned long long) ran, (unsigned long long) ok, (unsigned long long) disc, (unsigned long long) viol, (unsigned long long) bad,
                (unsigned long long) simNs, (unsigned long long) steps, (unsigned long long) sw, (unsigned long long) nf, (unsigned long long) acc,
                (unsigned long long) withFault, (unsigned long long) withSwitch, now() - t0);
        bool first = true;
        for (auto& kv : sums) {
            fprintf(f, "%s%s:%llu", first ? "" : ",", js(kv.first).c_str(), (unsigned long long) kv.second);
            first = false;
        }
        fprintf(f, "}}\n");
        fclose(f);
        return 0;
    }
    return 3;
}
