#!/usr/bin/env python3
"""Builds the simulator with the current sources of /repo. Everything is content-hashed, so a
build directory is only ever reused for identical inputs."""
import hashlib, os, re, subprocess, sys, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/repos/plywood/src"
OUT = os.environ.get("VERIF_BUILD", VERIF + "/build")

INC = ["runtime", "platform", "math", "reflect", "pylon/pylon", "pylon/reflect", "web/common",
       "web/documentation", "web/serve-docs", "build/common", "build/target", "build/provider",
       "build/repo", "build/folder", "cpp"]
PLYTOOL = "apps/plytool/plytool"
MODULES = [  # (directory, recursive)
    "runtime/ply-runtime", "reflect/ply-reflect", "pylon/pylon/pylon", "pylon/reflect/pylon-reflect",
    "web/common/web-common", "web/documentation/web-documentation", "web/serve-docs/ply-web-serve-docs",
    "build/target/ply-build-target", "build/provider/ply-build-provider", "build/repo/ply-build-repo",
    "build/folder/ply-build-folder", "cpp/ply-cpp", PLYTOOL, PLYTOOL + "-client/plytool-client",
]
CONFIG_H = """#define PLY_PREFER_CPP11 0
#define PLY_WITH_EXCEPTIONS 0
#define PLY_REPLACE_OPERATOR_NEW 0
#define PLY_USE_DLMALLOC 0
#define PLY_DLMALLOC_DEBUG_CHECKS 0
#define PLY_DLMALLOC_FAST_STATS 0
#define PLY_IMPL_MUTEX_PATH "impl/Mutex_CPP11.h"
#define PLY_IMPL_MUTEX_TYPE ply::Mutex_CPP11
#define PLY_IMPL_CONDITIONVARIABLE_PATH "impl/ConditionVariable_CPP11.h"
#define PLY_IMPL_CONDITIONVARIABLE_TYPE ply::ConditionVariable_CPP11
#define PLY_WORKSPACE_FOLDER "/ws"
#define PLY_BUILD_FOLDER "/ws/data/build/sim"
#define PLY_CMAKE_PATH "/usr/bin/cmake"
#define WITH_AUDIO 0
"""
CXX = "clang++"
SUT_FLAGS = ["-include", "utility", "-std=c++14", "-fno-exceptions", "-pthread", "-DPLY_WITH_ASSERTS=1",
             "-O1", "-g1", "-fno-omit-frame-pointer", "-fno-pie", "-femulated-tls",
             "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
             "-ftrivial-auto-var-init=pattern", "-U_FORTIFY_SOURCE", "-w"]
SIM_FLAGS = ["-std=c++17", "-fno-exceptions", "-O2", "-g1", "-fno-omit-frame-pointer", "-fno-pie", "-pthread",
             "-U_FORTIFY_SOURCE", "-Wall"]
MANGLED = {
    "_ZNSt18condition_variableC1Ev": "sim_cv_ctor",
    "_ZNSt18condition_variableD1Ev": "sim_cv_dtor",
    "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE": "sim_cv_wait",
    "_ZNSt18condition_variable10notify_oneEv": "sim_cv_notify_one",
    "_ZNSt18condition_variable10notify_allEv": "sim_cv_notify_all",
    "_ZNSt6chrono3_V212steady_clock3nowEv": "sim_steady_now",
    "_ZNSt6chrono3_V212system_clock3nowEv": "sim_system_now",
    "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE": "sim_std_thread_start",
    "_ZNSt6thread4joinEv": "sim_std_thread_join",
    "_ZNSt6thread6detachEv": "sim_std_thread_detach",
    "_ZNSt6thread20hardware_concurrencyEv": "sim_std_thread_hw",
    "_ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode": "sim_ifstream_ctor",
}
KEEP = {"sim_ifstream_ctor", "sim_steady_now", "sim_system_now", "sim_std_thread_start", "sim_std_thread_join", "sim_std_thread_detach", "sim_std_thread_hw", "sim_switch", "sim_entry", "sim_fiber_main", "sim_cv_ctor", "sim_cv_dtor", "sim_cv_wait",
        "sim_cv_notify_one", "sim_cv_notify_all", "sim_atomic_release_on", "sim_getrandom_dummy"}

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()

def read(p):
    with open(p, "rb") as f:
        return f.read()

def tree_hash(roots, exts):
    h = hashlib.sha256()
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()

class BuildError(Exception):
    pass

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
    return r.stdout

def sources(mod):
    root = SRC + "/" + mod
    res = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        ds[:] = [x for x in ds if x not in ("codegen", "tests")]
        for f in sorted(fs):
            if f.endswith(".cpp") and f not in ("Precomp.cpp",):
                res.append(os.path.join(d, f))
    return res

def build(variant="T", work=None, verbose=False):
    """Returns the path of the simulator binary."""
    os.makedirs(OUT, exist_ok=True)
    lock = open(OUT + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    inc_dirs = [SRC + "/" + i for i in INC]
    hdr = tree_hash(inc_dirs + [SRC + "/apps/plytool", VERIF + "/gen", VERIF + "/sim"], (".h", ".inl", ".hpp"))
    src_all = []
    for m in MODULES:
        src_all += sources(m)
    extra = variant_flags(variant)
    cfg = CONFIG_H
    for k, v in variant_config(variant).items():
        cfg = re.sub(r"#define %s .*" % k, "#define %s %s" % (k, v), cfg)
    cfgdir = OUT + "/cfg-" + sha(cfg)[:12]
    os.makedirs(cfgdir + "/ply-platform", exist_ok=True)
    if not os.path.exists(cfgdir + "/ply-platform/Config.h"):
        with open(cfgdir + "/ply-platform/Config.h", "w") as f:
            f.write(cfg)
    os.makedirs(OUT + "/obj", exist_ok=True)
    incs = ["-I" + cfgdir] + ["-I" + d for d in inc_dirs] + ["-I" + VERIF + "/sim", "-I" + VERIF + "/work"]
    works = sorted(glob.glob(VERIF + "/work/*.cpp")) if work is None else [VERIF + "/work/" + w for w in work]
    jobs = []
    whdr = tree_hash([VERIF + "/work"], (".h",))

    def add(src, flags, kind):
        text, more = read(src), b""
        if kind == "w":  # sources of the repository that a workload includes
            for m in re.findall(rb'#include [<"]([^>"]+\.cpp)[>"]', text):
                for d in inc_dirs:
                    if os.path.exists(d + "/" + m.decode()):
                        more += read(d + "/" + m.decode())
        key = sha(text, more, " ".join(flags), hdr, whdr if kind == "w" else "", src)[:24]
        jobs.append((kind, src, flags, OUT + "/obj/" + key + ".o"))
    for s in src_all:
        rel = os.path.relpath(os.path.dirname(s), SRC)
        f = SUT_FLAGS + extra + incs + ["-I" + VERIF + "/gen/" + rel]
        if rel == "build/target/ply-build-target":
            f = f + ["-I" + VERIF + "/gen/build/target-native"]
        if rel.startswith(PLYTOOL):
            f = f + ["-I" + SRC + "/" + PLYTOOL, "-I" + SRC + "/apps/plytool/plytool-client", "-Dmain=plytool_main"]
        if s.endswith("string/Label.cpp"):
            f = f + ["-include", "ply-runtime/thread/Atomic.h"]
        add(s, f, "s")
    for s in works:
        add(s, SUT_FLAGS + extra + incs, "w")
    for s in sorted(glob.glob(VERIF + "/sim/*.cpp")):
        add(s, SIM_FLAGS + ["-I" + VERIF + "/sim"], "k")

    def comp(j):
        kind, src, flags, obj = j
        if not os.path.exists(obj):
            tmp = obj + ".tmp%d.o" % os.getpid()
            run([CXX] + flags + ["-c", src, "-o", tmp])
            os.rename(tmp, obj)
    # longest first: the workloads
    order = sorted(jobs, key=lambda j: ({"w": 0, "k": 1, "s": 2}[j[0]], -os.path.getsize(j[1])))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, order))
    binkey = sha(variant, "".join(j[3] for j in jobs), read(__file__))[:20]
    binp = OUT + "/simrun-" + binkey
    if not os.path.exists(binp):
        sim_objs = [j[3] for j in jobs if j[0] == "k"]
        sut_objs = [j[3] for j in jobs if j[0] != "k"]
        ren = dict(MANGLED)
        for l in run(["nm", "-g", "--defined-only"] + sim_objs).decode().split("\n"):
            p = l.split()
            if len(p) == 3 and p[2].startswith("sim_") and p[2] not in KEEP:
                ren[p[2][4:]] = p[2]
        rf = OUT + "/ren-" + binkey
        with open(rf, "w") as f:
            for a, b in sorted(ren.items()):
                f.write("%s %s\n" % (a, b))
        allo = OUT + "/all-" + binkey + ".o"
        run(["ld", "-r", "-o", allo] + sut_objs)
        run(["objcopy", "--redefine-syms=" + rf, allo])
        run([CXX, "-no-pie", "-static", "-pthread", "-o", binp + ".tmp", allo] + sim_objs)
        os.rename(binp + ".tmp", binp)
        if not os.environ.get("KEEP_ALL"):
            os.remove(allo)
        os.remove(rf)
    prune(binp, set(j[3] for j in jobs))
    return binp

def prune(binp, keep):
    bins = sorted(glob.glob(OUT + "/simrun-*"), key=os.path.getmtime, reverse=True)
    for b in bins[6:]:
        if b != binp:
            os.remove(b)
    objs = glob.glob(OUT + "/obj/*.o")
    if len(objs) > 1500:
        for o in sorted(objs, key=os.path.getmtime)[:700]:
            if o not in keep:
                os.remove(o)

def variant_flags(v):
    return []
def variant_config(v):
    return {}

if __name__ == "__main__":
    try:
        print(build(sys.argv[1] if len(sys.argv) > 1 else "T"))
    except BuildError as e:
        print(e)
        sys.exit(2)
