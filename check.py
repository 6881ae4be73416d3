#!/usr/bin/env python3
"""check.py ID: decides one property by seeded simulation of the current /repo tree."""
import json, os, re, struct, subprocess, sys, time, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B

OUT = VERIF + "/out"
NW = min(8, os.cpu_count() or 1)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def error(msg):
    print("ERROR " + msg)
    sys.exit(2)

def symbolise(binp, pcs):
    if not pcs:
        return []
    adj = [pcs[0]] + [hex(int(p, 16) - 1) for p in pcs[1:]]
    r = sh(["addr2line", "-C", "-f", "-i", "-a", "-e", binp] + adj).stdout.decode(errors="replace").split("\n")
    res = []
    i = 0
    while i < len(r):
        if r[i].startswith("0x"):
            i += 1
            continue
        if i + 1 < len(r):
            res.append((r[i], r[i + 1]))
        i += 2
    return res

def short_fn(f):
    # drop template arguments and parameter lists so that signatures survive small edits
    f = re.sub(r"\(anonymous namespace\)", "anon", f)
    d, o = 0, ""
    for c in f:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            if c == "(":
                break
            o += c
    return o

def sut_frames(frames):
    return [(short_fn(f), l) for f, l in frames if "/repos/plywood/" in l]

class Viol:
    pass

def describe(binp, o):
    v = Viol()
    v.cls = o["cls"].split(" prev=")[0]
    v.msg = o["msg"]
    v.key = o["key"]
    frames = symbolise(binp, o["pcs"])
    v.frames = frames
    sf = sut_frames(frames)
    v.fn = sf[0][0] if sf else ""
    v.fn2 = ""
    m = re.search(r"prevpc=(0x[0-9a-f]+)", o["msg"])
    if m:
        s2 = sut_frames(symbolise(binp, [hex(int(m.group(1), 16) - 1)]))
        v.fn2 = s2[0][0] if s2 else ""
    if v.cls.startswith(("crash:", "heap-", "data-race", "mutex-", "self-deadlock", "hang", "no-progress", "cond-")):
        v.sig = v.cls + "@" + "/".join(sorted(x for x in (v.fn, v.fn2) if x))
    else:
        v.sig = v.cls
    return v

def load_findings(prop):
    res = []
    p = VERIF + "/known_findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "open":
                    res.append(d)
    return res

def matches(fd, v):
    if fd.get("class") and fd["class"] != v.cls:
        return False
    if fd.get("function") and not any(fd["function"] == f for f, _ in sut_frames(v.frames)[:fd.get("depth", 3)]):
        return False
    if fd.get("message") and not re.search(fd["message"], v.msg):
        return False
    return True

def read_hashes(path):
    res = {}
    d = open(path, "rb").read()
    for i in range(0, len(d) - 31, 32):
        a, h, s, f = struct.unpack("<QQQQ", d[i:i + 32])
        res[a] = (h, s, f)
    return res

def run_workload(binp, wl, seed, count, tlimit, tag):
    procs = []
    per = (count + NW - 1) // NW
    for k in range(NW):
        out = "%s/%s.%s.%d" % (OUT, wl, tag, k)
        procs.append((out, subprocess.Popen([binp, "run", "--prop", wl, "--seed", str(seed), "--from", str(k), "--stride", str(NW),
                                             "--count", str(per), "--time", str(tlimit), "--out", out],
                                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    tot = {"counters": {}}
    hashes = {}
    viols = []
    for out, p in procs:
        _, e = p.communicate()
        if p.returncode != 0:
            error("simulator worker failed (%d): %s" % (p.returncode, e.decode(errors="replace")[-500:]))
        j = json.load(open(out + ".json"))
        for a, b in j.items():
            if a == "counters":
                for x, y in b.items():
                    tot["counters"][x] = tot["counters"].get(x, 0) + y
            else:
                tot[a] = tot.get(a, 0) + b
        hashes.update(read_hashes(out + ".hashes"))
        for l in open(out + ".viol"):
            viols.append(json.loads(l))
    return tot, hashes, viols

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    cfg = json.load(open(VERIF + "/checks.json"))[prop]
    os.makedirs(OUT, exist_ok=True)
    shutil.rmtree(OUT + "/" + prop, ignore_errors=True)
    variants = {}
    try:
        for w in cfg["workloads"]:
            var = w.get("variant", "T")
            if var not in variants:
                variants[var] = B.build(var)
    except B.BuildError as e:
        error("build failed:\n" + str(e))
    tbuild = time.time() - t0
    budget = cfg.get("time", {}).get(tier, 45 if tier == "quick" else 600)
    if os.environ.get("VERIF_BUDGET"):
        budget = float(os.environ["VERIF_BUDGET"])
    share = sum(w.get("share", 1) for w in cfg["workloads"])
    tot = {}
    allv = []
    distinct = set()
    scheds = set()
    nontriv = 0
    per_wl = {}
    samples = []
    trun = time.time()
    for w in cfg["workloads"]:
        wl = w["id"]
        binp = variants[w.get("variant", "T")]
        tl = budget * w.get("share", 1) / share
        count = int(w.get("runs", {}).get(tier, 10000000))
        t, hashes, viols = run_workload(binp, wl, seed, count, tl, "a")
        if t["bad"]:
            o = [v["o"] for v in viols if v["o"]["status"] == 4][0]
            error("simulator limit reached in %s: %s %s" % (wl, o["cls"], symbolise(binp, o["pcs"])[:6]))
        # determinism gate: other processes, other worker layout, same seeds
        n = int(w.get("gate", 96))
        gout = "%s/%s.gate" % (OUT, wl)
        gp = [subprocess.Popen([binp, "run", "--prop", wl, "--seed", str(seed), "--from", str(k), "--stride", "3",
                                "--count", str(n // 3), "--out", gout + str(k)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for k in range(3)]
        for p in gp:
            if p.wait():
                error("determinism gate run failed")
        gh = {}
        for k in range(3):
            gh.update(read_hashes(gout + str(k) + ".hashes"))
        both = [i for i in gh if i in hashes]
        diff = [i for i in both if gh[i] != hashes[i]]
        if diff:
            error("determinism gate: %s seed %d runs %s differ between two executions" % (wl, seed, diff[:5]))
        t["gate"] = len(both)
        for i, (h, s, f) in hashes.items():
            if f & 15 == 1 and (f & 16 or (f & 32) or w.get("nontrivial") == "all"):
                distinct.add((wl, h))
            if f & 32:
                scheds.add((wl, s))
        per_wl[wl] = t
        for a, b in t.items():
            if a == "counters":
                tot.setdefault("counters", {})
                for x, y in b.items():
                    tot["counters"][x] = tot["counters"].get(x, 0) + y
            elif a != "wall":
                tot[a] = tot.get(a, 0) + b
        for v in viols:
            if v["o"]["status"] == 2:
                allv.append((wl, binp, v))
        # one sample run, written out
        tf = "%s/%s.sample" % (OUT, wl)
        o = sh([binp, "one", "--prop", wl, "--seed", str(seed), "--index", "7", "--trace", tf])
        if os.path.exists(tf):
            lines = open(tf, errors="replace").read().split("\n")
            samples.append({"workload": wl, "seed": seed, "run": 7, "trace": lines[:25] + (["... %d more lines" % (len(lines) - 25)] if len(lines) > 25 else [])})
    trun = time.time() - trun
    findings = load_findings(prop)
    known_hits = {}
    new = {}
    for wl, binp, v in allv:
        d = describe(binp, v["o"])
        d.wl, d.binp, d.replay, d.index = wl, binp, v["replay"], v["index"]
        for fd in findings:
            if matches(fd, d):
                known_hits[fd["id"]] = known_hits.get(fd["id"], 0) + 1
                break
        else:
            if d.sig not in new:
                new[d.sig] = d
    rc = 0
    nviol = 0
    for fd in findings:
        print("KNOWN-FINDING: property=%s %s (seen in %d workers of this run)" % (prop, fd["what"], known_hits.get(fd["id"], 0)))
    os.makedirs(OUT + "/" + prop, exist_ok=True)
    for n, (sig, d) in enumerate(sorted(new.items(), key=lambda x: x[0])):
        if n >= 4:
            print("(%d further violation classes not minimised)" % (len(new) - n))
            break
        rf = "%s/%s/%d.replay" % (OUT, prop, n)
        keyok = None
        r = sh([d.binp, "shrink", d.replay, "--out", rf, "--budget", "20" if tier == "quick" else "60"])
        best = rf if r.returncode == 0 else d.replay
        # the minimised file, replayed twice in fresh processes
        outs = [json.loads(sh([d.binp, "replay", best] + ["--trace", rf + ".trace"]).stdout.decode().split("\n")[0]) for i in range(2)]
        if outs[0]["status"] != 2 or outs[0]["hash"] != outs[1]["hash"] or outs[0]["key"] != d.key:
            best = rf
            shutil.copy(d.replay, rf)
            outs = [json.loads(sh([d.binp, "replay", best] + ["--trace", rf + ".trace"]).stdout.decode().split("\n")[0]) for i in range(2)]
            if outs[0]["status"] != 2 or outs[0]["hash"] != outs[1]["hash"]:
                error("violation %s of %s (run %d) does not replay: %s" % (sig, prop, d.index, d.msg))
        m = describe(d.binp, outs[0])
        with open(rf, "a") as f:
            f.write("# %s\n# %s\n# workload %s, VERIF_SEED=%d run %d\n# replay with: python3 %s/replay.py %s\n" % (m.sig, m.msg.replace("\n", "\n# "), d.wl, seed, d.index, VERIF, rf))
            for fr in m.frames[:14]:
                f.write("#   %s  %s\n" % fr)
        print("violation: %s" % m.sig)
        print("  %s" % m.msg.replace("\n", "\n  "))
        for fr in sut_frames(m.frames)[:8]:
            print("    at %s  %s" % fr)
        try:
            tl = open(rf + ".trace", errors="replace").read().strip().split("\n")
            print("  minimised history (%d events):" % len(tl))
            for l in tl[-14:]:
                print("    " + l[:200])
        except OSError:
            pass
        print("VIOLATION property=%s replay=%s" % (prop, rf))
        nviol += 1
        rc = 1
    faults = {k[6:]: v for k, v in tot["counters"].items() if k.startswith("fault.")}
    probes = {k: v for k, v in tot["counters"].items() if not k.startswith("fault.") and not k.startswith("discard.")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": tot["ran"],
            "distinct_nontrivial": len(distinct),
            "rule": "one evaluation = one simulated run of one seed (workload, fault and schedule choices drawn from it); non-trivial = completed with at least one injected fault or more than one context switch"
                    + (" or any generated input (the inputs themselves are what varies here)" if any(w.get("nontrivial") == "all" for w in cfg["workloads"]) else "")
                    + "; distinct = different hash of the full event history (operations, results, faults, context switches)",
            "samples": samples,
            "runs_per_hour": int(tot["ran"] / max(trun, 0.01) * 3600),
            "simulated_seconds": tot["simNs"] / 1e9,
            "scheduling_points": tot["steps"], "context_switches": tot["switches"],
            "distinct_interleavings": len(scheds),
            "distinct_interleavings_measure": "hash of the sequence (step number, thread switched to)",
            "faults_injected": faults, "runs_with_fault": tot["withFault"], "runs_with_switch": tot["withSwitch"],
            "memory_accesses_checked": tot["accesses"],
            "probes": probes, "discarded": tot["discarded"],
            "discard_reasons": {k[8:]: v for k, v in tot["counters"].items() if k.startswith("discard.")},
            "determinism_gate": {"seeds_run_twice": tot["gate"], "divergences": 0},
            "per_workload": {w: {"ran": t["ran"], "ok": t["ok"], "with_fault": t["withFault"]} for w, t in per_wl.items()},
            "real_components": cfg.get("real", []), "stub_components": cfg.get("stub", []),
            "known_findings_seen": known_hits, "build_seconds": round(tbuild, 1),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    for w in cfg["workloads"]:
        for f in os.listdir(OUT):
            if f.startswith(w["id"] + "."):
                os.remove(OUT + "/" + f)
    print("%s: %d runs (%d ok, %d discarded), %d distinct, %.1f s simulated, %d faults, %d switches, build %.1f s, run %.1f s" % (
        prop, tot["ran"], tot["ok"], tot["discarded"], len(distinct), tot["simNs"] / 1e9, tot["faults"], tot["switches"], tbuild, trun))
    if tot["ok"] == 0 and rc == 0 and not known_hits:
        error("no run completed")
    sys.exit(rc)

main()
