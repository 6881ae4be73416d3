#!/usr/bin/env python3
"""dev.py WORKLOAD [runs] [variant]: run a workload and list violation signatures (development aid)."""
import sys, os, json, subprocess, collections, shutil
sys.argv0 = sys.argv
import build as B
import importlib.util
spec = importlib.util.spec_from_file_location("check", B.VERIF + "/check.py")
src = open(B.VERIF + "/check.py").read().replace("\nmain()\n", "\n")
ns = {"__file__": B.VERIF + "/check.py", "__name__": "check"}
exec(compile(src, "check.py", "exec"), ns)
wl = sys.argv[1]
runs = int(sys.argv[2]) if len(sys.argv) > 2 else 20000
try:
    binp = B.build(sys.argv[3] if len(sys.argv) > 3 else "T")
except B.BuildError as e:
    ls = str(e).split("\n")
    print("\n".join(l[:300] for i, l in enumerate(ls) if "error" in l and i) or str(e)[-3000:])
    sys.exit(1)
os.makedirs(ns["OUT"], exist_ok=True)
t, h, viols = ns["run_workload"](binp, wl, int(os.environ.get("VERIF_SEED", "1")), runs, float(os.environ.get("T", "60")), "dev")
print({k: v for k, v in t.items() if k != "counters"})
print(t["counters"])
groups = collections.OrderedDict()
for v in sorted(viols, key=lambda v: v["index"]):
    d = ns["describe"](binp, v["o"])
    d.index, d.replay, d.status = v["index"], v["replay"], v["o"]["status"]
    groups.setdefault((d.status, d.sig), []).append(d)
for (st, sig), l in groups.items():
    d = l[0]
    print("== [%d] x%d %s (run %d) %s" % (st, len(l), sig, d.index, d.replay))
    print("   " + d.msg.replace("\n", "\n   ")[:1500])
    for f in d.frames[:int(os.environ.get("FR", "10"))]:
        print("      %s %s" % f)
