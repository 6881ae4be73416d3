#!/usr/bin/env python3
"""plant.py ID...: development aid. For each /verif/seeded/ID: the demo passes on the clean tree; with the patch
the stable tests pass, the demo fails and (reported) the property's check catches it. Restores /repo."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.abspath(__file__))
def sh(c, **kw):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
def demo(d):
    t = tempfile.mkdtemp(prefix="demo-")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(d + "/" + f, t)
    r = sh(["timeout", "300", "bash", t + "/demo.sh"], cwd="/repo")
    shutil.rmtree(t)
    return r.returncode, r.stdout.decode(errors="replace")[-600:]
assert not sh("git -C /repo status --porcelain").stdout, "repo not clean"
budget = os.environ.get("VERIF_BUDGET", "20")
skip_clean = "--fast" in sys.argv
for i in [a for a in sys.argv[1:] if not a.startswith("--")]:
    d = V + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    res = []
    if not skip_clean:
        sh("bash /opt/vp/build.sh")
        rc, out = demo(d)
        res.append("demo-clean=%d" % rc)
        if rc:
            print(out)
    r = sh("git -C /repo apply " + d + "/patch.diff")
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stdout.decode())
        continue
    try:
        res.append(sh("bash " + V + "/rt.sh").stdout.decode().strip()[-300:])
        rc, out = demo(d)
        res.append("demo-bug=%d" % rc)
        if rc == 0 or "--show" in sys.argv:
            print(out)
        r = sh(["python3", V + "/check.py", m["property"]], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_BUDGET=budget))
        o = r.stdout.decode(errors="replace")
        res.append("check=%d" % r.returncode)
        res.append("; ".join(l for l in o.split("\n") if l.startswith(("violation:", "ERROR")))[:200])
    finally:
        sh("git -C /repo checkout -- .")
    print(i, m["property"], " | ".join(res), flush=True)
if not skip_clean:
    sh("bash /opt/vp/build.sh")
