#!/usr/bin/env python3
"""replay.py FILE [VARIANT]: replays a minimised choice file against the current /repo tree and prints its trace."""
import sys, subprocess, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
b = B.build(sys.argv[2] if len(sys.argv) > 2 else "T")
t = sys.argv[1] + ".trace"
o = json.loads(subprocess.run([b, "replay", sys.argv[1], "--trace", t], stdout=subprocess.PIPE).stdout.decode().split("\n")[0])
print(open(t, errors="replace").read())
print("status:", {1: "held", 2: "VIOLATION", 3: "discarded", 4: "simulator limit"}.get(o["status"], o["status"]), o["cls"], o["msg"])
if o["pcs"]:
    print(subprocess.run(["addr2line", "-Cfipe", b] + o["pcs"], stdout=subprocess.PIPE).stdout.decode())
sys.exit(1 if o["status"] == 2 else 0)
