#!/usr/bin/env python3
"""Single source of properties.jsonl, checks.json and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
R = "repos/plywood/src/runtime/ply-runtime/"
TECH = "deterministic simulation: seeded search over schedules, faults and inputs"
P = []
NA = []

REAL_RT = "ply-runtime compiled from /repo's working tree with the shipped POSIX implementations (asserts on)"
STUB_K = "operating system: simulated kernel (files, directories, pipes, sockets, processes, clocks)"
STUB_T = "threads: fibers under a seeded scheduler; pthread and std::condition_variable entry points replaced"
STUB_H = "heap: malloc with poisoning, guard and quarantine instead of dlmalloc (Heap_DL has its own check)"
ASSUME = ["the simulated kernel follows POSIX/Linux semantics for the calls it implements; an unimplemented call ends the check with an error, not a pass",
          "sequential consistency: data races are reported from happens-before clocks, not from weak-memory reorderings",
          "exploration: a sample of executions is checked, all of them repeatable from their seed"]

def prop(id, title, statement, over, text, why, files, mech, workloads=None, time=(30, 600), note="", nontrivial=None, observe=None, state=None, real=(), stub=(), assumptions=(), variant=None):
    wls = []
    for w in (workloads or [id]):
        d = dict(w) if isinstance(w, dict) else {"id": w}
        if nontrivial:
            d["nontrivial"] = nontrivial
        if variant:
            d.setdefault("variant", variant)
        wls.append(d)
    q = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [f if f.startswith("repos/") else R + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}
    if observe:
        q["anchors"]["observe_at"] = observe
    if state:
        q["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append((q, {"workloads": wls, "time": {"quick": time[0], "thorough": time[1]}, "level": "exploration",
                  "real": [REAL_RT] + list(real), "stub": [STUB_K, STUB_T, STUB_H] + list(stub), "assumptions": ASSUME + list(assumptions)}, note))

def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
               "anchors": {"files": [f if f.startswith("repos/") else R + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}}, None, None))
    NA.append({"property": id, "reason": reason})

exec(open(V + "/props.py").read())

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for q, _, _ in P:
            f.write(json.dumps(q) + "\n")
    with open(V + "/checks.json", "w") as f:
        json.dump({q["id"]: c for q, c, _ in P if c}, f, indent=1)
        f.write("\n")
    man = {"version": 1, "setup_cmd": "python3 build.py T" + "".join(" && python3 build.py " + v for v in sorted({w.get("variant", "T") for _, c, _ in P if c for w in c["workloads"]} - {"T"})),
           "checks": [{"property": q["id"], "quick_cmd": "python3 check.py " + q["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + q["id"],
                       "technique": TECH, "level": "exploration", "level_note": n} for q, c, n in P if c],
           "not_applicable": NA,
           "notes": "No hooks in /repo: every seam is at the operating-system, thread and heap entry points, replaced when the simulator is linked (see DESIGN.md)."}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    d = open(V + "/design.in.md").read()
    rows = []
    for q, c, n in P:
        rows.append("* **%s %s** - %s" % (q["id"], q["title"], n if c else "NOT CLAIMED: " + [x["reason"] for x in NA if x["property"] == q["id"]][0]))
    fixes = ["* " + l.strip()[7:] for l in open(V + "/known_findings.jsonl") if l.startswith("fixed:")]
    planted = ["| bug | property (its check catches it) | needs |", "|---|---|---|"]
    import glob
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        j = json.load(open(m))
        planted.append("| %s | %s | %s |" % (m.split("/")[-2], j["property"], j["needs"]))
    d = d.replace("@PLANTED@", "\n".join(planted))
    d = d.replace("@PROPS@", "\n".join(rows)).replace("@FIXES@", "\n".join(fixes))
    with open(V + "/DESIGN.md", "w") as f:
        f.write(d)
    import sys
    try:
        import jsonschema
        jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for q, _, _ in P:
            jsonschema.validate(q, s)
        print("valid", len(P))
    except ImportError:
        print("written (jsonschema not available)")

main()
