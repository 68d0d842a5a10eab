#!/usr/bin/env python3
# Generates MANIFEST.json and props.json from the tables below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Deductive proof over the SSA form of the current /repo sources, for all inputs, with exact machine integers; "
        "trusts the condition generator (govc), go/ssa and the SMT solvers. ")
TECH = "contract-based deductive verification of the Go source (govc: SSA verification conditions + SMT)"
C = []
def prop(id, harness, dir=".", note="", **kw):
    d = dict(id=id, harness=harness, dir=dir, note=NOTE + note, technique=TECH)
    d.update(kw)
    C.append(d)
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
json.dump(C, open(os.path.join(V, "props.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "./setup", "checks": [], "not_applicable": []}
for c in C:
    m["checks"].append({"property": c["id"], "quick_cmd": "./check " + c["id"], "thorough_cmd": "./check " + c["id"] + " --tier thorough",
        "technique": c["technique"], "level": c.get("level", "proof"), "level_note": c["note"]})
claimed = {c["id"] for c in C}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] not in claimed:
        m["not_applicable"].append({"property": p["id"], "reason": NA[p["id"]]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
