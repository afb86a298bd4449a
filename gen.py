#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and groups.json from the table below."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
CS, AP = "constraint-solver/src/", "autoprecompiles/src/"
P, CHECKS, NA, GROUPS = [], [], [], {}
TECH = "bounded symbolic execution of the real Rust code, Z3 decides every branch and assertion"

def prop(id, title, statement, over, text, why, files, mech, group=None, note="", na=None, observe=None):
    assert len(title) <= 80, title
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "hook_needed": None}}
    if observe:
        p["anchors"]["observe_at"] = observe
    P.append(p)
    if na:
        NA.append({"property": id, "reason": na})
        return
    GROUPS[id] = [group]
    CHECKS.append({"property": id, "quick_cmd": f"python3 run.py {id} quick",
                   "thorough_cmd": f"python3 run.py {id} thorough",
                   "technique": TECH, "level": "model_checking",
                   "level_note": note + " Bounded: holds for every symbolic value within the bounds listed in the evidence; jobs listed there as not exhausted were explored partially. Trusts the symbolic field/integer model and Z3; counterexamples are replayed concretely before being reported."})

exec(open(os.path.join(H, "props.py")).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
CHECKS.sort(key=lambda c: c["property"])
m = {"version": 1, "setup_cmd": "python3 run.py --build", "checks": CHECKS, "not_applicable": NA,
     "notes": "Generated by gen.py from props.py. run.py builds /verif/symx against /repo's working tree and runs the symbolic jobs of one property."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
json.dump(GROUPS, open(os.path.join(H, "groups.json"), "w"), indent=1)
