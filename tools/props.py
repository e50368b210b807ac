#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. Run after editing: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

TECH = "contract-based deductive verification: pre/postconditions on the real functions, discharged by symbolic execution of their LLVM IR with SMT and polynomial normal forms (irv)"


def prop(id, title, statement, over, text, why, files, mech, level="proof", note="", na=None, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None},
              "level": level, "note": note, "na": na})


exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
man = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
       "notes": "No hooks are needed: contracts live in /verif/harness and are compiled together with the sources in /repo's working tree on every run. /repo carries only fix: commits."}
for p in P:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        man["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                              "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": p["level"], "level_note": p["note"]})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
assert len({p["id"] for p in P}) == len(P)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
