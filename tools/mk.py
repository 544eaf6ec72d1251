#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties
C = {}      # id -> (technique, level_note)
NA = {}     # id -> reason

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

TECH = "contract-based deductive verification of the Go source (gov: symbolic execution of go/ssa against contracts, SMT)"
exec(open(os.path.join(V, "tools", "table.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for i in ids:
    assert (i in C) != (i in NA), i
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                 "evidence_file": "evidence/%s.json" % i, "technique": C[i][0], "level": "proof", "level_note": C[i][1]} for i in ids if i in C],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
     "notes": "No hooks: contracts live in /verif/contracts and are laid over the source in memory; /repo carries only fix: commits."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
