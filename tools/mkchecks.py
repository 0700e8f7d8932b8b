#!/usr/bin/env python3
"""Writes /verif/checks.json (bounds of every exploration) and /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def st(harness, budget=60, reach=(), samples=60, partial=False, race=False, replay=0, **params):
    d = {"harness": harness, "params": params, "budget": budget, "samples": samples}
    if reach: d["reach"] = list(reach)
    if partial: d["partial"] = True
    if race: d["race"] = True
    if replay: d["limit"] = replay
    return d

C = {}
def check(id, quick, thorough, bounds, outside, assumptions=()):
    C[id] = {"quick": quick, "thorough": thorough, "bounds": bounds, "outside": outside, "assumptions": list(assumptions)}

exec(open(os.path.join(V, "tools", "checks_def.py")).read())

NA = {}
TODO = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
json.dump(C, open(os.path.join(V, "checks.json"), "w"), indent=1, ensure_ascii=False)
m = {"version": 1,
     "setup_cmd": "sh ./setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "Every check builds the engine and the harnesses from /verif and loads the implementation's SSA from /repo's working tree. No hooks in /repo are needed."}
for p in props:
    i = p["id"]
    if i in C:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"sh ./check.sh {i} quick",
            "thorough_cmd": f"sh ./check.sh {i} thorough",
            "technique": "symbolic execution of the Go SSA of the real code, SMT (z3, bit-vectors) decides every branch and assertion; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Holds for every value within: " + C[i]["bounds"] + " Outside: " + C[i]["outside"] + " Trusted: the engine's Go semantics (validated on every run by replaying explored paths natively), z3, the harness oracle."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not yet claimed: the check is still being built")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print("claimed", [c["property"] for c in m["checks"]], "n/a", [c["property"] for c in m["not_applicable"]])
