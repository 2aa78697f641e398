#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claims below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_claimed.json")))
COMMON = ("Every obligation generated from /repo's current source by gocv (deductive verifier for Go SSA, in /verif/gocv) is discharged by z3 or cvc5, "
          "function by function, for all inputs and iterations. Assumes: finite documents (termination is not proved), pure and deterministic DocModel, "
          "library functions as uninterpreted pure functions, floats uninterpreted with a few IEEE axioms. Trusts gocv, x/tools SSA, the solvers. ")
EXTRA = json.load(open(os.path.join(V, "tools", "level_notes.json")))
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "One technique for all properties: contracts (/verif/contracts) on the functions of /repo, verified from the SSA form of the working tree on every run; the harness (/verif/harness) replays failures on the real code and stands in, as a bounded check, for functions beyond the verifier's reach. No hooks in /repo.",
}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 tools/check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
        "technique": "contract-based deductive verification of the Go code (gocv: SSA to SMT, z3/cvc5)",
        "level": "proof",
        "level_note": COMMON + EXTRA.get(i, ""),
        "theorems": ["contracts of property %s in /verif/contracts/90-props.spec" % i],
    })
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
