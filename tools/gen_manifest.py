#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.jsonl's fixed entries from checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "tools/check.py setup", "checks": [], "not_applicable": [],
       "notes": "Every check executes the current sources in /repo symbolically (LLVM IR, executor in engine/, z3) and replays counterexamples natively."}
for p in props:
    i = p["id"]
    if i in checks.SPEC:
        s = checks.SPEC[i]
        out["checks"].append({
            "property": i, "quick_cmd": "tools/check.py %s --tier quick" % i, "thorough_cmd": "tools/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "bounded symbolic execution of the compiled library and generated code (LLVM IR) with SMT (z3) deciding every branch and assertion; native replay of counterexamples",
            "level": "model_checking",
            "level_note": (s["what"] + " Exhaustive within the bounds recorded in the evidence; outside: " + s["outside"])[:1000]})
    else:
        out["not_applicable"].append({"property": i, "reason": getattr(checks, "NA", {}).get(i, "not claimed yet: its check is under construction")})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "claimed")
