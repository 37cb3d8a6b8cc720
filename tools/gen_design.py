#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, checks.py, known_findings.jsonl, seeded/*/meta.json, tools/design/caught.json."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import checks
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
K = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip()]
caught = json.load(open(V + "/tools/design/caught.json"))
S = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    S[f.split("/")[-2]] = json.load(open(f))
o = [open(V + "/tools/design/head.md").read()]
o.append("## Properties\n\nBounds are written quick / thorough where they differ.\n")
notes = {}
cur = None
for l in open(V + "/tools/design/notes.md"):
    if l.startswith("## "):
        cur = l[3:].strip()
        notes[cur] = ""
    elif cur:
        notes[cur] += l
for p in P:
    i = p["id"]
    o.append("### %s %s\n" % (i, p["title"]))
    if i not in checks.SPEC:
        o.append("Not applicable: %s\n" % checks.NA[i])
        continue
    s = checks.SPEC[i]
    o.append("%s\n" % s["what"])
    if notes.get(i, "").strip():
        o.append(notes[i].strip() + "\n")
    for u in s["units"]:
        src = "`harness/src/%s`" % u.src + (", schemas " + ", ".join("`%s`" % x for x in u.protos) if u.protos else "") + (", with UBSan traps" if u.ub else "") + (", over `%s`" % "`, `".join(u.repo_srcs) if u.repo_srcs else "")
        o.append("Unit `%s` (%s):\n" % (u.name, src))
        for e in u.entries:
            ks = list(dict.fromkeys(list(e.quick) + list(e.thorough)))
            par = []
            for k in ks:
                a, b = e.quick.get(k, "default"), e.thorough.get(k, "default")
                par.append("%s=%s" % (k, a) if a == b else "%s=%s/%s" % (k, a, b))
            o.append("- `%s%s`%s: %s" % (e.name, e.label, " (" + ", ".join(par) + ")" if par else "", e.bounds or "see the unit"))
        o.append("")
    o.append("Outside: %s.\n" % s["outside"].rstrip("."))
    f = [k for k in K if k["property"] == i]
    for k in f:
        o.append("- %s: %s%s" % (k["status"], k["what"], " (%s)" % k["commit"] if k.get("commit") else ""))
    for n, m in S.items():
        if m["property"] == i:
            o.append("- planted `%s`: %s (needs %s): %s" % (n, m["what_it_breaks"], m["needs"], caught.get(n, "not run")))
    o.append("")
o.append(open(V + "/tools/design/tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(o))
print(len(o), "parts;", [n for n in S if n not in caught], "without a result")
