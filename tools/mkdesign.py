#!/usr/bin/env python3
"""write DESIGN.md: the text in tools/design.md with a section per property from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks

NOTES = json.load(open(os.path.join(V, "tools", "design_notes.json")))
NA = {x["property"]: x["reason"] for x in json.load(open(os.path.join(V, "MANIFEST.json")))["not_applicable"]}
seeded = {}
d = os.path.join(V, "seeded")
if os.path.isdir(d):
    for i in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, i, "meta.json")))
        seeded.setdefault(m["property"], []).append((i, m["what_it_breaks"]))
out = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out.append("### %s — %s\n" % (i, p["title"]))
    c = checks.CHECKS.get(i)
    if not c:
        out.append("Not applicable: %s.\n" % NA[i].rstrip("."))
        continue
    hs = sorted({q[0] for q in c["quick"]} | {q[0] for q in c.get("thorough", [])})
    out.append("- Anchors: %s" % ", ".join("`%s`" % f for f in p["anchors"]["files"]))
    out.append("- Executor: %s; harnesses %s; %d configurations in the quick tier, %d more in the thorough one" %
               ("pysym" if c.get("python") else "komsym", ", ".join("`%s`" % h for h in hs), len(c["quick"]), len(c.get("thorough", []))))
    if i in NOTES:
        out.append("- How it is decided: " + NOTES[i])
    out.append("- Bounds: " + c["bounds"])
    out.append("- Outside: " + (c.get("outside") or "nothing further"))
    for b, w in seeded.get(i, []):
        out.append("- Planted: `%s` (%s)" % (b, w))
    out.append("")
s = open(os.path.join(V, "tools", "design.md")).read()
fx = []
for l in open(os.path.join(V, "known_findings.jsonl")):
    if l.startswith("fixed: "):
        w = l.split(None, 3)
        fx.append("| %s | %s (`%s`) |" % (w[1].split("=")[1], w[3].strip(), w[2]))
open(os.path.join(V, "DESIGN.md"), "w").write(s.replace("@@PROPERTIES@@", "\n".join(out)).replace("@@FIXES@@", "\n".join(fx)))
