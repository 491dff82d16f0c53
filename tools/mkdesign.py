#!/usr/bin/env python3
"""Fills the lists of DESIGN.md in from notes/*.md, known_findings.jsonl, seeded/ and MANIFEST.json."""
import json, os, re
V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
t = open(os.path.join(V, "notes/design.md")).read()
fx, kn = [], []
for l in open(os.path.join(V, "known_findings.jsonl")):
    l = l.strip()
    if l.startswith("fixed:"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l); fx.append("* %s (%s): %s" % m.groups())
    elif l.startswith("{"):
        k = json.loads(l); kn.append("* %s (%s): %s" % (k["property"], k["id"], k["what"]))
t = t.replace("@@FIXED@@", "\n".join(fx))
t = t.replace("@@KNOWN@@", "Known findings, recorded and not repaired (`known_findings.jsonl`):\n\n" + "\n".join(kn) if kn else "There are no unrepaired findings.")
pl = ["| change | property | needs | caught by |", "|---|---|---|---|"]
notes = json.load(open(os.path.join(V, "notes/caught.json")))
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    pl.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], notes.get(d, "C" + d[1:3])))
t = t.replace("@@PLANTS@@", "\n".join(pl))
mf = json.load(open(os.path.join(V, "MANIFEST.json")))
t = t.replace("@@NOT@@", "\n".join("* %s: %s" % (n["property"], n["reason"]) for n in mf["not_applicable"]) or "Every property has a check.")
open(os.path.join(V, "DESIGN.md"), "w").write(t)
