#!/usr/bin/env python3
"""DESIGN.md from tools/design.in.md, tools/design/<ID>.md, known-findings.txt and seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, "tools/design.in.md")).read()
out = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    f = os.path.join(V, "tools/design", p["id"] + ".md")
    out.append(f"### {p['id']} {p['title']}\n" + open(f).read().strip() + "\n")
t = t.replace("@@PROPS@@", "\n".join(out))
t = t.replace("@@FIND@@", "\n".join("- " + l.strip() for l in open(os.path.join(V, "known-findings.txt")) if l.startswith(("fixed", "finding"))))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {d.get('caught_by', '?')} |")
t = t.replace("@@SEEDED@@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
