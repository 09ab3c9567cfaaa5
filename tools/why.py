#!/usr/bin/env python3
"""Shows where a rejected trace leaves the specification:  why.py REPLAY [var ...]"""
import json, re, sys
r = json.load(open(sys.argv[1]))
d = r["data"]
print(r["what"]); print("case:", json.dumps(d.get("case"))[:1500])
out = d.get("tlc", "")
if out:
    last = out.split("State ")[-1]
    want = sys.argv[2:]
    for m in re.finditer(r"/\\ (\w+) = (.*?)(?=\n/\\ |\n\n|\Z)", last, re.S):
        if not want or m.group(1) in want:
            print("  ", m.group(1), "=", re.sub(r"\s+", " ", m.group(2))[:300])
    m = re.search(r"/\\ pos = (\d+)", last)
    if m:
        p = int(m.group(1))
        ev = d["trace"].get("events", [])
        for q in range(max(1, p - 2), min(len(ev), p + 1) + 1):
            print("  event", q, json.dumps(ev[q - 1])[:900])
        print("  of", len(ev))
else:
    print(json.dumps(d)[:3000])
