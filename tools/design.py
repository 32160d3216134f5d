#!/usr/bin/env python3
"""Fill the generated sections of DESIGN.md (run by hand): tools/DESIGN.in + tools/design_data.py -> DESIGN.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
D, CAUGHT = {}, {}
exec(open(os.path.join(T, "design_data.py")).read())
man = json.load(open(os.path.join(V, "MANIFEST.json")))
claimed = [c["property"] for c in man["checks"]]
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}
out = []
for i in claimed:
    out.append(f"### {i} - {props[i]['title']}\n\n{D[i].strip()}\n")
na = [f"* **{n['property']} {props[n['property']]['title']}** - {n['reason']}" for n in man["not_applicable"]]
bugs = ["| planted bug | property | needs | quick check |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    b = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    bugs.append(f"| {b} | {d['property']} | {d['needs']} | {CAUGHT.get(b, 'caught')} |")
t = open(os.path.join(T, "DESIGN.in")).read()
t = t.replace("@@PROPS@@", "\n".join(out).strip()).replace("@@NA@@", "\n".join(na) or "(none yet)").replace("@@BUGS@@", "\n".join(bugs))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
