#!/usr/bin/env python3
"""Generates DESIGN.md (python3 docs/design.py)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "docs")
rd = lambda n: open(os.path.join(D, n)).read()
out = [rd("design_head.md")]
txt = {}
for part in rd("design_props.md").split("\n@"):
    part = part.lstrip("@")
    if part.strip(): txt[part[:3]] = part[3:].strip()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
tech = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
for p in sorted(props, key=lambda p: p["id"]):
    out.append("### %s %s\n\n%s\n\n*Technique:* %s. *Bounds:* %s\n\n*Why not by tests:* %s\n" % (p["id"], p["title"], txt[p["id"]], tech[p["id"]]["technique"], tech[p["id"]]["level_note"], p["why_tests_cant"]))
kf = json.load(open(os.path.join(V, "known_findings.json")))
out.append("## 4. Genuine defects repaired in /repo (`fix:` commits)\n\nEach was found by the named check on the original tree; the check passes on the repaired tree and reports the defect if it returns.\n\n| property | commit | what failed |\n|---|---|---|")
out += ["| %s | %s | %s |" % (k["property"], k["commit"], k["what"]) for k in kf if k["status"] == "fixed"]
out.append("\n## 5. Known findings (recorded, not repaired)\n\nMatched by exact signature; another violation of the same property is still reported.\n\n| property | signature | what fails |\n|---|---|---|")
out += ["| %s | `%s` | %s |" % (k["property"], k["signature"], k["what"]) for k in kf if k["status"] == "known"]
out.append("\n## 6. Planted bugs and mutation campaign\n\n" + rd("design_seeds.md") + "\n| planted bug | property = check that catches it | needs |\n|---|---|---|")
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    out.append("| %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"]))
out.append("\n" + rd("design_tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
