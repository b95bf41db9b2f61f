#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the tables below (python3 docs/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, q, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    for x in files: assert os.path.exists('/repo/' + x), (id, x)
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe or []))
exec(open(os.path.join(V, "docs", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"], anchors=a)) + "\n")
have = set()
import glob, re
for g in glob.glob(os.path.join(V, "harness", "*.go")):
    have |= set(re.findall(r'register\("(P\d\d)"', open(g).read()))
missing = [p["id"] for p in P if p["id"] not in have]
assert not missing, missing
extra = have - {p["id"] for p in P}
if extra: print("registered but not in the table:", sorted(extra))
m = dict(version=1, setup_cmd="bash build.sh plain && bash build.sh race",
  checks=[dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
  not_applicable=[], notes="All checks are runtime monitors: the real code runs under generated workloads while oracles (reference models independent of /repo, the Go race detector, allocation and progress monitors) judge every execution. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
