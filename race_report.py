#!/usr/bin/env python3
"""Turns the race detector's log of one check into VIOLATION lines, de-duplicated by the two accessed functions.

race_report.py VERIF PROP SEED TIER LOGPREFIX   exit 1 if a race was reported
race_report.py --crash VERIF PROP SEED TIER     writes the evidence file of a run which crashed
"""
import sys, glob, re, json, os, hashlib

if sys.argv[1] == "--crash":
    verif, prop, seed, tier = sys.argv[2:6]
    with open(f"{verif}/evidence/{prop}.json", "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": int(seed), "level": "exploration", "violations": 1, "wall_s": 0,
                   "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the process crashed, see replays/", "samples": []}}, f)
    sys.exit(0)

verif, prop, seed, tier, prefix = sys.argv[1:6]
known = {}
try:
    for k in json.load(open(f"{verif}/known_findings.json")):
        if k["property"] == prop and k["status"] == "known":
            known[k["signature"]] = k["what"]
except FileNotFoundError:
    pass
blocks = []
for fn in glob.glob(prefix + ".*"):
    blocks += re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", open(fn, errors="replace").read(), re.S)
seen = {}
for b in blocks:
    tops = []
    foreign = True  # races inside of the MQTT and websocket libraries are not ours
    for part in re.split(r"\n\n", b):
        if not re.match(r"(Read|Write|Previous (read|write)|Atomic|Previous atomic)", part.strip(), re.I):
            continue
        funcs = [l.strip() for l in part.strip().split("\n")[1:] if l.startswith("  ") and not l.startswith("      ")]
        if any("iota.go" in f or f.startswith("main.") for f in funcs):
            foreign = False
        own = [f for f in funcs if "iota.go" in f] or funcs[:1]
        tops.append(re.sub(r"\(\)$", "", own[0]) if own else "?")
    if foreign and re.search(r"eclipse/paho|gorilla/", b):
        continue
    sig = "race:" + "|".join(sorted(tops))
    seen.setdefault(sig, b)
bad = 0
for sig, b in sorted(seen.items()):
    if sig in known:
        print(f"KNOWN-FINDING: property={prop} {known[sig]} [{sig}]")
        continue
    bad += 1
    if bad > 12:
        continue
    path = f"{verif}/replays/{prop}-{hashlib.sha256(sig.encode()).hexdigest()[:8]}.json"
    json.dump({"property": prop, "seed": int(seed), "tier": tier, "signature": sig, "race": b.split("\n"),
               "how_to_replay": f"VERIF_SEED={seed} bash /verif/run.sh {prop} {tier}"}, open(path, "w"), indent=1)
    print(f"VIOLATION property={prop} replay={path}\n  signature: {sig}")
    print("  " + "\n  ".join(b.strip().split("\n")[:12]))
# the number of reports goes into the evidence
ev = f"{verif}/evidence/{prop}.json"
if os.path.exists(ev):
    d = json.load(open(ev))
    d["coverage"].setdefault("observed", {})["race_reports_total"] = len(blocks)
    d["coverage"]["observed"]["race_reports_distinct"] = len(seen)
    d["violations"] = d.get("violations", 0) + bad
    json.dump(d, open(ev, "w"), indent=1)
sys.exit(1 if bad else 0)
