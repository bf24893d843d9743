#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
P = []
LEVEL = {}

def prop(id, title, statement, over, text, why, files, mech, note=None, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
    if note: LEVEL[id] = note

exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

from props import PROPS
checks = []
for p in P:
    if p["id"] in PROPS:
        r = PROPS[p["id"]]["runs"]
        mods = sorted({x["suite"] for x in r})
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                       "technique": "TLA+ model checking (TLC) + replay of TLC-generated behaviours into the code + TLC trace validation",
                       "level": "model_checking",
                       "level_note": LEVEL.get(p["id"], "") or
                         f"TLC explores the specification of the {', '.join(mods)} suite(s) within small constants and checks its invariants; "
                         "behaviours generated by TLC from the same specification are executed by the real code, and TLC validates every recorded "
                         "event against the specification in exact arithmetic. Assurance is for the generated behaviours; trusted are TLC, the "
                         "rational-arithmetic override and the driver."})
na = [{"property": p["id"], "reason": NA[p["id"]]} for p in P if p["id"] not in PROPS]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the drivers use public interfaces only. Specification language: TLA+ (TLC); see DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
