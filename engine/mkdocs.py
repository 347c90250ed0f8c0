#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, technique="contracts discharged by CBMC on the real code", level="proof", state=(), observe=(), na=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None},
              "_note": note, "_tech": technique, "_level": level, "_na": na})


exec(open(os.path.join(V, "engine", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = {"version": 1, "setup_cmd": "bash engine/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "python3 engine/vp.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 engine/vp.py " + p["id"],
                 "technique": p["_tech"], "level": p["_level"], "level_note": p["_note"]} for p in P if not p["_na"]],
     "not_applicable": [{"property": p["id"], "reason": p["_na"]} for p in P if p["_na"]],
     "notes": "No hooks in /repo: the harnesses #include the unmodified sources."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
