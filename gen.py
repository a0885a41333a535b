#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (run by hand after editing; both files are committed)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, level, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier={"over": over, "text": " ".join(qtext.split())}, why_tests_cant=" ".join(why.split()),
                  anchors={"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state], "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": None},
                  technique=technique, level=level, note=" ".join(note.split())))
exec(open(os.path.join(H, "props.py")).read())
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    for p, _ in NA:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "python3 mc/run.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 mc/run.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 mc/run.py %s" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
     "not_applicable": [{"property": p["id"], "reason": r} for p, r in NA],
     "notes": "One driver (mc/run.py) builds /repo's working tree into a scratch directory and runs stateless explorers (mc/h) over it. No hooks in /repo are needed."}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
