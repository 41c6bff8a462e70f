#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development aid)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
CHECKS = {}
NA = {}


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, level_note=None, na=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    PROPS.append(d)
    if na:
        NA[id] = na
    else:
        CHECKS[id] = (technique, level_note)


exec(open(os.path.join(H, "meta", "props.py")).read())
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py >/dev/null || true",
       "checks": [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": t, "level": "other", "level_note": n} for i, (t, n) in CHECKS.items()],
       "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
       "notes": "Static analysis only: every check recompiles /repo's working tree to GIMPLE/SSA and assembler data and analyses "
                "that; no library code is executed. No hooks in /repo are needed."}
json.dump(man, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
exec(open(os.path.join(H, "meta", "design.py")).read().replace("__file__", repr(os.path.join(H, "meta", "design.py"))))
