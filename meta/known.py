#!/usr/bin/env python3
"""Writes known-findings.json (development aid; never run by a check)."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--grep=^fix:"], capture_output=True, text=True).stdout
PROP = json.load(open(os.path.join(H, "meta", "fixprops.json")))
fixed = []
for l in reversed(log.strip().split("\n")):
    h, s = l.split(" ", 1)
    k = [v for p, v in sorted(PROP.items(), key=lambda x: -len(x[0])) if s.startswith("fix: " + p)]
    assert len(k) >= 1, s
    for pid in k[0]:
        fixed.append("fixed: property=%s %s %s" % (pid, h, s[5:]))
F = []


def finding(id, prop, what, keys):
    F.append({"id": id, "property": prop, "status": "known", "what": what, "keys": keys})


exec(open(os.path.join(H, "meta", "known_list.py")).read())
json.dump({"findings": F, "fixed": fixed}, open(os.path.join(H, "known-findings.json"), "w"), indent=1)
