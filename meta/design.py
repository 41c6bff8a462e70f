"""Fills the generated tables of DESIGN.md (properties, declined properties, seeds) into meta/design.tmpl.md."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(R + "/meta/design.tmpl.md").read()
man = json.load(open(R + "/MANIFEST.json"))
props = {}
for l in open(R + "/properties.jsonl"):
    d = json.loads(l)
    props[d["id"]] = d
rows = json.load(open(R + "/meta/design_rows.json"))
T = ""
for c in man["checks"]:
    i = c["property"] if "property" in c else c["property_id"]
    m, o, b, cost = rows.get(i, ["?"] * 4)
    T += "| **%s** %s | %s | %s | %s | %s |\n" % (i, props[i]["title"], m, o, b, cost)
N = ""
for c in man["not_applicable"]:
    i = c.get("property") or c.get("property_id") or c.get("id")
    N += "* **%s %s** — %s\n" % (i, props[i]["title"], c["reason"])
S = ""
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d))
    S += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("\n", " "), rows.get("caught", {}).get(os.path.basename(os.path.dirname(d)), m["property"]))
for k, v in (("@@TABLE@@", T), ("@@NA@@", N), ("@@SEEDS@@", S)):
    t = t.replace(k, v.rstrip("\n"))
for k in ("NOTES", "MISSED", "DEFECTS"):
    p = R + "/meta/design_%s.md" % k.lower()
    t = t.replace("@@%s@@" % k, open(p).read().rstrip("\n") if os.path.exists(p) else "")
open(R + "/DESIGN.md", "w").write(t)
