#!/usr/bin/env python3
"""DESIGN.md = design_head.md + per property: statement, method, bounds, rules (from evidence/) + planted bugs"""
import glob
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
chk = {c.get("property") or c.get("property_id") or c.get("id"): c for c in man["checks"]}
out = [open(os.path.join(ROOT, "tools", "design_head.md")).read(), "## 5. Properties\n"]
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    out.append("### %s %s\n\n%s\n" % (i, p["title"], p["statement"]))
    c = chk.get(i)
    if not c:
        na = [x for x in man.get("not_applicable", []) if i in x.values()]
        out.append("Not applicable: %s\n" % (na,))
        continue
    out.append("*Decided by:* %s." % c.get("technique", "").rstrip(". "))
    if i in EXTRA if (EXTRA := json.load(open(os.path.join(ROOT, "tools", "design_extra.json")))) else False:
        out.append(EXTRA[i])
    ev = os.path.join(ROOT, "evidence", i + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        out.append("\n*Rules* (obligations on the unchanged tree, %.0f s):\n" % max(1, e["wall_s"]))
        for n, r in sorted(e["coverage"]["rules"].items()):
            out.append("* **%s** – %s (%d)" % (n, r["rule"], r["instances"]))
    out.append("")
out.append("## 6. Planted bugs\n\nEach was written from a property's text, compiles, passes the 206 tests and fails its own "
           "demonstration (`seeded/<id>/`). `tools/seed.py --catch` applies each to a copy and runs the checks.\n")
out.append("| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
cf = os.path.join(ROOT, "tools", "catches.json")
catches = json.load(open(cf)) if os.path.exists(cf) else {}
for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    out.append("| %s | %s | %s | %s | %s |" % (n, d["property"], d["what_it_breaks"], d["needs"], catches.get(n, "?")))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
