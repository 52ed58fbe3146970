#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and bin/meta.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import checks, meta
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(meta, "NOT_APPLICABLE", {})
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=[], not_applicable=[])
for p in props:
    if p in checks.CHECKS:
        x = meta.META[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 bin/check.py %s quick" % p, thorough_cmd="python3 bin/check.py %s thorough" % p,
                                technique=x["technique"], level=checks.CHECKS[p].get("level", "model_checking"),
                                level_note="Bounds: " + x["bounds"] + ". " + x["note"] + " Assumes: " + "; ".join(x["assumes"]) + "."))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "not claimed yet: the machinery that drives the importer is being built")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
