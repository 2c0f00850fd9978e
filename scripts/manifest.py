#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
exec(open(HERE + "/scripts/levels.py").read())
checks, na = [], []
for p in props:
    if p in CLAIMS:
        tech, note = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd="./check.sh %s quick" % p,
            thorough_cmd="./check.sh %s thorough" % p,
            technique=tech, level="other", level_note=note))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
m = dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na)
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
