#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from contracts/props.json and properties.jsonl."""
import json
conf = json.load(open("/verif/contracts/props.json"))
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    c = conf["properties"].get(i)
    if c:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            technique="contracts on the functions lifted from /repo/src, discharged by Verus/Z3; bounded search only to find failing inputs",
            level=c["level"], level_note=c["note"], **({"theorems": c["theorems"]} if c.get("theorems") else {})))
    else:
        na.append(dict(property=i, reason=conf["not_applicable"][i]))
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
    notes="No hooks: the checks read /repo/src as it is and link against the unmodified crate. See DESIGN.md."),
    open("/verif/MANIFEST.json", "w"), indent=1)
