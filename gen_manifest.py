#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open("properties.jsonl")]
m = dict(version=1, setup_cmd="python3 setup_check.py", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            technique=c.get("technique", "TLA+ model checked by TLC + trace validation of the real code against it"),
            level="model_checking", level_note=c.get("note", "Model: exhaustive within the bounds of its .cfg. Binding: every recorded execution of the real code (public API) is accepted step by step by the trace specification; executions are seeded random over the stated configuration space, so the implementation side is sampled, not exhaustive.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")))
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
