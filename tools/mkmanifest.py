#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_config import CHECKS, NOTES
NA = {
    "C31": "CUDA kernels need a GPU and nvcc; neither is in this sandbox, so no execution of them can be observed.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                           technique=tech, level=CHECKS[i].get("level", "exploration"), level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
m = dict(version=1, setup_cmd="python3 run.py --selftest", checks=checks, not_applicable=na,
         notes="Every check rebuilds /repo's src with its own instrumentation flags in a temporary directory; no hooks are added to /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
