#!/usr/bin/env python3
"""writes MANIFEST.json from lib/props.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "technique": p.get("technique", "TLA+ specification; TLC validates recorded traces of the real code"
                               + (" and model-checks the design, whose states are replayed" if p.get("models") else "")),
            "level": "model_checking",
            "level_note": p.get("note", props.NOTE),
        })
    else:
        na.append({"property": i, "reason": props.NOT_BUILT.get(i, "the check is not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
