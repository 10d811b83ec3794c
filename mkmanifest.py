#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(HERE, "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough",
                           technique=t, level="other", level_note=n + " " + TRUST))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check yet")))
json.dump(dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
               notes="All checks analyse the MIR of /repo's current tree exported by driver/; no code of /repo is run."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
