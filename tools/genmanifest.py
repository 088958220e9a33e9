#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED: property -> (technique, level note). The rest is not applicable, with a reason."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, 'tools', 'claimed.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMED:
        t, note = CLAIMED[p]
        m["checks"].append({"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"./run.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "not built yet")})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
