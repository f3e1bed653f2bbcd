#!/usr/bin/env python3
# Writes MANIFEST.json. CLAIMED lists the properties with a check; the others need a reason in NA.
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification of the real Go code (SSA weakest preconditions, SMT)",
            "level": "proof",
            "level_note": CLAIMED[i],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not covered yet")})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
