#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
exec(open(root + '/tools/claims.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        level, tech, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash check.sh {i}",
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "not checked yet")})
json.dump({"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na},
          open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
