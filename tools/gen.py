#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/texts.py and spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import spec
from tools import texts

ids = [d["id"] for d in texts.P]
assert len(set(ids)) == len(ids)
for d in texts.P:
    assert len(d["title"]) <= 80, d["title"]
    assert d["id"] in spec.PROPS or d["id"] in spec.NOT_APPLICABLE, d["id"]
for i in spec.PROPS:
    assert i in ids, i
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in sorted(texts.P, key=lambda d: d["id"]):
        f.write(json.dumps(d) + "\n")
checks = []
for d in sorted(texts.P, key=lambda d: d["id"]):
    i = d["id"]
    if i not in spec.PROPS:
        continue
    q = spec.PROPS[i]
    checks.append({"property": i,
                   "quick_cmd": "python3 tools/vp.py %s quick" % i,
                   "thorough_cmd": "python3 tools/vp.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": q["technique"],
                   "level": "other",
                   "level_note": q["explanation"] + (" Outside: " + q["outside"] if q["outside"] else "")})
m = {"version": 1, "setup_cmd": "python3 tools/vp.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(spec.NOT_APPLICABLE.items())]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
