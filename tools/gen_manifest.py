#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --thorough" % i,
           "technique": t, "level": l, "level_note": n} for i, (t, l, n) in sorted(CLAIMS.items())]
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in props if i not in CLAIMS]
m = {"version": 1, "setup_cmd": "./setup", "hooks": HOOKS, "checks": checks, "not_applicable": na, "notes": NOTES}
if not HOOKS: del m["hooks"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
