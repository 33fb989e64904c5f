#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json (one property per file)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(root + "/tools/props/*.json")):
    d = json.load(open(f))
    m = d.pop("check", None)
    props.append(d)
    if m is None or "reason" in m:
        na.append({"property": d["id"], "reason": (m or {}).get("reason", "no check built yet")})
        continue
    cmd = f"python3 checks/{m['script']}"
    checks.append({"property": d["id"], "quick_cmd": cmd, "thorough_cmd": cmd,
                   "technique": m["technique"], "level": "exploration", "level_note": m["note"]})
open(root + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in props))
man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(man, open(root + "/MANIFEST.json", "w"), indent=1)
import sys
sys.path.insert(0, "/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import jsonschema
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
for p in props:
    jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
print(len(props), "properties,", len(checks), "checks")
