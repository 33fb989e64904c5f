#!/usr/bin/env python3
"""record_fix.py PROP HASH [PROP HASH ...]: add "fixed" entries to known_findings.json."""
import json, os, subprocess, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
f = os.path.join(R, "known_findings.json")
d = json.load(open(f))
a = sys.argv[1:]
for p, h in zip(a[::2], a[1::2]):
    m = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h], text=True).strip()
    hh, s = m.split(" ", 1)
    s = s.removeprefix("fix: ")
    if any(hh in x["what"] for x in d["findings"]):
        continue
    n = max(int(x["id"][1:]) for x in d["findings"]) + 1
    d["findings"].append({"id": "F%02d" % n, "property": p, "status": "fixed", "what": f"fixed: property={p} {hh} {s}"})
json.dump(d, open(f, "w"), indent=1, ensure_ascii=False)
open(f, "a").write("\n")
