#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json (one property each)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.load(open(f)) for f in sorted(glob.glob(os.path.join(V, "tools", "props", "*.json")))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 -m compileall -q check.py && g++ -std=c++14 -O1 -c sim/sim.cc -o /dev/null",
     "checks": [], "not_applicable": []}
for p in props:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]})
m["notes"] = "No hooks in /repo: every seam used is one the library already has (iostreams, global operator new/delete, the element type, callbacks, linked LAPACK symbols). See DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(m["checks"]), "claimed")
