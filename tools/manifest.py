#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules of the analyser (mqcheck -list) and properties.jsonl."""
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rules = json.loads(subprocess.check_output([os.path.join(here, ".bin/mqcheck"), "-list"]))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "All checks are one analyser (analyzer/) that loads /repo's source on every run; the library is never compiled or executed. See DESIGN.md."}
for p in props:
    r = rules.get(p)
    if r is None:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction, not claimed yet")})
        continue
    m["checks"].append({"property": p, "quick_cmd": "bash check.sh " + p, "thorough_cmd": "bash check.sh " + p,
        "technique": r["Technique"], "level": r["Level"],
        "level_note": r["Explanation"] + " Assumes: " + "; ".join(r["Assumptions"] or ["the models of the standard library functions used"]) + "."})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
