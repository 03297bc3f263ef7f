#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that the harness registers."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
src = "".join(open(os.path.join(here, "harness", f)).read() for f in sorted(os.listdir(os.path.join(here, "harness"))) if f.endswith(".go"))
have = set(re.findall(r'register\(&Prop\{\s*ID:\s*"(C\d+)"', src))
TECH = json.load(open(os.path.join(here, "tools", "techniques.json")))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        t = TECH[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t[0], "level": t[2] if len(t) > 2 else "exploration", "level_note": t[1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "monitor not built yet"})
m["notes"] = "No hooks in /repo: the monitors observe the exported API, the files and the built program from outside. See DESIGN.md."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
