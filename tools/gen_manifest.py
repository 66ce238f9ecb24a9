#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of finished checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
done = json.load(open(os.path.join(root, "checks.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done and done[i].get("claim", True):
        checks.append({
            "property": i,
            "quick_cmd": f"./run {i} quick",
            "thorough_cmd": f"./run {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": done[i]["technique"],
            "level": done[i].get("level", "exploration"),
            "level_note": done[i]["note"],
        })
    else:
        na.append({"property": i, "reason": done.get(i, {}).get("reason", "check under construction")})
m = {"version": 1, "setup_cmd": "./run setup", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Checks compile harness packages into the module with go test -overlay; no hooks in /repo."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
