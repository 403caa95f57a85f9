#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "property-based testing (rapid: generated and shrunk cases) against "
# property: (oracle, note)
T = json.load(open(os.path.join(V, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({
            "property": i,
            "quick_cmd": f"bash run.sh {i} --tier quick",
            "thorough_cmd": f"bash run.sh {i} --tier thorough",
            "technique": GEN + T[i][0],
            "level": "exploration",
            "level_note": T[i][1],
        })
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check drives the public API of /repo's packages. See DESIGN.md; known_findings.txt lists the defects found and repaired."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
