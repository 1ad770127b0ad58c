#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    path = os.path.join(V, "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": "./run.py %s --tier quick" % p["id"],
        "thorough_cmd": "./run.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": consts.get("TECHNIQUE", "property-based testing of the real client and server (Hypothesis, generated cases against an exact oracle, shrinking)"),
        "level": consts["LEVEL"],
        "level_note": consts.get("NOTE", "Randomized exploration: no violation among the generated cases; not a proof. Trusts the harness, its reference model and the Linux loopback."),
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: checks build /repo's sources with their own recipes (lib/build.py). Replay a violation with ./run.py <ID> --replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
