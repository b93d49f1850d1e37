#!/usr/bin/env python3
"""Writes MANIFEST.json from targets.py, properties.jsonl and the technique table below."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(H, "targets.py")).read(), dict(add=lambda p, **k: T.__setitem__(p, k)))
TECH = json.load(open(os.path.join(H, "tools/technique.json")))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in T:
        t = TECH.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} --tier quick", thorough_cmd=f"python3 run.py {i} --tier thorough",
            technique="property-based testing" + (" + coverage-guided fuzzing (thorough)" if T[i].get("fuzz", True) else "") + ": " + t.get("technique", "generated inputs against a reference model"),
            level="exploration", level_note=t.get("note", "Random structured inputs plus an enumerated part; nothing is proved beyond what was generated."), evidence_file=f"evidence/{i}.json"))
    else: na.append(dict(property=i, reason=TECH.get(i, {}).get("reason", "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="VERIF_HOOKS", enable="no hooks are used: checks compile /repo's sources unmodified", source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
