#!/usr/bin/env python3
"""Rewrites the "fixed:" lines of KNOWN_FINDINGS from /repo's fix commits and tools/fixprops.json (subject -> property)."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = json.load(open(os.path.join(H, "tools/fixprops.json")))
p = os.path.join(H, "KNOWN_FINDINGS")
keep = [l for l in open(p) if not l.startswith("fixed:")] if os.path.exists(p) else ["# known: property=ID what fails     (open finding: printed, does not fail the check)\n", "# fixed: property=ID commit what failed   (repaired in /repo; suppresses nothing)\n"]
out = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
for l in out:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        if s not in F: print("unmapped:", s); continue
        keep.append(f"fixed: property={F[s]} {h} {s}\n")
open(p, "w").writelines(keep)
