#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties the checker implements."""
import json, os, subprocess, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
mc = sys.argv[1] if len(sys.argv) > 1 else "/tmp/vmcdev/mc"
have = {l.split()[0] for l in subprocess.check_output([mc, "list"], text=True).splitlines()}
NOTE = {}
exec(open(os.path.join(root, "tools", "notes.py")).read())
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in have:
        tech, note = NOTE[i]
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="no check registered (yet): not decided by this framework"))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
    notes="Checks rebuild an instrumented copy of /repo's working tree; see DESIGN.md.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
