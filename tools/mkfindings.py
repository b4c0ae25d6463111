#!/usr/bin/env python3
"""Writes /verif/known_findings.json: the repaired defects (by commit subject) and the open ones."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True).stdout
by = {s: h for h, s in (l.split("\t", 1) for l in log.splitlines())}
fixed = []
for l in open(R + "/tools/fixed.tsv"):
    prop, subject, what = l.rstrip("\n").split("\t")
    fixed.append(f"fixed: property={prop} {by[subject]} {what}")
left = [s for s in by if s.startswith("fix:") and not any(by[s] in f for f in fixed)]
assert not left, left
p = R + "/tools/open_findings.json"
open_ = json.load(open(p)) if os.path.exists(p) else []
json.dump({"findings": open_, "fixed": fixed}, open(R + "/known_findings.json", "w"), indent=1, ensure_ascii=False)
open(R + "/known_findings.json", "a").write("\n")
