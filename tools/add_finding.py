#!/usr/bin/env python3
"""add_finding.py REPLAY.json CLASS(0|1) WHAT: lists the replay's case as an open finding."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(sys.argv[1]))
p = R + "/tools/open_findings.json"
l = json.load(open(p)) if os.path.exists(p) else []
e = {"property": r["property"], "part": r["part"], "sig": r["sig"], "what": sys.argv[3], "status": "open", "case": r["case"]}
if sys.argv[2] == "1":
    e["class"] = True
l = [x for x in l if (x["property"], x["part"], x["sig"], x["what"]) != (e["property"], e["part"], e["sig"], e["what"])] + [e]
json.dump(l, open(p, "w"), indent=1, ensure_ascii=False)
open(p, "a").write("\n")
