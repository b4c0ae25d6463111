#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
H = "stateful generation of table histories written to disk, compared with a reference model"
TRUST = "Exploration of generated cases up to stated sizes; trusts the reference model and table writer of the harness (documented in DESIGN.md). Absence of violations is evidence, not proof."
C = {
 "C01": H + " after every operation", "C02": H + " at generated times", "C03": H + " over generated windows",
}
for l in open(R + "/tools/techniques.tsv"):
    k, v = l.rstrip("\n").split("\t"); C[k] = v
NA = {i: "its generators and oracle are still being built; nothing rules the technique out" for i in ids if i not in C}
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "checks": [{"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
   "technique": "property-based testing: " + C[i], "level": "exploration", "level_note": TRUST} for i in ids if i in C],
 "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
 "hooks": {"guard": "cfg(hudi_verif)", "enable": "harness/.cargo/config.toml passes --cfg hudi_verif; it makes InstantRange nameable outside the crate", "source_commits": ["3cc3e5c09c37ea84c5073ef96bf13c9ea40532e4"]},
 "notes": "Random choices derive from VERIF_SEED."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1); open(R + "/MANIFEST.json", "a").write("\n")
