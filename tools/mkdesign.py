#!/usr/bin/env python3
"""Fills in the generated sections of DESIGN.md."""
import csv, glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(R)
O = dict(l.rstrip("\n").split("\t") for l in open("tools/oracles.tsv"))
out = {}
t = ["| property | oracle | why the tests cannot settle it |", "|---|---|---|"]
for l in open("properties.jsonl"):
    p = json.loads(l)
    t.append(f"| {p['id']} {p['title']} | {O[p['id']]} | {p['why_tests_cant']} |")
out["oracles"] = t
rules = {}
for f in glob.glob("harness/*/src/*.rs"):
    for m in re.finditer(r"impl Part for (\w+) \{(.*?)fn cases", open(f).read(), re.S):
        r = re.search(r"fn rule\(&self\) -> &'static str \{(.*?)\n    \}", m.group(2), re.S)
        if r:
            rules[m.group(1)] = "; or: ".join(re.findall(r'"([^"]+)"', r.group(1)))
d = {}
for f in ("core/src/main.rs", "df/src/main.rs"):
    for c in re.finditer(r'Check \{\s*id: "(C\d+)",\s*parts: vec!\[(.*?)\],\s*assumptions', open("harness/" + f).read(), re.S):
        d[c.group(1)] = [
            f"  - {p.group(1)} ({p.group(2)} / {p.group(3)}): {rules.get(p.group(1), '?')}"
            for p in re.finditer(r"(\w+) \{[^{}]*?(?:o: [^{}]*(?:\{[^{}]*\})?,\s*)?n: \((\d+), (\d+)\)", c.group(2), re.S)
        ]
t = []
for k in sorted(d):
    t += [f"- **{k}**"] + d[k]
out["parts"] = t
t = ["| property | repaired |", "|---|---|"]
for l in open("tools/fixed.tsv"):
    p, c, w = l.rstrip("\n").split("\t")
    t.append(f"| {p} | {w} |")
out["fixes"] = t
t = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    t.append(f"| {f.split('/')[1]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
out["seeds"] = t
s = open("DESIGN.md").read()
for k, v in out.items():
    s = re.sub(rf"(<!-- {k} -->\n).*?(<!-- /{k} -->)", lambda m: m.group(1) + "\n".join(v) + "\n" + m.group(2), s, flags=re.S)
open("DESIGN.md", "w").write(s)
