#!/usr/bin/env python3
"""mkseed.py FILE.py...: makes /verif/seeded/ID/ from definitions.

A definition file calls seed(id, property, [(file, old, new)...], demo, needs, breaks, rust=None).
`demo` is the body of a Python function using demo/hl.py; `rust` is a Rust test instead (crate, body)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = "/verif/seeded"
WT = "/tmp/s/wt"

def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout

def seed(id, prop, edits, demo=None, needs="", breaks="", rust=None):
    d = f"{OUT}/{id}"
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    sh("git", "-C", WT, "checkout", "-q", "--", ".")
    for f, old, new in edits:
        p = f"{WT}/{f}"
        s = open(p).read()
        head, mark, tail = s.partition("#[cfg(test)]\nmod test")
        assert head.count(old) == 1, f"{id}: {f}: {head.count(old)} matches of {old!r}"
        open(p, "w").write(head.replace(old, new) + mark + tail)
    diff = sh("git", "-C", WT, "diff")
    # deleted lines must be the original repository's
    for f, old, new in edits:
        base = subprocess.run(["git", "-C", "/repo", "show", f"8d0985b:{f}"], capture_output=True, text=True).stdout
        bl = set(base.splitlines())
        rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if not rem: print(f"{id}: WARNING no removed lines")
        for l in rem:
            if l not in bl:
                print(f"{id}: WARNING removes a line not of the original: {l!r}")
    open(f"{d}/patch.diff", "w").write(diff)
    sh("git", "-C", WT, "checkout", "-q", "--", ".")
    if rust is None:
        shutil.copy(f"{HERE}/demo/hl.py", d)
        shutil.copy(f"{HERE}/demo/demo.sh", d)
        if "from s3 import" in demo:
            shutil.copy(f"{HERE}/demo/s3.py", d)
        body = "\n".join("    " + l if l.strip() else "" for l in demo.strip("\n").splitlines())
        open(f"{d}/demo.py", "w").write("from hl import *\n\n\ndef demo():\n" + body + "\n\n\nrun(demo)\n")
    else:
        crate, src = rust
        shutil.copy(f"{HERE}/demo/demo_rust.sh", f"{d}/demo.sh")
        s = open(f"{d}/demo.sh").read().replace("@CRATE@", crate)
        open(f"{d}/demo.sh", "w").write(s)
        open(f"{d}/demo.rs", "w").write(src.strip("\n") + "\n")
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    print("made", id)

def main():
    if not os.path.exists(WT):
        sh("git", "clone", "-q", "/repo", WT)
    else:
        sh("git", "-C", WT, "fetch", "-q"); sh("git", "-C", WT, "reset", "-q", "--hard", "origin/HEAD")
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, "exec"), {"seed": seed})
main()
