#!/usr/bin/env python3
"""mutate.py gen N SEED > LIST: picks small syntactic changes to /repo's code.
mutate.py run LIST K OF: builds each change K, K+OF, ... in a scratch copy (bind-mounted over /repo and /verif in a private
namespace) and runs the checks of the properties anchored in that file until one reports a violation. Appends to /tmp/m/result.jsonl."""
import json, os, random, re, subprocess, sys, time

MAP = {
 "avro_to_arrow": "C18 C09 C10 C01 C19", "table/mod.rs": "C01 C02 C03 C04 C05 C06 C14 C17 C19 C21 C20", "datafusion": "C15",
 "config/table.rs": "C13 C14 C01 C11 C05", "timeline/selector.rs": "C12 C04 C02 C03 C17", "table/builder.rs": "C14 C13 C01", "log_file/reader.rs": "C09 C10 C08 C01 C18",
 "timeline/instant.rs": "C12 C11 C10 C02 C03 C04", "config/mod.rs": "C13 C14 C01 C10", "file_group/reader.rs": "C01 C02 C03 C07 C08 C09 C14 C15",
 "log_block.rs": "C09 C10 C08 C01", "file_group/mod.rs": "C01 C17 C02 C11 C10 C04 C20", "expr/": "C05 C10 C15 C03", "record_merger": "C07 C01 C02 C18", "listing": "C20 C05 C01 C21 C10 C23",
 "log_file/mod.rs": "C11 C10 C09 C01", "partition.rs": "C05 C10 C15", "file_group/builder.rs": "C17 C03 C04 C10 C01", "base_file.rs": "C11 C10 C01 C17 C02", "fs_view": "C01 C04 C05 C20 C21 C02 C23",
 "file_slice.rs": "C17 C01 C20 C11 C06", "config/read.rs": "C14 C13 C06 C21", "content.rs": "C09 C18 C10 C08", "meta_field": "C01 C03 C08", "scanner.rs": "C08 C09 C02 C23", "config/util.rs": "C13 C14 C10",
 "storage/": "C20 C13 C14 C01 C22 C15 C10", "config/internal": "C14 C13", "log_format": "C09 C10", "timeline/mod.rs": "C12 C19 C17 C03 C04 C01 C02 C23", "avro.rs": "C18 C09 C10", "util/arrow": "C07 C01 C03", "metadata/": "C05 C01 C03 C20",
 "merge/mod": "C07 C14", "python": "C16",
}
OPS = [
 (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" > ", " < "),
 (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".is_empty() == false"),
 (r"\.rev\(\)", ""), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"Less\b", "Greater"), (r"Greater\b", "Less"),
 (r"(?<![\w.\"\]])(\d+)(?![\w.\"])", lambda m: str(int(m.group(1)) + 1)), (r"^\s*continue;$", ""), (r"^(\s*)return Ok\((.*)\);$", ""), (r"^\s*[\w.]+\.(push|insert|extend|sort\w*|dedup|clear|retain|reverse|remove)\(.*\);$", ""),
 (r'"([^"{}\\]+)"', lambda m: '"' + m.group(1) + 'x"'), (r"\.filter\(\|", ".filter(|_| true).filter(|"), (r"unwrap_or\(true\)", "unwrap_or(false)"), (r"unwrap_or_default\(\)", "unwrap_or_default() "),
 (r"\.next_back\(", ".next("), (r"\.starts_with\(", ".ends_with("), (r"\.ends_with\(", ".starts_with("), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.trim\(\)", ""), (r"_le_", "_be_"), (r"_be_", "_le_"), (r"i64", "i32"), (r"u64", "u32"),
 (r"\.range\((.*)\.\.=", r".range(\1.."), (r"\.\.=", ".."), (r"rsplit", "split"), (r"\bsplit(?=[n_(])", "rsplit"), (r"to_lowercase\(\)", "to_uppercase()"), (r"\.or_else", ".or_else"), (r"^\s*[\w.]+\([^;]*\)\?;$", ""), (r"^(\s*)(\w[\w.]*) [+\-]?= [^;]*;$", ""),
 (r"Included", "Excluded"), (r"Excluded", "Included"), (r"\.skip\(", ".take("), (r"^\s*(Some|Ok|Err)\((.*)\) => .*,$", "#arm"), (r"\bSome\((\w+)\)$", "None"),
]

def lines_of(path):
    """The lines that are not tests, comments, uses or attributes."""
    src = open(path).read().split("\n")
    out, i = [], 0
    while i < len(src):
        l = src[i]
        if l.strip().startswith("#[cfg(test)]"):
            i += 1
            depth, seen = 0, False
            while i < len(src):
                depth += src[i].count("{") - src[i].count("}")
                seen |= "{" in src[i]
                i += 1
                if (seen and depth <= 0) or (not seen and src[i - 1].rstrip().endswith(";")):
                    break
            continue
        t = l.strip()
        if not (t == "" or t.startswith(("//", "*", "/*", "use ", "pub use", "#[", "pub mod", "mod ", "pub fn", "fn ", "pub async fn", "impl", "log::", "debug!", "warn!"))):
            out.append((i, l))
        i += 1
    return out

def gen(n, seed):
    files = subprocess.check_output("cd /repo && git ls-files 'crates/core/src/*.rs' 'crates/datafusion/src/*.rs' 'python/src/internal.rs' 'python/hudi/table/builder.py'", shell=True, text=True).split()
    allm = []
    for f in files:
        if f.endswith(("error.rs", "verif.rs", "lib.rs")) and "datafusion" not in f:
            continue
        checks = next((c for k, c in MAP.items() if k in f), None)
        if not checks:
            print("no checks for", f, file=sys.stderr)
            continue
        for i, l in lines_of("/repo/" + f):
            if "Error::" in l or "format!(" in l or "expect(" in l:
                continue
            for pat, rep in OPS:
                if rep == "#arm":
                    continue
                for m in re.finditer(pat, l):
                    new = l[:m.start()] + (m.expand(rep) if isinstance(rep, str) else rep(m)) + l[m.end():]
                    if new != l and new.strip() != l.strip():
                        allm.append({"file": f, "line": i, "old": l, "new": new, "checks": checks})
    random.seed(seed)
    by = {}
    for m in allm:
        by.setdefault(m["file"], []).append(m)
    print({f: len(v) for f, v in by.items()}, file=sys.stderr)
    random.shuffle(allm)
    seen, out = set(), []
    for m in allm:
        k = (m["file"], m["line"])
        if k in seen:
            continue
        seen.add(k)
        out.append(m)
        if len(out) == n:
            break
    for m in out:
        print(json.dumps(m))

def run(path, k, of):
    root = f"/tmp/m/{k}"
    if not os.environ.get("INSIDE"):
        os.makedirs(root, exist_ok=True)
        for d in ("repo", "verif"):
            if not os.path.exists(f"{root}/{d}"):
                subprocess.check_call(["cp", "-a", f"/{d}", f"{root}/{d}"])
        os.environ["INSIDE"] = "1"
        os.execvp("unshare", ["unshare", "-Urm", "bash", "-c", f"mount --bind {root}/repo /repo && mount --bind {root}/verif /verif && exec python3 {sys.argv[0]} run {path} {k} {of}"])
    done = set()
    if os.path.exists("/tmp/m/result.jsonl"):
        for l in open("/tmp/m/result.jsonl"):
            r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    ms = [json.loads(l) for l in open(path)]
    for m in ms[k::of]:
        if (m["file"], m["line"], m["new"]) in done:
            continue
        p = "/repo/" + m["file"]
        src = open(p).read()
        ls = src.split("\n")
        if ls[m["line"]] != m["old"]:
            continue
        ls[m["line"]] = m["new"]
        open(p, "w").write("\n".join(ls))
        res, t0, ran = "survived", time.time(), []
        for c in m["checks"].split():
            r = subprocess.run(["timeout", "-k", "5", "600", "bash", "/verif/check.sh", c], capture_output=True, text=True, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            ran.append(c)
            if "does not build" in r.stderr + r.stdout:
                res = "does not build"; break
            if r.returncode != 0:
                v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
                res = "killed" if v else "rc %d" % r.returncode
                m["what"] = (r.stdout + r.stderr)[-300:] if not v else v[0][:200]
                break
        open(p, "w").write(src)
        m.update(res=res, ran=ran, s=round(time.time() - t0))
        with open("/tmp/m/result.jsonl", "a") as f:
            f.write(json.dumps(m) + "\n")

if sys.argv[1] == "gen":
    gen(int(sys.argv[2]), int(sys.argv[3]))
else:
    run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
