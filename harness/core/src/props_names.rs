//! Data file names and grouping, the timeline, configuration, and storage.

use crate::fail;
use crate::gen::{self, Opts};
use crate::pbt::Source;
use crate::props_log::permutation;
use crate::q::*;
use crate::runner::*;
use crate::sim::*;
use hudi_core::config::internal::HudiInternalConfig;
use hudi_core::config::read::HudiReadConfig;
use hudi_core::config::table::HudiTableConfig;
use hudi_core::config::{ConfigParser, HudiConfigValue, HudiConfigs};
use hudi_core::file_group::base_file::BaseFile;
use hudi_core::file_group::log_file::LogFile;
use hudi_core::file_group::FileGroup;
use hudi_core::storage::file_metadata::FileMetadata;
use hudi_core::storage::{get_leaf_dirs, Storage};
use hudi_core::table::builder::TableBuilder;
use hudi_core::table::Table;
use hudi_core::timeline::instant::{Action, Instant, State};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;
use std::sync::Arc;

fn tiers(n: (usize, usize), t: Tier) -> usize {
    if t == Tier::Quick {
        n.0
    } else {
        n.1
    }
}

// ---------------------------------------------------------------- C11: names

pub fn instant_ts(s: &mut Source) -> String {
    let base = 20240101000000i64;
    let day = s.range(1, 28);
    let hh = s.range(0, 23);
    let mut t = format!("{}", base + (day - 1) * 1_000_000 + hh * 10_000 + s.range(0, 59));
    if !s.chance(1, 4) {
        t.push_str(&format!("{:03}", s.range(0, 999)));
    }
    t
}

fn file_id(s: &mut Source) -> String {
    match s.weighted(&[4, 2, 2, 1]) {
        0 => format!("{}-{}", s.string_of(&["a", "0", "f", "9", "5", "-"], 1, 12), s.range(0, 12)),
        1 => format!("{:08}-{}-0", s.range(0, 99), s.string_of(&["a", "b", "1"], 1, 6)),
        2 => s.string_of(&["a", "é", "日", ".", "-", " ", "+", "%", "=", "Z"], 1, 8),
        _ => "5a226868-2934-4f84-a16f-55124630c68d-0".into(),
    }
}

fn token(s: &mut Source) -> String {
    if s.chance(1, 8) {
        return s.range(0, 9).to_string();
    }
    format!("{}-{}-{}", s.range(0, 20), s.range(0, 300), s.range(0, 9000))
}

#[derive(Serialize, Deserialize, Debug)]
pub struct NameCase {
    log: bool,
    id: String,
    token: String,
    ts: String,
    ext: String,
    version: u32,
    size: usize,
    /// (what, the name derived from the well-formed one, certainly malformed)
    near: Vec<(String, String, bool)>,
}

impl NameCase {
    fn name(&self) -> String {
        if self.log {
            format!(".{}_{}.{}.{}_{}", self.id, self.ts, self.ext, self.version, self.token)
        } else {
            format!("{}_{}_{}.{}", self.id, self.token, self.ts, self.ext)
        }
    }
}

pub struct Names {
    pub n: (usize, usize),
}

impl Part for Names {
    type Case = NameCase;
    fn name(&self) -> &'static str {
        "file names"
    }
    fn rule(&self) -> &'static str {
        "a base or log file name made from generated components is parsed, compared with them and printed back, with and without file metadata; names derived from it by dropping, emptying or adding a part must be rejected, and any other edit must be rejected or print back identically from non-empty parts; non-trivial: at least two derived names"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> NameCase {
        let log = s.chance(1, 2);
        let mut c = NameCase {
            log,
            id: file_id(s),
            token: token(s),
            ts: instant_ts(s),
            ext: if log { "log".into() } else { s.pick(&["parquet", "orc", "hfile"]).to_string() },
            version: if s.chance(1, 3) { s.range(1, 1200) as u32 } else { s.range(1, 12) as u32 },
            size: s.usize(0, 1 << 20),
            near: vec![],
        };
        let (id, tk, ts, ext, v) = (c.id.clone(), c.token.clone(), c.ts.clone(), c.ext.clone(), c.version);
        for _ in 0..s.usize(1, 6) {
            let (what, name, bad) = if log {
                match s.below(15) {
                    0 => ("no prefix", format!("{id}_{ts}.{ext}.{v}_{tk}"), !id.starts_with('.')),
                    1 => ("empty id", format!("._{ts}.{ext}.{v}_{tk}"), true),
                    2 => ("empty instant", format!(".{id}_.{ext}.{v}_{tk}"), true),
                    3 => ("empty suffix", format!(".{id}_{ts}..{v}_{tk}"), true),
                    4 => ("empty version", format!(".{id}_{ts}.{ext}._{tk}"), true),
                    5 => ("empty token", format!(".{id}_{ts}.{ext}.{v}_"), true),
                    6 => ("no token", format!(".{id}_{ts}.{ext}.{v}"), true),
                    7 => ("no version", format!(".{id}_{ts}.{ext}_{tk}"), true),
                    8 => ("no suffix", format!(".{id}_{ts}_{tk}"), true),
                    9 => ("change log", format!(".{id}_{ts}.{ext}.{v}_{tk}.cdc"), true),
                    10 => ("version not a number", format!(".{id}_{ts}.{ext}.{v}x_{tk}"), true),
                    11 => ("extra dot part", format!(".{id}_{ts}.{ext}.{v}.{v}_{tk}"), true),
                    12 => ("checksum file", format!("..{id}_{ts}.{ext}.{v}_{tk}.crc"), true),
                    13 => ("a base file", format!("{id}_{tk}_{ts}.parquet"), !id.starts_with('.')),
                    _ => ("edited", edit(s, &c.name()), false),
                }
            } else {
                match s.below(14) {
                    0 => ("no id", format!("{tk}_{ts}.{ext}"), true),
                    1 => ("empty id", format!("_{tk}_{ts}.{ext}"), true),
                    2 => ("empty token", format!("{id}__{ts}.{ext}"), true),
                    3 => ("empty instant", format!("{id}_{tk}_.{ext}"), true),
                    4 => ("empty extension", format!("{id}_{tk}_{ts}."), true),
                    5 => ("no extension", format!("{id}_{tk}_{ts}"), !id.contains('.')),
                    6 => ("extra part", format!("{id}_{tk}_{ts}_{tk}.{ext}"), true),
                    7 => ("extra leading part", format!("x_{id}_{tk}_{ts}.{ext}"), true),
                    8 => ("no token", format!("{id}_{ts}.{ext}"), true),
                    9 => ("empty", String::new(), true),
                    10 => ("only extension", format!(".{ext}"), true),
                    11 => ("a log file", format!(".{id}_{ts}.log.{v}_{tk}"), false),
                    12 => ("no delimiters", format!("{}.{ext}", id.replace('_', "")), true),
                    _ => ("edited", edit(s, &c.name()), false),
                }
            };
            c.near.push((what.to_string(), name, bad));
        }
        c
    }
    fn run(&self, c: &NameCase) -> R<Info> {
        let mut info = Info::default();
        let name = c.name();
        // The parts of a name: (id, token, instant, extension, version), and the name printed.
        type Parts = (String, String, String, String, String);
        let parse = |n: &str, size: Option<usize>| -> Result<(Parts, String, Option<FileMetadata>), String> {
            if c.log {
                let l = match size {
                    Some(z) => LogFile::try_from(FileMetadata::new(n, z)),
                    None => LogFile::from_str(n),
                }
                .map_err(|e| e.to_string())?;
                Ok((
                    (l.file_id.clone(), l.write_token.clone(), l.base_commit_timestamp.clone(), l.extension.clone(), l.version.clone()),
                    l.file_name(),
                    l.file_metadata,
                ))
            } else {
                let b = match size {
                    Some(z) => BaseFile::try_from(FileMetadata::new(n, z)),
                    None => BaseFile::from_str(n),
                }
                .map_err(|e| e.to_string())?;
                Ok((
                    (b.file_id.clone(), b.write_token.clone(), b.commit_timestamp.clone(), b.extension.clone(), String::new()),
                    b.file_name(),
                    b.file_metadata,
                ))
            }
        };
        let v = if c.log { c.version.to_string() } else { String::new() };
        let want = (c.id.clone(), c.token.clone(), c.ts.clone(), c.ext.clone(), v);
        for size in [None, Some(c.size)] {
            match parse(&name, size) {
                Err(e) => fail!("rejected", "the well-formed name {name:?} is rejected: {e}"),
                Ok((p, printed, meta)) => {
                    if p != want {
                        fail!("parts", "{name:?} parses into {p:?}, it was made from {want:?}");
                    }
                    if printed != name {
                        fail!("print", "{name:?} prints back as {printed:?}");
                    }
                    match (size, meta) {
                        (None, None) => {}
                        (Some(z), Some(m)) if m.size == z && m.name == name => {}
                        (z, m) => fail!("metadata", "{name:?} made with size {z:?} carries the metadata {m:?}"),
                    }
                }
            }
            info.compared += 3;
        }
        for (what, n, bad) in &c.near {
            info.compared += 1;
            info.label(format!("near: {what}"));
            for size in [None, Some(1)] {
                if let Ok((p, printed, _)) = parse(n, size) {
                    if *bad {
                        fail!("accepted", "the malformed name {n:?} ({what}) parses into {p:?}");
                    }
                    if &printed != n {
                        fail!("print", "{n:?} prints back as {printed:?}");
                    }
                    if p.0.is_empty() || p.1.is_empty() || p.2.is_empty() || p.3.is_empty() || (c.log && p.4.is_empty()) {
                        fail!("accepted", "{n:?} parses into empty parts {p:?}");
                    }
                }
            }
        }
        info.nontrivial = c.near.len() >= 2;
        info.label(if c.log { "log file" } else { "base file" });
        Ok(info)
    }
}

fn edit(s: &mut Source, n: &str) -> String {
    let mut cs: Vec<char> = n.chars().collect();
    for _ in 0..s.usize(1, 3) {
        if cs.is_empty() {
            break;
        }
        let i = s.idx(cs.len());
        match s.below(3) {
            0 => {
                cs.remove(i);
            }
            1 => cs.insert(i, *s.pick(&['_', '.', '-', 'x', '0', 'é', '/'])),
            _ => cs[i] = *s.pick(&['_', '.', '-', 'x', '0', 'é']),
        }
    }
    cs.into_iter().collect()
}

// ---------------------------------------------------------------- C11: grouping

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SliceSpec {
    ts: String,
    token: String,
    /// (version, token)
    logs: Vec<(u32, String)>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct GroupSpec {
    part: usize,
    id: String,
    slices: Vec<SliceSpec>,
}

#[derive(Serialize, Deserialize, Debug)]
pub struct GroupCase {
    parts: Vec<String>,
    groups: Vec<GroupSpec>,
    order: Vec<usize>,
    as_of: Vec<String>,
    split_at: usize,
}

fn group_specs(s: &mut Source, n_parts: usize, secs_only: bool) -> Vec<GroupSpec> {
    let mut groups: Vec<GroupSpec> = vec![];
    let n = s.usize(1, 5);
    // Prefixes of one another, and the same id in several partitions.
    let ids: Vec<String> = {
        let a = file_id(s).replace(['%', '=', '+', ' '], "x");
        vec![a.clone(), format!("{a}0"), format!("{a}-1"), "b-0".into(), "b-1".into()]
    };
    for _ in 0..n {
        let part = s.idx(n_parts);
        let id = s.pick(&ids).clone();
        if groups.iter().any(|g| g.part == part && g.id == id) {
            continue;
        }
        let mut tss = BTreeSet::new();
        for _ in 0..s.usize(1, 4) {
            let mut t = instant_ts(s);
            t.truncate(14);
            if !secs_only {
                t.push_str(&format!("{:03}", s.range(0, 999)));
            }
            tss.insert(t);
        }
        let slices = tss
            .into_iter()
            .map(|ts| {
                let mut logs = vec![];
                for _ in 0..s.weighted(&[3, 2, 2, 1, 1, 1]) {
                    let v = s.range(1, 14) as u32;
                    let t = token(s);
                    if !logs.contains(&(v, t.clone())) {
                        logs.push((v, t));
                    }
                }
                SliceSpec { ts, token: token(s), logs }
            })
            .collect();
        groups.push(GroupSpec { part, id, slices });
    }
    groups
}

fn as_ofs(s: &mut Source, groups: &[GroupSpec]) -> Vec<String> {
    let known: Vec<String> = groups.iter().flat_map(|g| g.slices.iter().map(|x| x.ts.clone())).collect();
    (0..s.usize(1, 5))
        .map(|_| match s.below(4) {
            0 => s.pick(&known).clone(),
            1 => gen::shift(s.pick::<String>(&known), -1),
            2 => gen::shift(s.pick::<String>(&known), 1),
            _ => {
                let mut t = instant_ts(s);
                if known[0].len() == 14 {
                    t.truncate(14);
                } else if t.len() == 14 {
                    t.push_str("500");
                }
                t
            }
        })
        .collect()
}

/// The newest slice not after `t`.
fn slice_as_of<'a>(g: &'a GroupSpec, t: &str) -> Option<&'a SliceSpec> {
    g.slices.iter().filter(|x| x.ts.as_str() <= t).max_by(|a, b| a.ts.cmp(&b.ts))
}

fn ordered_logs(g: &GroupSpec, x: &SliceSpec) -> Vec<String> {
    let mut l = x.logs.clone();
    l.sort();
    l.iter().map(|(v, t)| format!(".{}_{}.log.{v}_{t}", g.id, x.ts)).collect()
}

/// The versions in order; the order among equal versions is left open.
fn check_logs(what: &str, g: &GroupSpec, x: &SliceSpec, got: Vec<String>) -> R<()> {
    let want = ordered_logs(g, x);
    let versions = |v: &[String]| -> Vec<u32> { v.iter().map(|n| log_version(n)).collect() };
    if versions(&got) != versions(&want) {
        fail!("log order", "{what}: the log files come as {got:?}, by version they are {want:?}");
    }
    let (mut a, mut b) = (got.clone(), want.clone());
    a.sort();
    b.sort();
    if a != b {
        fail!("log files", "{what}: the log files are {a:?}, not {b:?}");
    }
    Ok(())
}

pub struct Groups {
    pub n: (usize, usize),
}

impl Part for Groups {
    type Case = GroupCase;
    fn name(&self) -> &'static str {
        "file groups"
    }
    fn rule(&self) -> &'static str {
        "base and log files of generated file groups are added to a FileGroup in a generated order, one by one, in bulk, and by merging two halves: the slices, the log files in numeric version order, and the slice as of generated times must be those of the specification; a second base file of an instant, a log file without base file, and merging other groups must be errors that change nothing; non-trivial: a group with two slices or two log files in a slice"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> GroupCase {
        let parts = vec![String::new(), "a/b".into(), "dt=2024".into()];
        let secs = s.chance(1, 4);
        let groups = group_specs(s, parts.len(), secs);
        let n: usize = groups.iter().map(|g| g.slices.iter().map(|x| 1 + x.logs.len()).sum::<usize>()).sum();
        let order = permutation(s, n);
        let as_of = as_ofs(s, &groups);
        GroupCase { parts, groups, order, as_of, split_at: s.usize(0, 8) }
    }
    fn run(&self, c: &GroupCase) -> R<Info> {
        let mut info = Info::default();
        for g in &c.groups {
            let part = &c.parts[g.part];
            let mut bases = vec![];
            let mut logs = vec![];
            for x in &g.slices {
                bases.push(format!("{}_{}_{}.parquet", g.id, x.token, x.ts));
                logs.extend(ordered_logs(g, x));
            }
            let shuffle = |v: &mut Vec<String>| {
                let mut k: Vec<(usize, String)> =
                    v.drain(..).enumerate().map(|(i, n)| (c.order[i % c.order.len()], n)).collect();
                k.sort();
                v.extend(k.into_iter().map(|x| x.1));
            };
            shuffle(&mut bases);
            shuffle(&mut logs);
            let new = || FileGroup::new(g.id.clone(), part.clone());
            let b = |n: &String| err("parsing a base file name", BaseFile::from_str(n));
            let l = |n: &String| err("parsing a log file name", LogFile::from_str(n));
            // One by one.
            let mut one = new();
            for n in &bases {
                err("adding a base file", one.add_base_file_from_name(n))?;
            }
            for n in &logs {
                err("adding a log file", one.add_log_file_from_name(n))?;
            }
            // In bulk.
            let mut bulk = new();
            let bs: Vec<BaseFile> = bases.iter().map(b).collect::<R<_>>()?;
            let ls: Vec<LogFile> = logs.iter().map(l).collect::<R<_>>()?;
            err("adding base files", bulk.add_base_files(bs.clone()))?;
            err("adding log files", bulk.add_log_files(ls.clone()))?;
            // Two halves merged; both know the bases their logs need.
            let k = c.split_at.min(ls.len());
            let mut left = new();
            let mut right = new();
            let need = |ls: &[LogFile]| -> BTreeSet<String> { ls.iter().map(|l| l.base_commit_timestamp.clone()).collect() };
            let (nl, nr) = (need(&ls[..k]), need(&ls[k..]));
            for (i, x) in bs.iter().enumerate() {
                if nl.contains(&x.commit_timestamp) || (i % 2 == 0) {
                    err("adding a base file", left.add_base_file(x.clone()))?;
                }
                if nr.contains(&x.commit_timestamp) || (i % 2 == 1) {
                    err("adding a base file", right.add_base_file(x.clone()))?;
                }
            }
            err("adding log files", left.add_log_files(ls[..k].to_vec()))?;
            err("adding log files", right.add_log_files(ls[k..].to_vec()))?;
            err("merging file groups", left.merge(&right))?;
            for (how, fg) in [("one by one", &one), ("in bulk", &bulk), ("merged", &left)] {
                self.check(how, c, g, fg, &mut info)?;
            }
            // Errors change nothing.
            let mut e = one.clone();
            let dup = format!("{}_99-99-99_{}.parquet", g.id, g.slices[0].ts);
            if e.add_base_file_from_name(&dup).is_ok() {
                fail!("duplicate", "a second base file {dup:?} of the same instant was accepted");
            }
            let orphan = format!(".{}_19990101000000000.log.1_0-0-0", g.id);
            if e.add_log_file_from_name(&orphan).is_ok() {
                fail!("orphan", "the log file {orphan:?} was accepted without a base file");
            }
            let mut other = FileGroup::new(format!("{}x", g.id), part.clone());
            if other.merge(&one).is_ok() {
                fail!("merge", "file groups of different ids were merged");
            }
            let mut other = FileGroup::new(g.id.clone(), format!("{part}x"));
            if other.merge(&one).is_ok() {
                fail!("merge", "file groups of different partitions were merged");
            }
            self.check("after errors", c, g, &e, &mut info)?;
            info.label_if(g.slices.len() > 1, "several slices");
            info.label_if(g.slices.iter().any(|x| x.logs.iter().any(|l| l.0 > 9)), "version above 9");
            info.nontrivial |= g.slices.len() > 1 || g.slices.iter().any(|x| x.logs.len() > 1);
        }
        Ok(info)
    }
}

impl Groups {
    fn check(&self, how: &str, c: &GroupCase, g: &GroupSpec, fg: &FileGroup, info: &mut Info) -> R<()> {
        let part = &c.parts[g.part];
        let got: Vec<&String> = fg.file_slices.keys().collect();
        let want: Vec<&String> = g.slices.iter().map(|x| &x.ts).collect();
        if got != want {
            fail!("slices", "{how}: the slices of {} are {got:?}, not {want:?}", g.id);
        }
        for x in &g.slices {
            let f = &fg.file_slices[&x.ts];
            let name = format!("{}_{}_{}.parquet", g.id, x.token, x.ts);
            let at = |n: &str| if part.is_empty() { n.to_string() } else { format!("{part}/{n}") };
            if f.base_file.file_name() != name
                || f.file_id() != g.id
                || f.creation_instant_time() != x.ts
                || f.partition_path != *part
                || f.has_log_file() == x.logs.is_empty()
                || err("base file path", f.base_file_relative_path())? != at(&name)
            {
                fail!("slice", "{how}: the slice {} of {} is {f:?}", x.ts, g.id);
            }
            let logs: Vec<String> = f.log_files.iter().map(|l| l.file_name()).collect();
            for l in &f.log_files {
                if err("log file path", f.log_file_relative_path(l))? != at(&l.file_name()) {
                    fail!("slice", "{how}: the path of {l} is {:?}", f.log_file_relative_path(l));
                }
            }
            check_logs(how, g, x, logs)?;
            info.compared += 2;
        }
        let mut times = c.as_of.clone();
        times.extend(g.slices.iter().map(|x| x.ts.clone()));
        for t in &times {
            let got = fg.get_file_slice_as_of(t).map(|f| f.creation_instant_time().to_string());
            let got_mut = fg.clone().get_file_slice_mut_as_of(t).map(|f| f.creation_instant_time().to_string());
            let want = slice_as_of(g, t).map(|x| x.ts.clone());
            if got != want || got_mut != want {
                fail!("as of", "{how}: the slice of {} as of {t} is {got:?} ({got_mut:?} mutable), not {want:?}", g.id);
            }
            info.compared += 1;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C11: listing

pub struct Listed {
    pub n: (usize, usize),
}

fn tiny_parquet() -> Vec<u8> {
    use arrow_array::{Int32Array, RecordBatch};
    let b = RecordBatch::try_from_iter([("a", Arc::new(Int32Array::from(vec![1, 2, 3])) as arrow_array::ArrayRef)]).unwrap();
    parquet_of(&b, 10, false)
}

impl Part for Listed {
    type Case = GroupCase;
    fn name(&self) -> &'static str {
        "listed files"
    }
    fn rule(&self) -> &'static str {
        "the files of generated file groups are written in a generated order into the partitions of a table on storage, among files that are neither base nor log files; the file slices listed as of generated times must be those of the specification, with their log files in numeric version order; non-trivial: two groups, and two slices or two log files somewhere"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> GroupCase {
        let parts = if s.chance(1, 3) { vec![String::new()] } else { vec!["a".into(), "b".into(), "ab".into()] };
        let secs = s.chance(1, 4);
        let groups = group_specs(s, parts.len(), secs);
        let n: usize = groups.iter().map(|g| g.slices.iter().map(|x| 1 + x.logs.len()).sum::<usize>()).sum();
        let order = permutation(s, n);
        let as_of = as_ofs(s, &groups);
        GroupCase { parts, groups, order, as_of, split_at: s.usize(0, 63) }
    }
    fn run(&self, c: &GroupCase) -> R<Info> {
        let mut info = Info::default();
        let d = Scratch::new();
        let pq = tiny_parquet();
        let mut files = vec![];
        for g in &c.groups {
            let p = &c.parts[g.part];
            for x in &g.slices {
                files.push((p, format!("{}_{}_{}.parquet", g.id, x.token, x.ts), true));
                files.extend(ordered_logs(g, x).into_iter().map(|n| (p, n, false)));
            }
        }
        for i in &c.order {
            let (p, n, base) = &files[*i];
            put_file(&d.path().join(p).join(n), if *base { &pq } else { b"" });
        }
        // Other files beside the data files.
        let g0 = &c.groups[0];
        let dir0 = d.path().join(&c.parts[g0.part]);
        let others = [
            ".hoodie_partition_metadata".to_string(),
            ".hoodie_partition_metadata.parquet".to_string(),
            format!(".{}_{}_{}.parquet.crc", g0.id, g0.slices[0].token, g0.slices[0].ts),
            format!(".{}_{}.log.1_0-1-0.cdc", g0.id, g0.slices[0].ts),
            "_SUCCESS".to_string(),
            "readme.txt".to_string(),
        ];
        for (i, n) in others.iter().enumerate() {
            if c.split_at >> i & 1 == 1 {
                put_file(&dir0.join(n), b"x");
                info.label("other files");
            }
        }
        let mut props = String::from("hoodie.table.name=t\nhoodie.table.type=MERGE_ON_READ\nhoodie.table.version=6\nhoodie.timeline.layout.version=1\nhoodie.table.precombine.field=a\n");
        if c.parts.len() > 1 {
            props.push_str("hoodie.table.partition.fields=p\nhoodie.datasource.write.hive_style_partitioning=false\n");
        }
        put_file(&d.path().join(".hoodie/hoodie.properties"), props.as_bytes());
        let all: BTreeSet<&String> = c.groups.iter().flat_map(|g| g.slices.iter().map(|x| &x.ts)).collect();
        for t in &all {
            let schema = r#"{"type":"record","name":"r","fields":[{"name":"a","type":"int"},{"name":"p","type":"string"}]}"#;
            let meta = serde_json::json!({"extraMetadata": {"schema": schema}}).to_string();
            put_file(&d.path().join(format!(".hoodie/{t}.deltacommit")), meta.as_bytes());
        }
        let t = open(&d.uri())?;
        let mut times = c.as_of.clone();
        times.extend(all.iter().map(|t| t.to_string()));
        for at in &times {
            let got = err("listing", block(t.get_file_slices_as_of(at, &[])))?;
            let mut seen = BTreeSet::new();
            for f in &got {
                let Some(g) = c
                    .groups
                    .iter()
                    .find(|g| g.id == f.file_id() && c.parts[g.part] == f.partition_path)
                else {
                    fail!("invented", "as of {at} the slice {f} is listed, which belongs to no file group");
                };
                if !seen.insert((g.part, g.id.clone())) {
                    fail!("twice", "as of {at} the file group {} is listed twice", g.id);
                }
                let Some(x) = slice_as_of(g, at).filter(|x| x.ts == f.creation_instant_time()) else {
                    fail!("wrong slice", "as of {at} the slice {f} is listed, not {:?}", slice_as_of(g, at));
                };
                check_logs(&format!("as of {at}"), g, x, f.log_files.iter().map(|l| l.file_name()).collect())?;
                let m = f.base_file.file_metadata.as_ref();
                if m.map(|m| (m.size, m.num_records)) != Some((pq.len(), 3)) {
                    fail!("metadata", "the metadata of {f} is {m:?}");
                }
            }
            let want: BTreeSet<(usize, String)> = c
                .groups
                .iter()
                .filter(|g| slice_as_of(g, at).is_some())
                .map(|g| (g.part, g.id.clone()))
                .collect();
            if seen != want {
                fail!("slices", "as of {at} the file groups {seen:?} are listed, not {want:?}");
            }
            info.compared += 1 + got.len() as u64;
        }
        info.nontrivial = c.groups.len() > 1
            && c.groups.iter().any(|g| g.slices.len() > 1 || g.slices.iter().any(|x| x.logs.len() > 1));
        Ok(info)
    }
}

// ---------------------------------------------------------------- C12

/// A POSIX time zone with a one-hour daylight saving: (name, standard offset in s, start, end),
/// a start or end being (month, week, weekday from Sunday, local hour).
type Rule = (i64, i64, i64, i64);
pub const ZONES: &[(&str, i64, Rule, Rule)] = &[
    ("EST5EDT,M3.2.0,M11.1.0", -5 * 3600, (3, 2, 0, 2), (11, 1, 0, 2)),
    ("CET-1CEST,M3.5.0,M10.5.0/3", 3600, (3, 5, 0, 2), (10, 5, 0, 3)),
    ("AEST-10AEDT,M10.1.0,M4.1.0/3", 36000, (10, 1, 0, 2), (4, 1, 0, 3)),
];

/// The zone of this process.
pub fn zone() -> &'static (&'static str, i64, Rule, Rule) {
    let tz = std::env::var("TZ").unwrap_or_default();
    ZONES.iter().find(|z| z.0 == tz).expect("HARNESS: TZ")
}

fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}

fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + i64::from(m <= 2), m, doy - (153 * mp + 2) / 5 + 1)
}

/// The wall clock second of the rule in year `y`.
fn rule_at(y: i64, (m, w, wd, h): Rule) -> i64 {
    let first = days_from_civil(y, m, 1);
    let dow = (first + 4).rem_euclid(7);
    let mut day = first + (wd - dow).rem_euclid(7) + (w - 1) * 7;
    let next = if m == 12 { days_from_civil(y + 1, 1, 1) } else { days_from_civil(y, m + 1, 1) };
    while day >= next {
        day -= 7;
    }
    day * 86400 + h * 3600
}

fn offset_at(utc: i64) -> i64 {
    let (_, off, start, end) = *zone();
    let y = civil((utc + off).div_euclid(86400)).0;
    let s = rule_at(y, start) - off;
    let e = rule_at(y, end) - off - 3600;
    let dst = if s < e { utc >= s && utc < e } else { utc >= s || utc < e };
    off + if dst { 3600 } else { 0 }
}

/// Seconds since the epoch of a wall clock time: the earliest when it is repeated, an hour later
/// when it is skipped.
fn local_to_utc(wall: i64) -> i64 {
    let off = zone().1;
    let fits = |u: i64, o: i64| offset_at(u) == o;
    if fits(wall - off - 3600, off + 3600) {
        wall - off - 3600
    } else if fits(wall - off, off) {
        wall - off
    } else {
        // skipped: 02:30 stands for 03:30 of the new offset
        wall - off
    }
}

/// Whether the wall clock time is shown twice. The time library resolves such a time to its second
/// occurrence in zones given by a rule, so that either one is accepted.
fn repeated(wall: i64) -> bool {
    let u = local_to_utc(wall);
    u + 3600 + offset_at(u + 3600) == wall
}

/// Whether a time is within two hours of a change of daylight saving.
pub fn near_change(ts: &str) -> bool {
    let w = wall_of(ts).0;
    local_to_utc(w - 7200) + 14400 != local_to_utc(w + 7200)
}

fn wall_of(ts: &str) -> (i64, i64) {
    let n = |a: usize, b: usize| ts[a..b].parse::<i64>().unwrap();
    let d = days_from_civil(n(0, 4), n(4, 6), n(6, 8));
    let s = d * 86400 + n(8, 10) * 3600 + n(10, 12) * 60 + n(12, 14);
    (s, if ts.len() == 17 { n(14, 17) } else { 0 })
}

pub fn epoch_ms(ts: &str, local: bool) -> i64 {
    let (s, ms) = wall_of(ts);
    (if local { local_to_utc(s) } else { s }) * 1000 + ms
}

fn ts_of(wall: i64, ms: Option<i64>) -> String {
    let (y, m, d) = civil(wall.div_euclid(86400));
    let t = wall.rem_euclid(86400);
    let mut r = format!("{y:04}{m:02}{d:02}{:02}{:02}{:02}", t / 3600, t / 60 % 60, t % 60);
    if let Some(ms) = ms {
        r.push_str(&format!("{ms:03}"));
    }
    r
}

/// A timestamp, often near a change of daylight saving, the end of a year or a leap day.
fn timeline_ts(s: &mut Source) -> String {
    let y = s.range(1971, 2099).max(s.range(2023, 2026));
    let (_, _, a, b) = *zone();
    let wall = match s.weighted(&[4, 3, 3, 1, 1, 1]) {
        0 => days_from_civil(2024, 3, 1) * 86400 + s.range(0, 5 * 86400),
        1 => rule_at(s.range(2023, 2026), a) + s.range(-7200, 2 * 7200),
        2 => rule_at(s.range(2023, 2026), b) + s.range(-2 * 7200, 7200),
        3 => days_from_civil(y, 1, 1) * 86400 + s.range(-2, 2),
        4 => days_from_civil(2024, 2, 29) * 86400 + s.range(-2, 86402),
        _ => days_from_civil(y, s.range(1, 12), s.range(1, 28)) * 86400 + s.range(0, 86399),
    };
    let ms = if s.chance(1, 4) { None } else { Some(s.range(0, 999)) };
    ts_of(wall, ms)
}

#[derive(Serialize, Deserialize, Debug)]
pub struct InstantCase {
    ts: String,
    action: usize,
    state: usize,
    near: Vec<(String, bool)>,
}

const ACTIONS: [(&str, Action); 3] = [
    ("commit", Action::Commit),
    ("deltacommit", Action::DeltaCommit),
    ("replacecommit", Action::ReplaceCommit),
];

fn instant_name(ts: &str, action: &str, state: usize) -> String {
    match (action, state) {
        (_, 0) => format!("{ts}.{action}"),
        ("commit", 1) => format!("{ts}.inflight"),
        (_, 1) => format!("{ts}.{action}.inflight"),
        _ => format!("{ts}.{action}.requested"),
    }
}

pub struct Instants {
    pub n: (usize, usize),
}

impl Part for Instants {
    type Case = InstantCase;
    fn name(&self) -> &'static str {
        "instants"
    }
    fn rule(&self) -> &'static str {
        "an instant's file name is parsed under both timezones, compared with the timestamp, action, state and time it was made from (the local time by an independent calculation of a zone with daylight saving), and printed back with its path; malformed names and timestamps must be rejected; non-trivial: at least one malformed name"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> InstantCase {
        let ts = timeline_ts(s);
        let action = s.idx(3);
        let state = s.idx(3);
        let name = instant_name(&ts, ACTIONS[action].0, state);
        let tail = name[ts.len()..].to_string();
        let mut near = vec![];
        for _ in 0..s.usize(0, 4) {
            near.push(match s.below(16) {
                0 => (ts.clone(), true),
                1 => (format!("{ts}."), true),
                2 => (tail.clone(), true),
                3 => (format!("{}{tail}", &ts[..13]), true),
                4 => (format!("{}0{tail}", &ts), true),
                5 => (format!("{ts}{ts}{tail}"), true),
                6 => (format!("{}1340{}{tail}", &ts[..4], &ts[8..]), true),
                7 => (format!("{}99{}{tail}", &ts[..8], &ts[10..]), true),
                8 => (format!("{}+12{tail}", &ts[..14]), true),
                9 => (format!(" {}{tail}", &ts[1..]), true),
                10 => (format!("{ts}.{}", s.pick(&["clean", "rollback", "savepoint", "indexing", "compaction", "restore", "logcompaction", "COMMIT", "commits", "schemacommit"])), true),
                11 => (format!("{ts}.{}.{}", ACTIONS[action].0, s.pick(&["completed", "Requested", "", "crc", "inflight.x", "json"])), true),
                12 => (format!("{}é{tail}", &ts[..12]), true),
                13 => (format!(".{name}.crc"), true),
                14 => (format!("{}0231{}{tail}", &ts[..4], &ts[8..]), true),
                _ => (edit(s, &name), false),
            });
        }
        InstantCase { ts, action, state, near }
    }
    fn run(&self, c: &InstantCase) -> R<Info> {
        let mut info = Info::default();
        let (a, action) = &ACTIONS[c.action];
        let state = [State::Completed, State::Inflight, State::Requested][c.state].clone();
        let name = instant_name(&c.ts, a, c.state);
        for (tz, local) in [("UTC", false), ("utc", false), ("LOCAL", true), ("local", true)] {
            let i = err(
                &format!("parsing {name:?} in {tz}"),
                Instant::try_from_file_name_and_timezone(&name, tz),
            )?;
            if i.timestamp != c.ts || &i.action != action || i.state != state {
                fail!("parts", "{name:?} parses into {i:?}");
            }
            let want = epoch_ms(&c.ts, local);
            let is = |ms: i64| ms == want || (local && repeated(wall_of(&c.ts).0) && ms == want + 3600_000);
            if !is(i.epoch_millis) {
                fail!("time", "{name:?} is at {} ms in {tz} with TZ={}, not {want}", i.epoch_millis, zone().0);
            }
            if i.file_name() != name || err("path", i.relative_path())? != format!(".hoodie/{name}") {
                fail!("print", "{name:?} prints back as {:?} at {:?}", i.file_name(), i.relative_path());
            }
            if i.is_replacecommit() != (c.action == 2) {
                fail!("parts", "{name:?} says is_replacecommit {}", i.is_replacecommit());
            }
            let t = err("the time", Instant::parse_datetime(&c.ts, tz))?;
            if !is(t.timestamp_millis()) {
                fail!("time", "{:?} is at {} ms in {tz}, not {want}", c.ts, t.timestamp_millis());
            }
            info.compared += 5;
        }
        let utc = err("parsing", Instant::from_str(&name))?;
        if utc.epoch_millis != epoch_ms(&c.ts, false) {
            fail!("time", "{name:?} without timezone is not in UTC");
        }
        for (n, bad) in &c.near {
            info.compared += 1;
            if let Ok(i) = Instant::from_str(n) {
                if *bad {
                    fail!("accepted", "the malformed {n:?} parses into {i:?}");
                }
                if &i.file_name() != n {
                    fail!("print", "{n:?} prints back as {:?}", i.file_name());
                }
                if i.epoch_millis != epoch_ms(&i.timestamp, false) {
                    fail!("time", "{n:?} is at {} ms", i.epoch_millis);
                }
            }
        }
        info.label(format!("{a} {state:?}"));
        let (wall, _) = wall_of(&c.ts);
        let u = local_to_utc(wall);
        info.label_if(u + offset_at(u) != wall, "skipped local time");
        info.label_if(repeated(wall), "repeated local time");
        info.nontrivial = !c.near.is_empty();
        Ok(info)
    }
}

#[derive(Serialize, Deserialize, Debug)]
pub struct TimelineCase {
    local: Option<bool>,
    mor: bool,
    /// (timestamp, action, state, operation type)
    instants: Vec<(String, String, usize, String)>,
    others: Vec<String>,
}

pub struct Timelines {
    pub n: (usize, usize),
}

const OTHER_ACTIONS: &[&str] =
    &["clean", "rollback", "savepoint", "restore", "indexing", "compaction", "logcompaction", "schemacommit"];
const OP_TYPES: &[&str] =
    &["CLUSTER", "cluster", "INSERT_OVERWRITE", "INSERT_OVERWRITE_TABLE", "DELETE_PARTITION", "UPSERT", "ALTER_SCHEMA", "clustered"];

impl Part for Timelines {
    type Case = TimelineCase;
    fn name(&self) -> &'static str {
        "timelines"
    }
    fn rule(&self) -> &'static str {
        "a metadata directory with the files of generated actions in every state, among files and directories that are no instants, in UTC or local time (a zone with daylight saving): the loaded timeline, each getter in both directions, the latest commit timestamp and the metadata of each instant are compared with the specification; non-trivial: two completed write actions and a file of another kind"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> TimelineCase {
        let local = *s.pick(&[None, Some(false), Some(true)]);
        let mut instants: Vec<(String, String, usize, String)> = vec![];
        let mut used = BTreeSet::new();
        for _ in 0..s.usize(0, 12) {
            let mut ts = if s.chance(1, 4) && instants.last().is_some_and(|i| i.0.len() == 17) {
                let t = instants.last().unwrap().0.clone();
                gen::shift(&t, s.range(1, 3))
            } else {
                timeline_ts(s)
            };
            if s.chance(1, 12) {
                ts = "19700101000000000".into();
            }
            if repeated(wall_of(&ts).0) {
                continue;
            }
            let both = (epoch_ms(&ts, false), epoch_ms(&ts, true));
            if used.contains(&(0, both.0)) || used.contains(&(1, both.1)) {
                continue;
            }
            used.insert((0, both.0));
            used.insert((1, both.1));
            let act = match s.weighted(&[4, 3, 3, 3]) {
                3 => s.pick(OTHER_ACTIONS).to_string(),
                i => ACTIONS[i].0.to_string(),
            };
            instants.push((ts, act, s.weighted(&[4, 1, 1]), s.pick(OP_TYPES).to_string()));
        }
        let ts = timeline_ts(s);
        let pool = [
            "hoodie.properties.backup".to_string(),
            format!("archived/{ts}.commit"),
            format!(".aux/{ts}.compaction.requested"),
            format!("metadata/.hoodie/{ts}.deltacommit"),
            format!(".temp/{ts}/x.marker"),
            format!(".{ts}.commit.crc"),
            format!("{ts}.commit.crc"),
            format!("{ts}0.commit"),
            format!("{}.commit", &ts[..12]),
            format!("{ts}.commit.tmp"),
            format!("{ts}.commit."),
            format!("{ts}"),
            format!("{}+12.commit", &ts[..14]),
            format!("{}13320000.deltacommit", &ts[..4]),
            "00000000000000.commit".to_string(),
            "x.commit".to_string(),
            format!("{}é.replacecommit", &ts[..13]),
            format!("{ts}.commit.requested.bak"),
            format!("{ts}_x.commit"),
        ];
        let others = (0..s.usize(0, 5)).map(|_| s.pick(&pool).clone()).collect();
        TimelineCase { local, mor: s.chance(1, 2), instants, others }
    }
    fn run(&self, c: &TimelineCase) -> R<Info> {
        let mut info = Info::default();
        let d = Scratch::new();
        let h = d.path().join(".hoodie");
        let mut props = format!(
            "hoodie.table.name=t\nhoodie.table.type={}\nhoodie.table.version=6\nhoodie.timeline.layout.version=1\nhoodie.table.precombine.field=a\n",
            if c.mor { "MERGE_ON_READ" } else { "COPY_ON_WRITE" }
        );
        if let Some(l) = c.local {
            props.push_str(&format!("hoodie.table.timeline.timezone={}\n", if l { "LOCAL" } else { "UTC" }));
        }
        put_file(&h.join("hoodie.properties"), props.as_bytes());
        let meta = |ts: &str, op: &str| format!("{{\"operationType\":\"{op}\",\"ts\":\"{ts}\",\"é\":1}}");
        for n in &c.others {
            put_file(&h.join(n), b"{}");
        }
        for (ts, act, st, op) in &c.instants {
            // Completed actions leave the files of their earlier states behind.
            for state in 0..3 {
                if state < *st || (*st == 0 && state > 0 && ts.ends_with('1')) {
                    continue;
                }
                let (a, state_name) = match (act.as_str(), state) {
                    ("compaction" | "logcompaction", 0) => continue,
                    (a, x) => (a, x),
                };
                let body = if state == 0 { meta(ts, op) } else { String::new() };
                put_file(&h.join(instant_name(ts, a, state_name)), body.as_bytes());
            }
        }
        let local = c.local == Some(true);
        let mut want: Vec<&(String, String, usize, String)> = c
            .instants
            .iter()
            .filter(|i| i.2 == 0 && ACTIONS.iter().any(|a| a.0 == i.1))
            .collect();
        want.sort_by_key(|i| epoch_ms(&i.0, local));
        let t = open(&d.uri())?;
        if t.timezone() != if local { "local" } else { "utc" } {
            fail!("timezone", "the timezone is {:?}", t.timezone());
        }
        let tl = t.get_timeline();
        let show = |v: &[Instant]| -> Vec<String> { v.iter().map(|i| i.file_name()).collect() };
        let names = |f: &dyn Fn(&(String, String, usize, String)) -> bool| -> Vec<String> {
            want.iter().filter(|i| f(i)).map(|i| format!("{}.{}", i.0, i.1)).collect()
        };
        let same = |what: &str, got: Vec<String>, want: Vec<String>| -> R<()> {
            if got != want {
                fail!(what, "{what}: {got:?}, not {want:?}");
            }
            Ok(())
        };
        same("completed commits", show(&tl.completed_commits), names(&|_| true))?;
        for i in &tl.completed_commits {
            if i.epoch_millis != epoch_ms(&i.timestamp, local) || i.state != State::Completed {
                fail!("time", "{i:?} should be at {} ms", epoch_ms(&i.timestamp, local));
            }
            let w = want.iter().find(|w| w.0 == i.timestamp).unwrap();
            let got = err("the metadata of an instant", block(tl.get_instant_metadata_in_json(i)))?;
            if got != meta(&w.0, &w.3) {
                fail!("metadata", "the metadata of {i:?} is {got:?}");
            }
            info.compared += 2;
        }
        let latest = tl.get_latest_commit_timestamp().ok();
        if latest.as_ref() != want.last().map(|i| &i.0) {
            fail!("latest", "the latest commit timestamp is {latest:?}, not {:?}", want.last());
        }
        for desc in [false, true] {
            let rev = |mut v: Vec<String>| {
                if desc {
                    v.reverse();
                }
                v
            };
            let g = err("getter", block(tl.get_completed_commits(desc)))?;
            same("commits", show(&g), rev(names(&|i| i.1 == "commit")))?;
            let g = err("getter", block(tl.get_completed_deltacommits(desc)))?;
            same("deltacommits", show(&g), rev(names(&|i| i.1 == "deltacommit")))?;
            let g = err("getter", block(tl.get_completed_replacecommits(desc)))?;
            same("replacecommits", show(&g), rev(names(&|i| i.1 == "replacecommit")))?;
            let g = err("getter", block(tl.get_completed_clustering_commits(desc)))?;
            same(
                "clustering commits",
                show(&g),
                rev(names(&|i| i.1 == "replacecommit" && i.3.to_lowercase() == "cluster")),
            )?;
            info.compared += 4;
        }
        info.label_if(local, "local time");
        info.label_if(want.is_empty(), "empty timeline");
        info.label_if(
            local && want.windows(2).any(|w| w[0].0[..14] > w[1].0[..14]),
            "order of local times differs from that of texts",
        );
        info.nontrivial = want.len() >= 2 && (!c.others.is_empty() || c.instants.len() > want.len());
        Ok(info)
    }
}

// ---------------------------------------------------------------- C13

#[derive(Serialize, Deserialize, Debug)]
pub struct ResolveCase {
    /// Lines of hoodie.properties after the required ones, with their (key, value) if any.
    props: Vec<(String, Option<(String, String)>)>,
    global: Option<Vec<(String, Option<(String, String)>)>>,
    env: Vec<(String, String)>,
    /// (how, key, value): 0 with_hudi_option, 1 with_hudi_options, 2 with_storage_option,
    /// 3 with_storage_options, 4 with_option, 5 with_options
    user: Vec<(u8, String, String)>,
    /// Give the generic options through Table::new_with_options only.
    plain: bool,
    eol: String,
}

pub struct Resolution {
    pub n: (usize, usize),
}

const HUDI_KEYS: &[&str] = &[
    "hoodie.read.input.partitions",
    "hoodie.read.listing.parallelism",
    "hoodie.read.use.read_optimized.mode",
    "hoodie.read.file_group.start_timestamp",
    "hoodie.database.name",
    "hoodie.table.name",
    "hoodie.table.recordkey.fields",
    "hoodie.x",
    "hoodie.x.y",
    "hoodie.X",
];
const OTHER_KEYS: &[&str] = &["x", "timeout", "aws_region", "AWS_REGION", "google_key", "hoodie", "Hoodie.x", "allow_http"];

fn key_value(s: &mut Source, k: &str) -> String {
    match k {
        "hoodie.read.input.partitions" | "hoodie.read.listing.parallelism" => s.range(0, 40).to_string(),
        "hoodie.read.use.read_optimized.mode" => s.pick(&["true", "false"]).to_string(),
        _ => s.string_of(&["a", "1", "=", " b", "#", ":", "é", "\\", "%20", ",", "\"", "\tz", "表", "😀", "u00e9"], 0, 5).trim().to_string(),
    }
}

/// A value as in a properties file: as Java writes it, or with no more than the escape itself escaped.
fn property(s: &mut Source, v: &str) -> String {
    let java = s.chance(2, 3);
    let mut o = String::new();
    for c in v.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\t' if java => o.push_str("\\t"),
            '=' | ':' | '#' | '!' if java => o.extend(['\\', c]),
            c if java && !(' '..='~').contains(&c) => {
                for u in c.encode_utf16(&mut [0; 2]) {
                    o.push_str(&format!("\\u{u:04X}"));
                }
            }
            c => o.push(c),
        }
    }
    o
}

fn line(s: &mut Source, keys: &[&str], seps: &[&str], in_global: bool) -> (String, Option<(String, String)>) {
    match s.weighted(&[10, 1, 1, 1]) {
        1 => return ((*s.pick(&["", "  ", "\t"])).to_string(), None),
        2 => {
            let k = s.pick(keys);
            return (format!("{}#{k}=commented", s.pick(&["", "  "])), None);
        }
        3 => {
            let k = s.pick(keys);
            return (k.to_string(), Some((k.to_string(), String::new())));
        }
        _ => {}
    }
    let k = *s.pick(keys);
    let sep = s.pick(seps);
    let mut v = key_value(s, k);
    if in_global && sep.trim().is_empty() && v.starts_with('=') {
        v = v.trim_start_matches(['=', ' ', '\t']).to_string();
    }
    let written = if in_global { v.clone() } else { property(s, &v) };
    let l = format!("{}{k}{sep}{written}{}", s.pick(&["", " ", "\t"]), s.pick(&["", " ", "\t "]));
    (l, Some((k.to_string(), v)))
}

impl Part for Resolution {
    type Case = ResolveCase;
    fn name(&self) -> &'static str {
        "resolution"
    }
    fn rule(&self) -> &'static str {
        "options given through each way of the builder, table properties, a global configuration and environment variables, overlapping in keys, with comments, blank and duplicate lines and separators in values; the options of the opened table must be, per key, those of the documented precedence (table properties, explicit, generic, environment, global), nothing lost or added; non-trivial: a key given by two sources"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn threads(&self) -> usize {
        1 // environment variables are set per case
    }
    fn generate(&self, s: &mut Source) -> ResolveCase {
        let mut hk = HUDI_KEYS.to_vec();
        hk.push("custom.key");
        let mut props: Vec<_> =
            (0..s.usize(0, 6)).map(|_| line(s, &hk, &["=", " = ", " =", "= "], false)).collect();
        if s.chance(5, 6) {
            let at = s.usize(0, props.len());
            let kv = ("hoodie.table.name".to_string(), "t1".to_string());
            props.insert(at, ("hoodie.table.name=t1".to_string(), Some(kv)));
        }
        let global = if s.chance(2, 3) {
            Some((0..s.usize(0, 6)).map(|_| line(s, &hk, &[" ", "=", "\t", " = ", "  ", "= ", " ="], true)).collect())
        } else {
            None
        };
        let mut env = vec![];
        for _ in 0..s.usize(0, 2) {
            let k = *s.pick(&["AWS_REGION", "GOOGLE_KEY", "AZURE_X", "AWSX", "aws_y"]);
            env.push((k.to_string(), s.string_of(&["e", "v", "1"], 1, 3)));
        }
        let plain = s.chance(1, 4);
        let user = (0..s.usize(0, 8))
            .map(|_| {
                let how = if plain { 5 } else { s.below(6) as u8 };
                let k = match how {
                    0 | 1 => *s.pick(HUDI_KEYS),
                    2 | 3 => *s.pick(OTHER_KEYS),
                    _ if s.chance(1, 2) => *s.pick(OTHER_KEYS),
                    _ => *s.pick(HUDI_KEYS),
                };
                (how, k.to_string(), key_value(s, k))
            })
            .collect();
        ResolveCase { props, global, env, user, plain, eol: s.pick(&["\n", "\r\n"]).to_string() }
    }
    fn run(&self, c: &ResolveCase) -> R<Info> {
        let mut info = Info::default();
        let d = Scratch::new();
        let base = d.path().join("t");
        let conf = d.path().join("conf é");
        std::fs::create_dir_all(&conf).expect("HARNESS: mkdir");
        let required = [
            ("hoodie.table.type", "COPY_ON_WRITE"),
            ("hoodie.table.version", "6"),
            ("hoodie.timeline.layout.version", "1"),
            ("hoodie.table.precombine.field", "a"),
        ];
        let mut text = String::new();
        for (k, v) in required {
            text.push_str(&format!("{k}={v}{}", c.eol));
        }
        let mut from_props: BTreeMap<String, String> =
            required.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        for (l, kv) in &c.props {
            text.push_str(&format!("{l}{}", c.eol));
            if let Some((k, v)) = kv {
                from_props.insert(k.clone(), v.clone());
            }
        }
        put_file(&base.join(".hoodie/hoodie.properties"), text.as_bytes());
        let mut from_global = BTreeMap::new();
        if let Some(g) = &c.global {
            let mut text = String::new();
            for (l, kv) in g {
                text.push_str(&format!("{l}{}", c.eol));
                if let Some((k, v)) = kv {
                    from_global.insert(k.clone(), v.clone());
                }
            }
            put_file(&conf.join("hudi-defaults.conf"), text.as_bytes());
        }
        let uri = url::Url::from_file_path(&base).unwrap().to_string();
        let (mut exp_hudi, mut gen_hudi) = (BTreeMap::new(), BTreeMap::new());
        let (mut exp_other, mut gen_other) = (BTreeMap::new(), BTreeMap::new());
        for (how, k, v) in &c.user {
            let m = match how {
                0 | 1 => &mut exp_hudi,
                2 | 3 => &mut exp_other,
                _ if k.starts_with("hoodie.") => &mut gen_hudi,
                _ => &mut gen_other,
            };
            m.insert(k.clone(), v.clone());
        }
        for (k, v) in &c.env {
            std::env::set_var(k, v);
        }
        std::env::set_var("HUDI_CONF_DIR", &conf);
        let table = if c.plain {
            let o: Vec<(String, String)> = c.user.iter().map(|u| (u.1.clone(), u.2.clone())).collect();
            block(Table::new_with_options(&uri, o))
        } else {
            let mut b = TableBuilder::from_base_uri(&uri);
            for (how, k, v) in &c.user {
                b = match how {
                    0 => b.with_hudi_option(k, v),
                    1 => b.with_hudi_options([(k, v)]),
                    2 => b.with_storage_option(k, v),
                    3 => b.with_storage_options([(k, v)]),
                    4 => b.with_option(k, v),
                    _ => b.with_options([(k, v)]),
                };
            }
            block(b.build())
        };
        std::env::remove_var("HUDI_CONF_DIR");
        for (k, _) in &c.env {
            std::env::remove_var(k);
        }
        // The documented precedence.
        let mut hudi: BTreeMap<String, String> =
            from_global.iter().filter(|(k, _)| k.starts_with("hoodie.")).map(|(k, v)| (k.clone(), v.clone())).collect();
        hudi.extend(gen_hudi.clone());
        hudi.extend(exp_hudi.clone());
        hudi.extend(from_props.clone());
        hudi.insert("hoodie.base.path".into(), uri.clone());
        // Options that do not parse as their type make opening fail; "hoodie.table.name" is required.
        let bad = |k: &str, f: &dyn Fn(&str) -> bool| hudi.get(k).is_some_and(|v| !f(v));
        let invalid = bad("hoodie.read.input.partitions", &|v| v.parse::<usize>().is_ok())
            || bad("hoodie.read.listing.parallelism", &|v| v.parse::<usize>().is_ok())
            || bad("hoodie.read.use.read_optimized.mode", &|v| v == "true" || v == "false")
            || !hudi.contains_key("hoodie.table.name");
        info.compared += 1;
        let t = match table {
            Ok(t) => t,
            Err(_) if invalid => {
                info.label("rejected");
                return Ok(info);
            }
            Err(e) => fail!("rejected", "opening failed: {e}"),
        };
        if invalid {
            fail!("accepted", "opening accepted {hudi:?}");
        }
        let got: BTreeMap<String, String> = t.hudi_options().into_iter().collect();
        let differ = |a: &BTreeMap<String, String>, b: &BTreeMap<String, String>| -> Vec<String> {
            let keys: BTreeSet<&String> = a.keys().chain(b.keys()).collect();
            keys.into_iter()
                .filter(|k| a.get(*k) != b.get(*k))
                .map(|k| format!("{k}: {:?} should be {:?}", a.get(k), b.get(k)))
                .collect()
        };
        let df = differ(&got, &hudi);
        if !df.is_empty() {
            fail!("hudi options", "{df:?}");
        }
        let mut other = gen_other.clone();
        other.extend(exp_other.clone());
        for (k, v) in &c.env {
            let cloud = ["AWS_", "AZURE_", "GOOGLE_"].iter().any(|p| k.starts_with(p));
            if cloud && !gen_other.keys().chain(exp_other.keys()).any(|o| o.eq_ignore_ascii_case(k)) {
                other.insert(k.to_lowercase(), v.clone()); // the last one set in the environment
            }
        }
        let got: BTreeMap<String, String> = t.storage_options().into_iter().collect();
        let df = differ(&got, &other);
        if !df.is_empty() {
            fail!("storage options", "{df:?}");
        }
        info.compared += (hudi.len() + other.len()) as u64;
        let sources = [&from_props, &exp_hudi, &gen_hudi, &from_global];
        let mut overlap = false;
        for (i, a) in sources.iter().enumerate() {
            for (j, b) in sources.iter().enumerate().skip(i + 1) {
                if a.keys().any(|k| b.contains_key(k) && a[k] != b[k]) {
                    overlap = true;
                    info.label(format!("overlap {i}-{j}"));
                }
            }
        }
        info.label_if(gen_other.keys().any(|k| exp_other.contains_key(k)), "storage overlap");
        info.label_if(!c.env.is_empty(), "environment");
        info.nontrivial = overlap;
        Ok(info)
    }
}

#[derive(Serialize, Deserialize, Debug)]
pub struct TypedCase {
    opts: Vec<(String, String)>,
    skip: bool,
}

pub struct Typed {
    pub n: (usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
enum Tv {
    B(bool),
    I(i64),
    U(u64),
    S(String),
    L(Vec<String>),
}

/// The reference for every option: key, kind, default.
fn reference(k: &str) -> (char, Option<Tv>) {
    let s = |x: &str| Some(Tv::S(x.to_string()));
    match k {
        "hoodie.table.base.file.format" => ('f', s("parquet")),
        "hoodie.base.path" => ('s', None),
        "hoodie.table.checksum" => ('i', None),
        "hoodie.database.name" => ('s', s("default")),
        "hoodie.datasource.write.drop.partition.columns" => ('b', Some(Tv::B(false))),
        "hoodie.datasource.write.hive_style_partitioning" => ('b', None),
        "hoodie.datasource.write.partitionpath.urlencode" => ('b', None),
        "hoodie.table.keygenerator.class" => ('s', None),
        "hoodie.table.partition.fields" => ('p', Some(Tv::L(vec![]))),
        "hoodie.table.precombine.field" => ('s', None),
        "hoodie.populate.meta.fields" => ('b', Some(Tv::B(true))),
        "hoodie.table.recordkey.fields" => ('l', None),
        "hoodie.table.record.merge.strategy" => ('m', None),
        "hoodie.table.name" => ('s', None),
        "hoodie.table.type" => ('t', None),
        "hoodie.table.version" => ('i', None),
        "hoodie.timeline.layout.version" => ('i', None),
        "hoodie.table.timeline.timezone" => ('z', s("utc")),
        "hoodie.read.file_group.start_timestamp" => ('s', None),
        "hoodie.read.file_group.end_timestamp" => ('s', None),
        "hoodie.read.input.partitions" => ('u', Some(Tv::U(0))),
        "hoodie.read.listing.parallelism" => ('u', Some(Tv::U(10))),
        "hoodie.read.use.read_optimized.mode" => ('b', Some(Tv::B(false))),
        "hoodie.internal.skip.config.validation" => ('b', Some(Tv::B(false))),
        _ => panic!("HARNESS: unknown option {k}"),
    }
}

fn digits(v: &str, signed: bool) -> Option<i64> {
    let (neg, d) = match v.strip_prefix('-') {
        Some(d) if signed => (true, d),
        _ => (false, v.strip_prefix('+').unwrap_or(v)),
    };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) || d.len() > 18 {
        return None;
    }
    let n: i64 = d.parse().ok()?;
    Some(if neg { -n } else { n })
}

fn parse_typed(kind: char, v: &str) -> Option<Tv> {
    let lower = v.to_ascii_lowercase();
    let s = |x: &str| Some(Tv::S(x.to_string()));
    match kind {
        's' => s(v),
        'b' => match v {
            "true" => Some(Tv::B(true)),
            "false" => Some(Tv::B(false)),
            _ => None,
        },
        'i' => digits(v, true).map(Tv::I),
        'u' => digits(v, false).map(|x| Tv::U(x as u64)),
        'l' => Some(Tv::L(v.split(',').map(str::to_string).collect())),
        'p' => Some(Tv::L(v.split(',').filter(|x| !x.is_empty()).map(str::to_string).collect())),
        'f' => (lower == "parquet").then(|| Tv::S("parquet".into())),
        'm' => match lower.as_str() {
            "append_only" => s("append_only"),
            "overwrite_with_latest" => s("overwrite_with_latest"),
            _ => None,
        },
        't' => match lower.as_str() {
            "copy_on_write" | "copy-on-write" | "cow" => s("COPY_ON_WRITE"),
            "merge_on_read" | "merge-on-read" | "mor" => s("MERGE_ON_READ"),
            _ => None,
        },
        'z' => match lower.as_str() {
            "utc" => s("utc"),
            "local" => s("local"),
            _ => None,
        },
        _ => unreachable!(),
    }
}

fn typed(v: HudiConfigValue) -> Tv {
    match v {
        HudiConfigValue::Boolean(b) => Tv::B(b),
        HudiConfigValue::Integer(i) => Tv::I(i as i64),
        HudiConfigValue::UInteger(u) => Tv::U(u as u64),
        HudiConfigValue::String(s) => Tv::S(s),
        HudiConfigValue::List(l) => Tv::L(l),
    }
}

fn typed_value(s: &mut Source, k: &str) -> String {
    let good: &[&str] = match reference(k).0 {
        'b' => &["true", "false"],
        'i' if k.ends_with("layout.version") => &["1", "1", "1", "0", "2", "-1"],
        'i' if k == "hoodie.table.version" => &["6", "6", "5", "5", "4", "7", "8", "-6", "+6"],
        'i' => &["1", "2969816715", "-5", "0"],
        'u' => &["0", "1", "10", "4096"],
        'f' => &["PARQUET", "parquet", "Parquet"],
        'm' => &["OVERWRITE_WITH_LATEST", "append_only", "overwrite_with_latest", "APPEND_ONLY"],
        't' => &["COPY_ON_WRITE", "merge_on_read", "cow", "MOR", "copy-on-write", "Merge-On-Read"],
        'z' => &["UTC", "local", "LOCAL", "utc"],
        'p' | 'l' => &["a", "a,b", "", "a,,b", "é,b,c"],
        _ => &["a", "", "x y", "é"],
    };
    if s.chance(1, 6) {
        s.pick(&["", "foo", "1.5", "12x", "yes", "-1", "_100", "orc", "hfile", "true ", "0x10", "UTCX", "merge", "nul"]).to_string()
    } else {
        s.pick(good).to_string()
    }
}

const CORE_KEYS: &[&str] = &[
    "hoodie.base.path",
    "hoodie.table.precombine.field",
    "hoodie.table.name",
    "hoodie.table.type",
    "hoodie.table.version",
    "hoodie.timeline.layout.version",
    "hoodie.internal.skip.config.validation",
];

fn known(k: &str) -> bool {
    TYPED_KEYS.iter().chain(CORE_KEYS).any(|x| *x == k)
}

const TYPED_KEYS: &[&str] = &[
    "hoodie.table.base.file.format",
    "hoodie.table.checksum",
    "hoodie.database.name",
    "hoodie.datasource.write.drop.partition.columns",
    "hoodie.datasource.write.hive_style_partitioning",
    "hoodie.datasource.write.partitionpath.urlencode",
    "hoodie.table.keygenerator.class",
    "hoodie.table.partition.fields",
    "hoodie.populate.meta.fields",
    "hoodie.table.recordkey.fields",
    "hoodie.table.record.merge.strategy",
    "hoodie.table.timeline.timezone",
    "hoodie.read.file_group.start_timestamp",
    "hoodie.read.file_group.end_timestamp",
    "hoodie.read.input.partitions",
    "hoodie.read.listing.parallelism",
    "hoodie.read.use.read_optimized.mode",
];

/// What opening must answer: None when the configuration is fine, else why it must be rejected.
fn rejected(o: &BTreeMap<String, String>) -> Option<String> {
    let get = |k: &str| o.get(k).map(|v| parse_typed(reference(k).0, v));
    for k in TYPED_KEYS.iter().chain(&["hoodie.table.type", "hoodie.table.version", "hoodie.timeline.layout.version"]) {
        if get(k) == Some(None) {
            return Some(format!("{k} does not parse"));
        }
    }
    for k in ["hoodie.table.name", "hoodie.table.type", "hoodie.table.version", "hoodie.timeline.layout.version"] {
        if !o.contains_key(k) {
            return Some(format!("{k} is missing"));
        }
    }
    if !matches!(get("hoodie.table.version"), Some(Some(Tv::I(5 | 6)))) {
        return Some("the table version is not supported".into());
    }
    if get("hoodie.timeline.layout.version") != Some(Some(Tv::I(1))) {
        return Some("the timeline layout is not supported".into());
    }
    if get("hoodie.datasource.write.drop.partition.columns") == Some(Some(Tv::B(true))) {
        return Some("dropping partition columns is not supported".into());
    }
    let meta = get("hoodie.populate.meta.fields") != Some(Some(Tv::B(false)));
    let merge = get("hoodie.table.record.merge.strategy").flatten();
    let pre = o.contains_key("hoodie.table.precombine.field");
    if merge == Some(Tv::S("overwrite_with_latest".into())) && (!meta || !pre) {
        return Some("the merge strategy needs meta fields and a precombine field".into());
    }
    None
}

impl Part for Typed {
    type Case = TypedCase;
    fn name(&self) -> &'static str {
        "typed options"
    }
    fn rule(&self) -> &'static str {
        "generated texts for every option: the parsed, defaulted and validated values are compared with a reference parser, and opening a table with these properties must succeed or be rejected as the reference says, always succeed when validation is skipped, and answer with the values; non-trivial: at least four options, or a rejection"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> TypedCase {
        let mut o: Vec<(String, String)> = vec![];
        for k in ["hoodie.table.name", "hoodie.table.type", "hoodie.table.version", "hoodie.timeline.layout.version"] {
            if !s.chance(1, 20) {
                let v = match k {
                    _ if s.chance(1, 8) => typed_value(s, k),
                    "hoodie.table.version" => "6".into(),
                    "hoodie.timeline.layout.version" => "1".into(),
                    "hoodie.table.type" => "cow".into(),
                    _ => "t é".into(),
                };
                o.push((k.into(), v));
            }
        }
        if s.chance(1, 2) {
            o.push(("hoodie.table.precombine.field".into(), "ts".into()));
        }
        let n = s.usize(0, 6);
        for _ in 0..n {
            let k = *s.pick(TYPED_KEYS);
            if !o.iter().any(|x| x.0 == k) {
                let v = typed_value(s, k);
                o.push((k.into(), v));
            }
        }
        TypedCase { opts: o, skip: s.chance(1, 4) }
    }
    fn run(&self, c: &TypedCase) -> R<Info> {
        use strum::IntoEnumIterator;
        let mut info = Info::default();
        let map: BTreeMap<String, String> = c.opts.iter().cloned().collect();
        let cfg = HudiConfigs::new(c.opts.iter().map(|(k, v)| (k.as_str(), v.clone())));
        if cfg.as_options().into_iter().collect::<BTreeMap<_, _>>() != map {
            fail!("options", "the options come back as {:?}", cfg.as_options());
        }
        fn one<P: ConfigParser<Output = HudiConfigValue> + Clone>(
            p: P,
            cfg: &HudiConfigs,
            map: &BTreeMap<String, String>,
            info: &mut Info,
        ) -> R<()> {
            let k = p.as_ref().to_string();
            if !known(&k) {
                return Ok(());
            }
            let (kind, default) = reference(&k);
            let text = map.get(&k);
            let parsed = text.and_then(|v| parse_typed(kind, v));
            let got = cfg.get(p.clone()).ok().map(typed);
            if got != parsed {
                fail!("parse", "{k}={text:?} parses into {got:?}, not {parsed:?}");
            }
            if cfg.contains(&k) != text.is_some() {
                fail!("contains", "{k}: contains says {}", cfg.contains(&k));
            }
            let got = cfg.try_get(p.clone()).map(typed);
            let want = parsed.clone().or(default.clone());
            if got != want {
                fail!("default", "{k}={text:?} is by default {got:?}, not {want:?}");
            }
            if want.is_some() {
                let got = Some(typed(cfg.get_or_default(p.clone())));
                if got != want {
                    fail!("default", "{k}={text:?} is by default {got:?}, not {want:?}");
                }
            }
            let required = ["hoodie.table.name", "hoodie.table.type", "hoodie.table.version"].contains(&k.as_str());
            let valid = match text {
                Some(_) => parsed.is_some(),
                None => !required,
            };
            if cfg.validate(p).is_ok() != valid {
                fail!("validate", "{k}={text:?} is {}", if valid { "rejected" } else { "accepted" });
            }
            info.compared += 4;
            Ok(())
        }
        // Options under other names than these say nothing, but each of these must be there.
        let keys = HudiTableConfig::iter().map(|o| o.as_ref().to_string());
        let keys = keys.chain(HudiReadConfig::iter().map(|o| o.as_ref().to_string()));
        let keys: Vec<String> = keys.chain(HudiInternalConfig::iter().map(|o| o.as_ref().to_string())).collect();
        for k in TYPED_KEYS.iter().chain(CORE_KEYS) {
            if !keys.iter().any(|x| x == k) {
                fail!("name", "no option is named {k}");
            }
        }
        for p in HudiTableConfig::iter() {
            one(p, &cfg, &map, &mut info)?;
        }
        for p in HudiReadConfig::iter() {
            one(p, &cfg, &map, &mut info)?;
        }
        for p in HudiInternalConfig::iter() {
            one(p, &cfg, &map, &mut info)?;
        }
        // The merge strategy by default.
        let merge = map.get("hoodie.table.record.merge.strategy").and_then(|v| parse_typed('m', v));
        let meta = map.get("hoodie.populate.meta.fields").and_then(|v| parse_typed('b', v)) != Some(Tv::B(false));
        let want = merge.unwrap_or(Tv::S(
            if meta && map.contains_key("hoodie.table.precombine.field") {
                "overwrite_with_latest"
            } else {
                "append_only"
            }
            .into(),
        ));
        let got = typed(cfg.get_or_default(HudiTableConfig::RecordMergeStrategy));
        let norm = |t: &Tv| match t {
            Tv::S(s) => s.to_lowercase(),
            t => format!("{t:?}"),
        };
        if norm(&got) != norm(&want) {
            fail!("merge strategy", "{map:?} gives the merge strategy {got:?}, not {want:?}");
        }
        // Opening a table with these properties.
        let d = Scratch::new();
        let text: String = c.opts.iter().map(|(k, v)| format!("{k}={}\n", v.replace('\\', "\\\\"))).collect();
        put_file(&d.path().join(".hoodie/hoodie.properties"), text.as_bytes());
        // Values of a file are trimmed.
        let map: BTreeMap<String, String> = map.into_iter().map(|(k, v)| (k, v.trim().to_string())).collect();
        let skip: Vec<(&str, &str)> =
            if c.skip { vec![("hoodie.internal.skip.config.validation", "true")] } else { vec![] };
        let r = block(Table::new_with_options(&d.uri(), skip.iter().copied()));
        let why = rejected(&map);
        info.compared += 1;
        match (r, &why) {
            (Err(e), None) => fail!("rejected", "a table with {map:?} is rejected: {e}"),
            (Err(e), Some(_)) if c.skip => {
                fail!("rejected", "a table with {map:?} is rejected though validation is skipped: {e}")
            }
            (Ok(_), Some(w)) if !c.skip => fail!("accepted", "a table with {map:?} is accepted though {w}"),
            (Ok(t), None) => {
                if t.table_name() != map["hoodie.table.name"]
                    || Some(Tv::S(t.table_type())) != parse_typed('t', &map["hoodie.table.type"])
                    || t.is_mor() != (t.table_type() == "MERGE_ON_READ")
                    || Some(Tv::S(t.timezone()))
                        != map.get("hoodie.table.timeline.timezone").map_or(Some(Tv::S("utc".into())), |v| parse_typed('z', v))
                {
                    fail!("values", "{map:?} gives {:?} {:?} {:?}", t.table_name(), t.table_type(), t.timezone());
                }
            }
            _ => {}
        }
        info.label_if(why.is_some(), "invalid");
        if let Some(w) = &why {
            info.label(format!("invalid: {w}"));
        }
        info.label_if(c.skip, "validation skipped");
        info.nontrivial = c.opts.len() >= 7 || why.is_some();
        Ok(info)
    }
}

// ---------------------------------------------------------------- C20

#[derive(Serialize, Deserialize, Debug)]
pub struct TreeCase {
    base: Vec<String>,
    /// Directories as lists of segments.
    dirs: Vec<Vec<String>>,
    /// (directory index or none for the base, name, size, rows of a parquet file)
    files: Vec<(Option<usize>, String, usize, Option<usize>)>,
}

pub struct Trees {
    pub n: (usize, usize),
}

const CHARS: &[&str] = &[
    "a", "b", "Z", "0", " ", "%", "%20", "%2F", "=", "+", "&", "é", "日", "#", "?", "~", "'", "\"", "(", ")", ";", ":", ",",
    "@", "!", "$", "*", "[", "]", "{", "}", "\\", ".", "-", "_", "|", "<", ">", "^", "`", "😀",
];

pub fn odd_name(s: &mut Source) -> String {
    let n = s.string_of(CHARS, 1, 6);
    // "." and ".." are no names, and names ending in '#' and digits are hidden by the object store.
    let hidden = n.rsplit_once('#').is_some_and(|_| {
        n.split_once('#').is_some_and(|(_, x)| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()))
    });
    // The url library takes a trailing letter and colon for a Windows drive.
    let drive = n.ends_with([':', '|']);
    if n == "." || n == ".." || hidden || drive {
        format!("{n}x")
    } else {
        n
    }
}

impl Part for Trees {
    type Case = TreeCase;
    fn name(&self) -> &'static str {
        "storage trees"
    }
    fn rule(&self) -> &'static str {
        "a tree of directories and files whose names, and those of its base path, hold any printable characters: listings of files and directories at every level, leaf directories, contents, sizes, row counts and schemas are compared with what was written; non-trivial: a name with a character other than letters and digits, and two levels"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> TreeCase {
        let name = |s: &mut Source| {
            if s.chance(1, 4) {
                s.pick(&["a", "b", "ab", ".hoodie", "a=1"]).to_string()
            } else {
                odd_name(s)
            }
        };
        let base = (0..s.usize(0, 2)).map(|_| name(s)).collect();
        let mut dirs: Vec<Vec<String>> = vec![];
        for _ in 0..s.usize(0, 6) {
            let mut d = if dirs.is_empty() || s.chance(1, 2) { vec![] } else { s.pick(&dirs).clone() };
            if d.len() > 3 {
                continue;
            }
            d.push(name(s));
            if !dirs.contains(&d) {
                dirs.push(d);
            }
        }
        let mut files: Vec<(Option<usize>, String, usize, Option<usize>)> = vec![];
        for _ in 0..s.usize(0, 8) {
            let at = if dirs.is_empty() || s.chance(1, 4) { None } else { Some(s.idx(dirs.len())) };
            let n = name(s);
            let path: Vec<String> =
                at.map(|i| dirs[i].clone()).unwrap_or_default().into_iter().chain([n.clone()]).collect();
            if dirs.contains(&path) || files.iter().any(|f| f.0 == at && f.1 == n) {
                continue;
            }
            let rows = if s.chance(1, 3) { Some(s.usize(0, 40)) } else { None };
            files.push((at, n, s.usize(0, 300), rows));
        }
        TreeCase { base, dirs, files }
    }
    fn run(&self, c: &TreeCase) -> R<Info> {
        use arrow_array::{ArrayRef, Int64Array, RecordBatch, StringArray};
        let mut info = Info::default();
        let d = Scratch::new();
        let mut base = d.path().to_path_buf();
        for b in &c.base {
            base.push(b);
        }
        std::fs::create_dir_all(&base).expect("HARNESS: mkdir");
        let rel = |p: &[String]| p.join("/");
        for p in &c.dirs {
            std::fs::create_dir_all(base.join(rel(p))).expect("HARNESS: mkdir");
        }
        let mut contents = vec![];
        for (i, (at, n, size, rows)) in c.files.iter().enumerate() {
            let dir = at.map(|i| c.dirs[i].clone()).unwrap_or_default();
            let (body, batch) = match rows {
                None => ((0..*size).map(|k| (k * 31 + i * 7) as u8).collect(), None),
                Some(r) => {
                    let ids: ArrayRef = Arc::new(Int64Array::from_iter((0..*r).map(|k| (k % 5 != 1).then_some((k * i) as i64))));
                    let names: ArrayRef = Arc::new(StringArray::from_iter((0..*r).map(|k| (k % 3 != 2).then(|| format!("n{k}-{i}")))));
                    let b = RecordBatch::try_from_iter_with_nullable([("id", ids, true), ("é b", names, true)]).unwrap();
                    (parquet_of(&b, 7, size % 2 == 0), Some(b))
                }
            };
            put_file(&base.join(rel(&dir)).join(n), &body);
            contents.push((rel(&[dir, vec![n.clone()]].concat()), body, batch));
        }
        let uri = url::Url::from_file_path(&base).unwrap().to_string();
        let cfg = HudiConfigs::new([("hoodie.base.path", uri.clone())]);
        let st = err("opening the storage", Storage::new(Arc::new(HashMap::new()), Arc::new(cfg)))?;
        // Listings at every level.
        let mut levels: Vec<(Option<usize>, Vec<String>)> = vec![(None, vec![])];
        levels.extend(c.dirs.iter().enumerate().map(|(i, d)| (Some(i), d.clone())));
        let mut leaf_all = BTreeSet::new();
        let is_leaf = |p: &[String]| !c.dirs.iter().any(|o| o.len() == p.len() + 1 && o.starts_with(p));
        for (at, p) in &levels {
            let sub = rel(p);
            // Equivalent spellings of a level.
            let slashed = format!("{sub}/");
            let subs: Vec<Option<&str>> =
                if p.is_empty() { vec![None, Some("")] } else { vec![Some(&sub), Some(&slashed)] };
            for sd in subs {
                let got = err(&format!("listing the files of {sd:?}"), block(st.list_files(sd)))?;
                let mut got: Vec<(String, usize)> = got.into_iter().map(|f| (f.name, f.size)).collect();
                got.sort();
                let mut want: Vec<(String, usize)> = c
                    .files
                    .iter()
                    .zip(&contents)
                    .filter(|(f, _)| f.0 == *at)
                    .map(|(f, x)| (f.1.clone(), x.1.len()))
                    .collect();
                want.sort();
                if got != want {
                    fail!("files", "the files of {sd:?} are {got:?}, not {want:?}");
                }
                let mut got = err(&format!("listing the directories of {sd:?}"), block(st.list_dirs(sd)))?;
                got.sort();
                let mut want: Vec<String> = c
                    .dirs
                    .iter()
                    .filter(|o| o.len() == p.len() + 1 && o.starts_with(p))
                    .map(|o| o[p.len()].clone())
                    .collect();
                want.sort();
                if got != want {
                    fail!("directories", "the directories of {sd:?} are {got:?}, not {want:?}");
                }
                info.compared += 2;
            }
            if is_leaf(p) {
                leaf_all.insert(sub.clone());
            }
            let got = err("leaf directories", block(get_leaf_dirs(&st, if p.is_empty() { None } else { Some(&sub) })))?;
            let n = got.len();
            let got: BTreeSet<String> = got.into_iter().collect();
            let want: BTreeSet<String> = levels
                .iter()
                .filter(|(_, o)| o.starts_with(p) && is_leaf(o))
                .map(|(_, o)| rel(o))
                .collect();
            if got != want || n != want.len() {
                fail!("leaf directories", "the leaf directories of {sub:?} are {got:?}, not {want:?}");
            }
            info.compared += 1;
        }
        for ((_, n, _, _), (path, body, batch)) in c.files.iter().zip(&contents) {
            let got = err(&format!("reading {path:?}"), block(st.get_file_data(path)))?;
            if got.as_ref() != body.as_slice() {
                fail!("contents", "{path:?} reads back as {} other bytes", got.len());
            }
            let abs = base.join(path);
            let got = err(&format!("reading {abs:?}"), block(st.get_file_data_from_absolute_path(abs.to_str().unwrap())))?;
            if got.as_ref() != body.as_slice() {
                fail!("contents", "{abs:?} reads back as {} other bytes", got.len());
            }
            if let Some(b) = batch {
                let m = err("file metadata", block(st.get_file_metadata(path)))?;
                if &m.name != n || m.size != body.len() || m.num_records != b.num_rows() as i64 || !m.fully_populated {
                    fail!("metadata", "the metadata of {path:?} ({} bytes, {} rows) is {m:?}", body.len(), b.num_rows());
                }
                let got = err("parquet data", block(st.get_parquet_file_data(path)))?;
                if rows_of_ordered(&got) != rows_of_ordered(b) {
                    fail!("rows", "{path:?} reads back other rows");
                }
                let sch = err("parquet schema", block(st.get_parquet_file_schema(path)))?;
                same_schema("the schema", &sch, b.schema().as_ref())?;
                let pm = err("parquet metadata", block(st.get_parquet_file_metadata(path)))?;
                let bytes: i64 = pm.row_groups().iter().map(|r| r.total_byte_size()).sum();
                if pm.file_metadata().num_rows() != b.num_rows() as i64 || m.byte_size != bytes {
                    fail!("metadata", "the parquet metadata of {path:?} tells {} rows, {bytes} bytes; {m:?}", pm.file_metadata().num_rows());
                }
                info.compared += 4;
            } else if block(st.get_file_metadata(path)).is_ok() {
                fail!("metadata", "{path:?} has metadata though it is no parquet file");
            }
            info.compared += 2;
            // A path that does not exist.
            if block(st.get_file_data(&format!("{path}~x"))).is_ok() && !contents.iter().any(|x| x.0 == format!("{path}~x")) {
                fail!("contents", "{path:?}~x reads though there is no such file");
            }
        }
        let odd = |n: &String| n.chars().any(|x| !x.is_ascii_alphanumeric());
        info.label_if(c.base.iter().any(odd), "odd base path");
        info.label_if(c.dirs.iter().flatten().any(odd), "odd directory");
        info.label_if(c.files.iter().any(|f| odd(&f.1)), "odd file");
        info.label_if(c.dirs.iter().any(|d| d.len() > 1), "nested");
        info.label_if(contents.iter().any(|x| x.2.is_some()), "parquet");
        info.nontrivial = !c.files.is_empty()
            && (c.dirs.iter().flatten().any(odd) || c.files.iter().any(|f| odd(&f.1)))
            && !c.dirs.is_empty();
        Ok(info)
    }
}

fn rows_of_ordered(b: &arrow_array::RecordBatch) -> Vec<String> {
    fmt_rows(b)
}

#[derive(Serialize, Deserialize)]
pub struct BesideCase {
    plan: Plan,
    base: Vec<String>,
    /// (directory choice, name)
    beside: Vec<(usize, String)>,
    dirs: Vec<String>,
}

pub struct Beside {
    pub n: (usize, usize),
}

impl Part for Beside {
    type Case = BesideCase;
    fn name(&self) -> &'static str {
        "tables among other files"
    }
    fn rule(&self) -> &'static str {
        "a generated table under a base path of any characters, opened through equivalent spellings of its location, before and after other files and metadata directories are put beside its data; rows and file slices must be those of the model each time; non-trivial: other files or a base path that is not plain, and a committed row"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> BesideCase {
        let o = Opts { max_ops: 5, big: false, ..Opts::all() };
        let plan = gen::plan(s, &o);
        let base = (0..s.usize(0, 2)).map(|_| odd_name(s)).collect();
        let names = [
            ".hoodie_partition_metadata",
            ".hoodie_partition_metadata.parquet",
            ".hoodie_partition_metadata.orc",
            "..hoodie_partition_metadata.crc",
            "a.parquet.crc",
            ".x.parquet.crc",
            "_SUCCESS",
            "_committed_123",
            "readme.md",
            "x.txt",
            "part-0000.avro",
            ".DS_Store",
            ".a_20240101000000000.log.1_0-1-2.cdc",
            ".x.log.1",
            "20240101000000000.commit",
            "LICENSE #1x",
            "é %41.csv",
        ];
        let beside = (0..s.usize(0, 6)).map(|_| (s.idx(8), s.pick(&names).to_string())).collect();
        let dirs = (0..s.usize(0, 2))
            .map(|_| s.pick(&["_delta_log", "metadata", ".hoodie/.aux/x", ".hoodie/metadata/files", ".hoodie/archived"]).to_string())
            .collect();
        BesideCase { plan, base, beside, dirs }
    }
    fn run(&self, c: &BesideCase) -> R<Info> {
        let mut info = Info::default();
        let plan = &c.plan;
        let d = Scratch::new();
        let mut base = d.path().to_path_buf();
        for b in &c.base {
            base.push(b);
        }
        let m = materialize(plan, &base);
        let latest = m.latest_completed().map(|i| i.ts.clone());
        let want: Vec<Seen> = latest.as_ref().map(|t| m.snapshot(&plan.cfg, t)).unwrap_or_default();
        let rows = all_rows(&want);
        let url = url::Url::from_file_path(&base).unwrap().to_string();
        let plain = base.to_str().unwrap().to_string();
        let dotted = format!("{}/./", base.parent().unwrap().to_str().unwrap()) + base.file_name().unwrap().to_str().unwrap();
        let mut spellings = vec![url.clone(), format!("{url}/"), plain.clone(), format!("{plain}/"), dotted];
        if plain.bytes().all(|b| b.is_ascii_alphanumeric() || b"/-_".contains(&b)) {
            spellings.push(format!("file:{plain}"));
            spellings.push(format!("file://{plain}/./"));
        }
        for round in 0..2 {
            for (k, uri) in spellings.iter().enumerate() {
                let t = open(uri)?;
                info.compared += 1;
                let got = err("listing", block(t.get_file_slices(&[])))?;
                crate::props_table::same_slices(&format!("round {round}, {uri:?}"), plan, &got, &want)?;
                if k < 3 {
                    let got = err("reading", block(t.read_snapshot(&[])))?;
                    same_batches(&format!("round {round}, {uri:?}"), &plan.cfg, &got, &rows)?;
                }
                // The base URL names the same place.
                if t.base_url().to_file_path().ok().map(|p| p.components().collect::<std::path::PathBuf>()) != Some(base.clone()) {
                    fail!("base url", "{uri:?} gives the base URL {}", t.base_url());
                }
            }
            if round == 0 {
                for (at, n) in &c.beside {
                    // In a partition, or in the base directory.
                    let dir = if *at == 0 || plan.partitions.is_empty() {
                        base.clone()
                    } else {
                        base.join(plan.part_path(at % plan.partitions.len()))
                    };
                    if dir.is_dir() {
                        put_file(&dir.join(n), b"x");
                        info.label("other files");
                    }
                }
                for x in &c.dirs {
                    let p = base.join(x);
                    // A directory of that name may be a partition.
                    if !p.exists() && plan.cfg.partitioned() || x.starts_with(".hoodie") {
                        put_file(&p.join("00000.json"), b"{}");
                        put_file(&p.join("v/x_0-0-0_20240101000000000.parquet"), b"");
                        info.label("other directories");
                    }
                }
                if c.beside.is_empty() && c.dirs.is_empty() {
                    break;
                }
            }
        }
        info.nontrivial = !rows.is_empty() && (!c.beside.is_empty() || !c.dirs.is_empty() || !c.base.is_empty());
        Ok(info)
    }
}
