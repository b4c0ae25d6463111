//! C10: damaged and hostile input. Every part runs in a worker process (see `worker.rs`).

use crate::fail;
use crate::gen::{self, Opts};
use crate::pbt::Source;
use crate::props_read::plan_labels;
use crate::q::*;
use crate::runner::*;
use crate::sim::*;
use arrow_array::RecordBatch;
use hudi_core::config::internal::HudiInternalConfig;
use hudi_core::config::read::HudiReadConfig;
use hudi_core::config::table::HudiTableConfig;
use hudi_core::config::util::{parse_data_for_options, split_hudi_options_from_others};
use hudi_core::config::HudiConfigs;
use hudi_core::expr::filter::Filter;
use hudi_core::file_group::base_file::BaseFile;
use hudi_core::file_group::builder::{build_file_groups, build_replaced_file_groups};
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::file_group::log_file::reader::LogFileReader;
use hudi_core::file_group::log_file::LogFile;
use hudi_core::file_group::reader::FileGroupReader;
use hudi_core::storage::util::{join_url_segments, parse_uri};
use hudi_core::storage::Storage;
use hudi_core::table::Table;
use hudi_core::timeline::instant::Instant;
use hudi_core::verif::InstantRange;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::str::FromStr;
use std::sync::Arc;
use strum::IntoEnumIterator;

fn tiers(n: (usize, usize), t: Tier) -> usize {
    match t {
        Tier::Quick => n.0,
        Tier::Thorough => n.1,
    }
}

/// How many calls gave data and how many an error.
#[derive(Default)]
struct Tally {
    ok: u64,
    err: u64,
    /// Known findings met.
    known: Vec<String>,
    fail: Option<Fail>,
}

impl Tally {
    fn of<T, E: std::fmt::Display>(&mut self, f: impl FnOnce() -> Result<T, E>) -> Option<T> {
        // The message of an error is part of what callers see.
        match guarded(|| Ok(f().map_err(|e| e.to_string()))) {
            Ok(Ok(v)) => {
                self.ok += 1;
                Some(v)
            }
            Ok(Err(_)) => {
                self.err += 1;
                None
            }
            Err(e) => {
                if known_class("C10", &e.sig) {
                    self.known.push(e.sig);
                } else {
                    self.fail.get_or_insert(e);
                }
                None
            }
        }
    }
    /// Ends the case: the first crash, if any.
    fn done(self, info: &mut Info) -> R<()> {
        info.compared += self.ok + self.err;
        info.excluded.extend(self.known);
        match self.fail {
            Some(f) => Err(f),
            None => Ok(()),
        }
    }
}

const FAR: &str = "20990101000000000";

/// Everything the public API can do with a table.
fn exercise(uri: &str, opts: &[(String, String)], at: &str, filters: &[(String, String, String)], t: &mut Tally) -> bool {
    let Some(table) = t.of(|| block(Table::new_with_options(uri, opts.to_vec()))) else {
        return false;
    };
    let fs: Vec<(&str, &str, &str)> = filters.iter().map(|(a, b, c)| (a.as_str(), b.as_str(), c.as_str())).collect();
    table.hudi_options();
    table.storage_options();
    table.base_url();
    let _ = (table.table_name(), table.table_type(), table.is_mor(), table.timezone());
    t.of(|| block(table.get_avro_schema()));
    t.of(|| block(table.get_schema()));
    t.of(|| block(table.get_partition_schema()));
    let tl = table.get_timeline();
    t.of(|| tl.get_latest_commit_timestamp());
    t.of(|| block(tl.get_latest_avro_schema()));
    t.of(|| block(tl.get_latest_schema()));
    for desc in [false, true] {
        t.of(|| block(tl.get_completed_commits(desc)));
        t.of(|| block(tl.get_completed_deltacommits(desc)));
        t.of(|| block(tl.get_completed_clustering_commits(desc)));
        if let Some(l) = t.of(|| block(tl.get_completed_replacecommits(desc))) {
            for i in l {
                t.of(|| block(tl.get_instant_metadata_in_json(&i)));
            }
        }
    }
    let slices = t.of(|| block(table.get_file_slices(&[])));
    t.of(|| block(table.get_file_slices(&fs)));
    t.of(|| block(table.get_file_slices_splits(3, &fs)));
    t.of(|| block(table.get_file_slices_as_of(at, &[])));
    t.of(|| block(table.get_file_slices_between(None, None)));
    t.of(|| block(table.get_file_slices_between(Some(at), None)));
    t.of(|| block(table.read_snapshot(&[])));
    t.of(|| block(table.read_snapshot(&fs)));
    t.of(|| block(table.read_snapshot_as_of(at, &[])));
    t.of(|| block(table.read_incremental_records("20000101000000000", None)));
    t.of(|| block(table.read_incremental_records("20000101000000000", Some(at))));
    let none: Vec<(String, String)> = vec![];
    if let (Some(sl), Some(r)) = (slices, t.of(|| table.create_file_group_reader_with_options(none))) {
        for s in &sl {
            t.of(|| block(r.read_file_slice(s)));
            if let Some(p) = t.of(|| s.base_file_relative_path()) {
                t.of(|| block(r.read_file_slice_by_base_file_path(&p)));
            }
        }
    }
    true
}

/// Every file read on its own, whatever its name.
fn exercise_files(d: &Path, t: &mut Tally) {
    let confs = Arc::new(HudiConfigs::new([(
        HudiTableConfig::BasePath.as_ref().to_string(),
        url::Url::from_directory_path(d).unwrap().to_string(),
    )]));
    let Some(st) = t.of(|| Storage::new(Arc::new(HashMap::<String, String>::new()), confs.clone())) else { return };
    for f in files(d) {
        let rel = f.strip_prefix(d).unwrap().to_string_lossy().to_string();
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        t.of(|| LogFile::from_str(&name));
        t.of(|| BaseFile::from_str(&name));
        t.of(|| Instant::from_str(&name));
        if name.contains(".log.") {
            if let Some(mut r) = t.of(|| block(LogFileReader::new(confs.clone(), st.clone(), &rel))) {
                t.of(|| r.read_all_blocks(&InstantRange::up_to(FAR, "utc")));
            }
        } else if name.ends_with(".parquet") {
            t.of(|| block(st.get_parquet_file_schema(&rel)));
            t.of(|| block(st.get_parquet_file_data(&rel)));
            t.of(|| block(st.get_file_metadata(&rel)));
        } else if let Ok(b) = std::fs::read(&f) {
            t.of(|| parse_data_for_options(&bytes::Bytes::from(b.clone()), "="));
            if let Ok(Value::Object(m)) = serde_json::from_slice(&b) {
                t.of(|| build_file_groups(&m));
                t.of(|| build_replaced_file_groups(&m));
            }
        }
    }
}

fn files(d: &Path) -> Vec<PathBuf> {
    let mut out = vec![];
    let mut todo = vec![d.to_path_buf()];
    while let Some(x) = todo.pop() {
        for e in std::fs::read_dir(&x).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else {
                out.push(p);
            }
        }
    }
    out.sort();
    out
}

// ---------------------------------------------------------------- where the fields of a log file are

#[derive(Clone, Debug)]
pub struct BlockPos {
    pub start: usize,
    pub version_at: usize,
    pub content_len_at: usize,
    pub content: usize,
    pub content_end: usize,
    pub end: usize,
    pub ty: u32,
    /// Offset and width of every integer field.
    pub ints: Vec<(usize, usize)>,
}

fn be32(b: &[u8], i: usize) -> usize {
    u32::from_be_bytes(b[i..i + 4].try_into().unwrap()) as usize
}

/// The blocks of a log file that this harness wrote.
pub fn walk(b: &[u8]) -> Vec<BlockPos> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let start = i;
        let mut ints = vec![(i + 6, 8), (i + 14, 4), (i + 18, 4)];
        let ty = be32(b, i + 18) as u32;
        i += 22;
        let meta = |i: &mut usize, ints: &mut Vec<(usize, usize)>| {
            let n = be32(b, *i);
            ints.push((*i, 4));
            *i += 4;
            for _ in 0..n {
                ints.push((*i, 4));
                ints.push((*i + 4, 4));
                *i += 8 + be32(b, *i + 4);
            }
        };
        meta(&mut i, &mut ints);
        let content_len_at = i;
        ints.push((i, 8));
        let n = u64::from_be_bytes(b[i..i + 8].try_into().unwrap()) as usize;
        let content = i + 8;
        i = content + n;
        if ty == 3 {
            ints.push((content, 4));
            ints.push((content + 4, 4));
            let mut j = content + 8;
            while j + 4 <= i {
                ints.push((j, 4));
                j += 4 + be32(b, j);
            }
        }
        let content_end = i;
        meta(&mut i, &mut ints);
        ints.push((i, 8));
        i += 8;
        out.push(BlockPos { start, version_at: start + 14, content_len_at, content, content_end, end: i, ty, ints });
    }
    out
}

// ---------------------------------------------------------------- (a) damaged tables

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum At {
    Head(u64),
    Tail(u64),
    Any(u64),
    /// An integer field of a log file.
    Field(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    Truncate(At),
    Flip(At, u8),
    Put(At, Vec<u8>),
    Int(At, u64),
    Insert(At, Vec<u8>),
    Delete(At, usize),
    Dup(At, usize),
    Replace(Vec<u8>),
    Copy(u64),
    Rename(String),
    Remove,
    Dir,
    /// A further file beside this one.
    Beside(String, Vec<u8>),
    /// Node n of a JSON document becomes that value (text), or is removed.
    Json(u64, Option<String>),
    /// A string of a JSON document becomes another one.
    JsonStr(u64, String),
    /// A property is set.
    Prop(String, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DamagedCase {
    pub plan: Plan,
    /// File class (0 any, 1 properties, 2 timeline, 3 log, 4 base), index in it, and what to do.
    pub muts: Vec<(u8, u64, Mut)>,
    pub at: String,
    pub filters: Vec<(String, String, String)>,
}

pub struct Damaged {
    pub n: (usize, usize),
}

const INTS: [u64; 16] = [
    0,
    1,
    2,
    3,
    4,
    7,
    8,
    255,
    1024,
    65536,
    0x0fff_ffff,
    0x7fff_ffff,
    0x8000_0000,
    0xffff_ffff,
    0x7fff_ffff_ffff_ffff,
    0xffff_ffff_ffff_ffff,
];

fn at(s: &mut Source) -> At {
    match s.weighted(&[3, 3, 4, 6]) {
        0 => At::Head(s.below(64)),
        1 => At::Tail(s.below(64)),
        2 => At::Any(s.below(1 << 32)),
        _ => At::Field(s.below(64)),
    }
}

fn some_bytes(s: &mut Source, max: usize) -> Vec<u8> {
    let n = s.usize(0, max);
    match s.weighted(&[4, 1, 1, 1]) {
        0 => (0..n).map(|_| s.below(256) as u8).collect(),
        1 => vec![0; n],
        2 => vec![0xff; n],
        _ => "#HUDI#{\"a\":[]}\u{e9}PAR1".bytes().cycle().take(n).collect(),
    }
}

pub fn hostile_name(s: &mut Source) -> String {
    let bits = [
        "", ".", "..", "_", "-", "a", "0", "20240101000000000", "20240101000000", ".log.", ".log", "log.1_0-1-1", ".parquet",
        "fid-0", "fid", "_0-1-1_", "_0-1-1", ".commit", ".deltacommit", ".inflight", ".requested", ".replacecommit",
        ".clean", "é", "日本", " ", "%", "%2F", ".cdc", "é2024", "x:", "\\", "99999999999999999", "1", "-1",
        "18446744073709551616", ".hfile", ".orc", ".crc",
    ];
    let mut v = s.string_of(&bits, 1, 6);
    v.retain(|c| c != '/' && c != '\0');
    while v.len() > 200 {
        v.pop();
    }
    if v.is_empty() || v == "." || v == ".." {
        v = "x".into();
    }
    v
}

pub fn hostile_text(s: &mut Source) -> String {
    match s.weighted(&[4, 3, 2, 1, 1]) {
        0 => s
            .pick(&[
                "", " ", "true", "null", "-1", "0", "1", "99999999999999999999", "1e400", "NaN", "é", "日本", "\u{1F600}", "%",
                "=", ",", "a,b", "/", "..", "../../x", "file:///", "s3://", "MERGE_ON_READ", "COPY_ON_WRITE", "parquet", "orc",
                "key", "ts", "p0", "c0", "_hoodie_commit_time", "utc", "local", "append_only", "\t", "\\", "\"", "{}", "[]", "6.5", "7", "5",
                "-5", "4294967296",
            ])
            .to_string(),
        1 => hostile_time(s),
        2 => s.string_of(&["a", "0", "é", " ", ".", "/", "%", "=", ",", ":", "\u{1F600}", "\n", "\"", "-", "_"], 0, 12),
        3 => "a".repeat(s.usize(0, 5000)),
        _ => s.string_of(&["9"], 0, 40),
    }
}

pub fn hostile_time(s: &mut Source) -> String {
    let base = s
        .pick(&["20240229235959999", "20240101000000", "20231301000000", "20240230000000", "00000000000000", "99999999999999999", "20240310023000123", "2024-01-01T00:00:00Z"])
        .to_string();
    let mut c: Vec<char> = base.chars().collect();
    for _ in 0..s.usize(0, 3) {
        let i = s.idx(c.len() + 1);
        match s.below(3) {
            0 if i < c.len() => c[i] = *s.pick(&['9', '0', 'x', 'é', '日', ' ', '-', '+', '.', '\u{1F600}', '٣']),
            1 if i < c.len() => {
                c.remove(i);
            }
            _ => c.insert(i, *s.pick(&['9', '0', 'x', 'é', '日', ' ', '-', '.', '\u{1F600}', '٣'])),
        }
    }
    c.into_iter().collect()
}

fn json_text(s: &mut Source) -> String {
    match s.weighted(&[6, 2, 1, 1]) {
        0 => s
            .pick(&[
                "null", "true", "0", "-1", "1.5", "1e300", "18446744073709551615", "\"\"", "\"é\"", "[]", "{}", "[null]", "[[]]", "[1]",
                "{\"\":null}", "\"a\"", "[\"\"]", "{\"a\":[\"b\"]}", "[{}]",
            ])
            .to_string(),
        1 => serde_json::to_string(&hostile_name(s)).unwrap(),
        2 => {
            let n = s.usize(1, 120);
            format!("{}{}", "[".repeat(n), "]".repeat(n))
        }
        _ => serde_json::to_string(&schema_text(s)).unwrap(),
    }
}

pub fn hudi_keys() -> Vec<String> {
    let mut v: Vec<String> = HudiTableConfig::iter().map(|k| k.as_ref().to_string()).collect();
    v.extend(HudiReadConfig::iter().map(|k| k.as_ref().to_string()));
    v.extend(HudiInternalConfig::iter().map(|k| k.as_ref().to_string()));
    v
}

/// Where the code stores the location, which must stay inside the scratch directory, and what
/// would open it to others.
fn steers(key: &str) -> bool {
    key == HudiTableConfig::BasePath.as_ref()
}

fn mutation(s: &mut Source, class: u8) -> Mut {
    let w: [u32; 16] = match class {
        1 => [1, 2, 1, 0, 1, 1, 1, 1, 0, 0, 1, 1, 1, 0, 0, 12],
        2 => [2, 2, 1, 0, 1, 1, 1, 1, 1, 4, 1, 1, 3, 10, 6, 0],
        3 => [4, 4, 3, 12, 2, 2, 2, 1, 2, 3, 1, 1, 2, 0, 0, 0],
        4 => [3, 6, 3, 3, 2, 2, 2, 1, 2, 3, 1, 1, 2, 0, 0, 0],
        _ => [2, 3, 2, 2, 2, 2, 2, 1, 2, 2, 1, 1, 2, 1, 1, 0],
    };
    match s.weighted(&w) {
        0 => Mut::Truncate(at(s)),
        1 => Mut::Flip(at(s), s.below(8) as u8),
        2 => Mut::Put(at(s), some_bytes(s, 12)),
        3 => Mut::Int(at(s), if s.chance(1, 4) { s.below(1 << 20) } else { *s.pick(&INTS) }),
        4 => Mut::Insert(at(s), some_bytes(s, 30)),
        5 => Mut::Delete(at(s), s.usize(1, 40)),
        6 => Mut::Dup(at(s), s.usize(1, 400)),
        7 => Mut::Replace(some_bytes(s, 300)),
        8 => Mut::Copy(s.below(64)),
        9 => Mut::Rename(hostile_name(s)),
        10 => Mut::Remove,
        11 => Mut::Dir,
        12 => Mut::Beside(hostile_name(s), some_bytes(s, 60)),
        13 => Mut::Json(s.below(400), if s.chance(1, 4) { None } else { Some(json_text(s)) }),
        14 => Mut::JsonStr(s.below(200), if s.chance(1, 3) { schema_text(s) } else if s.chance(1, 2) { hostile_name(s) } else { hostile_text(s) }),
        _ => {
            let keys = hudi_keys();
            let mut k = s.pick(&keys).clone();
            if steers(&k) {
                k = "hoodie.x".into();
            }
            Mut::Prop(k, hostile_text(s).replace('\n', " "))
        }
    }
}

fn class_of(rel: &str) -> u8 {
    let name = rel.rsplit('/').next().unwrap();
    if name == "hoodie.properties" {
        1
    } else if rel.starts_with(".hoodie/") {
        2
    } else if name.contains(".log.") {
        3
    } else if name.ends_with(".parquet") {
        4
    } else {
        5
    }
}

fn nodes<'a>(v: &'a mut Value, out: &mut Vec<*mut Value>) {
    out.push(v as *mut Value);
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| nodes(x, out)),
        Value::Object(m) => m.values_mut().for_each(|x| nodes(x, out)),
        _ => {}
    }
}

/// Applies `f` to the n-th node of the document.
fn at_node(v: &mut Value, n: &mut u64, f: &mut dyn FnMut(&mut Value)) -> bool {
    if *n == 0 {
        f(v);
        return true;
    }
    *n -= 1;
    match v {
        Value::Array(a) => a.iter_mut().any(|x| at_node(x, n, f)),
        Value::Object(m) => m.values_mut().any(|x| at_node(x, n, f)),
        _ => false,
    }
}

fn count_nodes(v: &Value) -> u64 {
    1 + match v {
        Value::Array(a) => a.iter().map(count_nodes).sum(),
        Value::Object(m) => m.values().map(count_nodes).sum(),
        _ => 0,
    }
}

fn strings(v: &mut Value, f: &mut dyn FnMut(&mut String)) {
    match v {
        Value::String(s) => f(s),
        Value::Array(a) => a.iter_mut().for_each(|x| strings(x, f)),
        Value::Object(m) => m.values_mut().for_each(|x| strings(x, f)),
        _ => {}
    }
}

fn apply(d: &Path, class: u8, idx: u64, m: &Mut) -> bool {
    let all = files(d);
    let rel = |p: &PathBuf| p.strip_prefix(d).unwrap().to_string_lossy().to_string();
    let of: Vec<&PathBuf> = all.iter().filter(|p| class == 0 || class_of(&rel(p)) == class).collect();
    if of.is_empty() {
        return false;
    }
    let f = of[(idx % of.len() as u64) as usize].clone();
    let Ok(mut b) = std::fs::read(&f) else { return false };
    let ints: Vec<(usize, usize)> = if f.to_string_lossy().contains(".log.") {
        std::panic::catch_unwind(|| walk(&b)).map(|w| w.into_iter().flat_map(|x| x.ints).collect()).unwrap_or_default()
    } else {
        vec![]
    };
    let n = b.len();
    let pos = |a: &At| -> (usize, usize) {
        match a {
            At::Head(x) => ((*x as usize).min(n), 4),
            At::Tail(x) => (n - (*x as usize).min(n), 4),
            At::Any(x) => ((*x as usize) % (n + 1), 4),
            At::Field(x) if ints.is_empty() => ((*x as usize * 7919) % (n + 1), 4),
            At::Field(x) => ints[*x as usize % ints.len()],
        }
    };
    let put = |b: &mut Vec<u8>, p: usize, x: &[u8]| {
        for (i, v) in x.iter().enumerate() {
            if p + i < b.len() {
                b[p + i] = *v;
            }
        }
    };
    let beside = |name: &str| f.parent().unwrap().join(name);
    match m {
        Mut::Truncate(a) => b.truncate(pos(a).0),
        Mut::Flip(a, bit) => {
            let p = pos(a).0;
            if p < n {
                b[p] ^= 1 << bit;
            }
        }
        Mut::Put(a, x) => put(&mut b, pos(a).0, x),
        Mut::Int(a, v) => {
            let (p, w) = pos(a);
            let be = v.to_be_bytes();
            put(&mut b, p, if w == 8 { &be } else { &be[4..] });
        }
        Mut::Insert(a, x) => {
            let p = pos(a).0;
            b.splice(p..p, x.iter().copied());
        }
        Mut::Delete(a, k) => {
            let p = pos(a).0;
            b.drain(p..(p + k).min(n));
        }
        Mut::Dup(a, k) => {
            let p = pos(a).0;
            let x = b[p..(p + k).min(n)].to_vec();
            b.splice(p..p, x);
        }
        Mut::Replace(x) => b = x.clone(),
        Mut::Copy(o) => b = std::fs::read(&all[(*o % all.len() as u64) as usize]).unwrap_or_default(),
        Mut::Rename(name) => return std::fs::rename(&f, beside(name)).is_ok(),
        Mut::Remove => return std::fs::remove_file(&f).is_ok(),
        Mut::Dir => {
            let _ = std::fs::remove_file(&f);
            return std::fs::create_dir(&f).is_ok();
        }
        Mut::Beside(name, x) => {
            let p = beside(name);
            return !p.exists() && std::fs::write(p, x).is_ok();
        }
        Mut::Json(k, v) => {
            let Ok(mut j) = serde_json::from_slice::<Value>(&b) else { return false };
            let mut k = *k % count_nodes(&j);
            match v {
                Some(t) => {
                    let v: Value = serde_json::from_str(t).unwrap_or(Value::Null);
                    at_node(&mut j, &mut k, &mut |x| *x = v.clone());
                }
                None => {
                    at_node(&mut j, &mut k, &mut |x| match x {
                        Value::Object(m) => {
                            let first = m.keys().next().cloned();
                            first.map(|c| m.remove(&c));
                        }
                        Value::Array(a) => {
                            a.pop();
                        }
                        _ => *x = Value::Null,
                    });
                }
            }
            b = j.to_string().into_bytes();
        }
        Mut::JsonStr(k, t) => {
            let Ok(mut j) = serde_json::from_slice::<Value>(&b) else { return false };
            let mut total = 0;
            strings(&mut j, &mut |_| total += 1);
            if total == 0 {
                return false;
            }
            let (want, mut i) = (*k % total, 0);
            strings(&mut j, &mut |x| {
                if i == want {
                    *x = t.clone();
                }
                i += 1;
            });
            b = j.to_string().into_bytes();
        }
        Mut::Prop(k, v) => {
            let text = String::from_utf8_lossy(&b).to_string();
            let mut lines: Vec<&str> = text.lines().filter(|l| !l.starts_with(&format!("{k}="))).collect();
            let add = format!("{k}={v}");
            lines.push(&add);
            b = (lines.join("\n") + "\n").into_bytes();
        }
    }
    std::fs::write(&f, b).is_ok()
}

impl Part for Damaged {
    type Case = DamagedCase;
    fn name(&self) -> &'static str {
        "damaged tables"
    }
    fn rule(&self) -> &'static str {
        "a generated table history, then 1 to 3 mutations of its files (truncation, bit flips, extreme integers in the fields of log files, inserted, deleted or doubled ranges, other contents, structural edits of JSON documents, hostile properties, file names and further files); then every call of the API on the table and every file on its own. No call may panic, abort, hang or exhaust 6 GB. Non-trivial: a mutation was applied and some call returned data."
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn shrink_budget(&self) -> usize {
        200
    }
    fn generate(&self, s: &mut Source) -> DamagedCase {
        let mor = s.chance(1, 2);
        let o = Opts { max_ops: 6, big: false, scale: false, mor: mor.then_some(true), log_heavy: mor, ..Opts::all() };
        let plan = gen::plan(s, &o);
        let n = 1 + s.weighted(&[6, 3, 1]);
        let muts = (0..n)
            .map(|_| {
                let class = s.weighted(&[2, 2, 5, 6, 3]) as u8;
                let i = s.below(64);
                (class, i, mutation(s, class))
            })
            .collect();
        let at = match plan.ops.len() {
            0 => FAR.to_string(),
            n => plan.ops[s.idx(n)].ts().to_string(),
        };
        let filters = plan
            .cfg
            .parts
            .first()
            .map(|p| (plan.cfg.cols[*p].name.clone(), "!=".to_string(), s.pick(&["1", "true", "2024-01-01", "a"]).to_string()))
            .into_iter()
            .collect();
        DamagedCase { plan, muts, at, filters }
    }
    fn run(&self, c: &DamagedCase) -> R<Info> {
        let d = Scratch::new();
        materialize(&c.plan, d.path());
        let mut info = Info::default();
        let mut applied = false;
        for (class, i, m) in &c.muts {
            if apply(d.path(), *class, *i, m) {
                applied = true;
                info.label(format!("{} of {}", kind(m), ["any file", "properties", "timeline", "log", "base file"][*class as usize]));
            }
        }
        let mut t = Tally::default();
        let opened = exercise(&d.uri(), &[], &c.at, &c.filters, &mut t);
        exercise_files(d.path(), &mut t);
        info.label_if(!opened, "does not open");
        info.label_if(t.err > 0, "some call failed");
        info.nontrivial = applied && opened && t.ok > 0;
        t.done(&mut info)?;
        Ok(info)
    }
}

fn kind(m: &Mut) -> &'static str {
    match m {
        Mut::Truncate(_) => "truncation",
        Mut::Flip(..) => "bit flip",
        Mut::Put(..) => "overwrite",
        Mut::Int(..) => "integer",
        Mut::Insert(..) => "insertion",
        Mut::Delete(..) => "deletion",
        Mut::Dup(..) => "doubling",
        Mut::Replace(_) => "other bytes",
        Mut::Copy(_) => "other file's bytes",
        Mut::Rename(_) => "renaming",
        Mut::Remove => "removal",
        Mut::Dir => "directory instead",
        Mut::Beside(..) => "file beside",
        Mut::Json(..) => "JSON node",
        Mut::JsonStr(..) => "JSON string",
        Mut::Prop(..) => "property",
    }
}

// ---------------------------------------------------------------- (b) cuts

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cut {
    /// Log file i ends at this byte.
    LogAt(u64),
    /// The contents of block b are declared that much shorter, the rest of the file being there.
    LogLength(u64, u64),
    /// An avro block declares more records than it holds.
    LogCount(u64, u32),
    /// Base file i ends at this byte.
    BaseAt(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CutCase {
    pub plan: Plan,
    pub file: u64,
    pub cut: Cut,
    pub at: Option<String>,
}

pub struct Cuts {
    pub n: (usize, usize),
}

fn blocks_of(dir: &Path, name: &str) -> Result<Vec<Vec<RecordBatch>>, String> {
    let confs = Arc::new(HudiConfigs::new([(
        HudiTableConfig::BasePath.as_ref().to_string(),
        url::Url::from_directory_path(dir).unwrap().to_string(),
    )]));
    let st = Storage::new(Arc::new(HashMap::<String, String>::new()), confs.clone()).map_err(|e| e.to_string())?;
    let mut r = block(LogFileReader::new(confs, st, name)).map_err(|e| e.to_string())?;
    let b = r.read_all_blocks(&InstantRange::up_to(FAR, "utc")).map_err(|e| e.to_string())?;
    Ok(b.into_iter().map(|b| b.record_batches).collect())
}

impl Part for Cuts {
    type Case = CutCase;
    fn name(&self) -> &'static str {
        "cuts"
    }
    fn rule(&self) -> &'static str {
        "one log or base file of a generated table ends early (at any byte), or a log block declares fewer bytes or more records than it has: reading the file and reading the table is an error, or, when the cut falls between blocks or in what follows a block's contents, exactly the rows of the blocks that are still complete; reads that do not use a damaged log file give the same as before. Non-trivial: the cut is inside a block's contents or header, or leaves at least one block."
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> CutCase {
        let base = s.chance(1, 6);
        let o = Opts {
            mor: if base { None } else { Some(true) },
            log_heavy: !base,
            max_ops: 8,
            replace: s.chance(1, 4),
            ..Opts::all()
        };
        let plan = gen::plan(s, &o);
        let model = Model::of(&plan);
        let cut = if base {
            Cut::BaseAt(s.below(1 << 32))
        } else {
            match s.weighted(&[6, 2, 2]) {
                0 => Cut::LogAt(s.below(1 << 32)),
                1 => Cut::LogLength(s.below(8), s.below(1 << 32)),
                _ => Cut::LogCount(s.below(8), *s.pick(&[1, 2, 100, 1024, 2000, 65536, 0x7fff_0000])),
            }
        };
        let at = s.chance(1, 4).then(|| gen::as_of_until(s, &plan, &model));
        CutCase { plan, file: s.below(64), cut, at }
    }
    fn run(&self, c: &CutCase) -> R<Info> {
        let d = Scratch::new();
        let model = materialize(&c.plan, d.path());
        let mut info = Info::default();
        let Some(last) = model.latest_completed().map(|l| l.ts.clone()) else { return Ok(info) };
        let base = matches!(c.cut, Cut::BaseAt(_));
        let of: Vec<PathBuf> = files(d.path())
            .into_iter()
            .filter(|p| {
                let rel = p.strip_prefix(d.path()).unwrap().to_string_lossy().to_string();
                let name = p.file_name().unwrap().to_string_lossy().to_string();
                class_of(&rel) == if base { 4 } else { 3 } && !name.ends_with(".crc")
            })
            .collect();
        if of.is_empty() {
            return Ok(info);
        }
        let f = &of[(c.file % of.len() as u64) as usize];
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        let dir = f.parent().unwrap();
        let whole = std::fs::read(f).expect("HARNESS: read");
        let n = whole.len();
        let end = c.at.clone().unwrap_or(last);
        let seen = model.seen(&c.plan.cfg, None, &end);
        let concerned = seen.iter().any(|x| {
            let here = d.path().join(c.plan.part_path(x.part)) == dir;
            here && if base { x.base_name == name } else { x.log_names.contains(&name) }
        });
        // What the file may still give: blocks, and whether it has to be an error.
        let (cut, keep, must_fail): (Vec<u8>, usize, bool);
        let full = if base { vec![] } else { err("reading the whole log file", blocks_of(dir, &name))? };
        match &c.cut {
            Cut::BaseAt(x) => {
                cut = whole[..(*x as usize) % n].to_vec();
                keep = 0;
                must_fail = true;
                info.nontrivial = concerned;
                info.label("base file cut");
            }
            Cut::LogAt(x) => {
                let w = walk(&whole);
                // Small offsets address the edges of blocks, where the cases differ.
                let edges: Vec<usize> = w
                    .iter()
                    .flat_map(|b| [b.start, b.start + 1, b.start + 5, b.start + 6, b.content, b.content + 1, b.content_end - 1, b.content_end, b.end - 8, b.end - 1])
                    .collect();
                let p = if x % 3 == 0 { edges[(x / 3) as usize % edges.len()] } else { (*x as usize / 3) % n };
                cut = whole[..p].to_vec();
                let done = w.iter().filter(|b| b.end <= p).count();
                let inside = w.get(done).expect("HARNESS: cut before the end");
                if p < inside.start + 6 {
                    keep = done;
                    must_fail = false;
                    info.label(if p == inside.start { "log cut between blocks" } else { "log cut in a magic" });
                } else if p < inside.content_end {
                    keep = done;
                    must_fail = true;
                    info.label(if p < inside.content { "log cut in a header" } else { "log cut in contents" });
                } else {
                    keep = done + 1;
                    must_fail = false;
                    info.label("log cut after contents");
                }
                info.nontrivial = must_fail || keep > 0;
            }
            Cut::LogLength(b, x) => {
                let w = walk(&whole);
                let p = &w[(*b % w.len() as u64) as usize];
                let len = p.content_end - p.content;
                if len == 0 {
                    return Ok(info);
                }
                let less = (*x as usize) % len;
                let mut v = whole.clone();
                v[p.content_len_at..p.content].copy_from_slice(&(less as u64).to_be_bytes());
                cut = v;
                keep = 0;
                must_fail = true;
                info.nontrivial = true;
                info.label("contents declared shorter");
            }
            Cut::LogCount(b, more) => {
                let w: Vec<BlockPos> = walk(&whole).into_iter().filter(|b| b.ty == 3).collect();
                if w.is_empty() {
                    return Ok(info);
                }
                let p = &w[(*b % w.len() as u64) as usize];
                let have = be32(&whole, p.content + 4) as u32;
                let mut v = whole.clone();
                v[p.content + 4..p.content + 8].copy_from_slice(&(have + more).to_be_bytes());
                cut = v;
                keep = 0;
                must_fail = true;
                info.nontrivial = true;
                info.label("more records declared");
            }
        }
        std::fs::write(f, &cut).expect("HARNESS: write");
        if !base {
            match (blocks_of(dir, &name), must_fail) {
                (Ok(b), true) => {
                    fail!("silently short", "a log file cut at byte {} of {n} ({:?}) gives {} blocks and no error", cut.len(), c.cut, b.len())
                }
                (Ok(b), false) => {
                    let rows = |v: &[Vec<RecordBatch>]| v.iter().map(|x| rows_of(x)).collect::<Vec<_>>();
                    if rows(&b) != rows(&full[..keep]) {
                        fail!("cut blocks", "a log file cut at byte {} of {n} gives {} blocks, expected the first {keep} of {}", cut.len(), b.len(), full.len());
                    }
                    info.compared += 1;
                }
                (Err(_), _) => info.compared += 1,
            }
        }
        // The table, when the file is one that this read uses.
        let t = open(&d.uri())?;
        let got = block(t.read_snapshot_as_of(&end, &[]));
        match got {
            // The schema can come from a base file of a later commit.
            Err(e) if !concerned && !base => fail!("unconcerned", "a damaged file that the read does not use makes it fail: {e}"),
            Err(_) => {}
            Ok(b) if !concerned => same_batches("a read that does not use the damaged file", &c.plan.cfg, &b, &all_rows(&seen))?,
            Ok(b) if must_fail => fail!("table silently short", "{} rows and no error from a table with {name} damaged ({:?})", rows_of(&b).len(), c.cut),
            Ok(b) => {
                // The rows of the remaining blocks: the same read of a table holding just them.
                let got = rows_of(&b);
                if keep == full.len() {
                    same("a read with all blocks left", &got, &expect_rows(&c.plan.cfg, &all_rows(&seen)))?;
                } else {
                    let w = walk(&whole);
                    std::fs::write(f, &whole[..w.get(keep).map(|b| b.start).unwrap_or(n)]).expect("HARNESS: write");
                    let b2 = err("reading with whole blocks only", block(open(&d.uri())?.read_snapshot_as_of(&end, &[])))?;
                    same("a read with the first blocks left", &got, &rows_of(&b2))?;
                }
            }
        }
        info.label(if concerned { "the read uses the file" } else { "the read does not use the file" });
        info.compared += 1;
        plan_labels(&mut info, &c.plan, &model);
        Ok(info)
    }
}

// ---------------------------------------------------------------- (c) hostile log blocks

thread_local! {
    /// How much of a block is hostile: little most of the time, so that what is behind the first
    /// hurdles is reached too.
    static WILD: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}

fn odd(s: &mut Source, den: u64) -> bool {
    let den = if WILD.with(|w| w.get()) { den } else { den * 8 };
    s.chance(1, den)
}

fn name_of(s: &mut Source) -> String {
    if !odd(s, 40) {
        return format!("N{}", s.below(40));
    }
    s.pick(&["a", "b", "A", "R", "key", "ts", "_hoodie_commit_time", "", "x.y", "é", "a-b", "1", "_hoodie_record_key", "_hoodie_commit_seqno"]).to_string()
}

/// An avro schema document, well formed or nearly so.
pub fn schema_json(s: &mut Source, depth: u32) -> Value {
    let prims = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"];
    let leaf = depth == 0;
    let w = WILD.with(|w| w.get()) as u32;
    match s.weighted(&[8, 3 * w, if leaf { 0 } else { 3 }, if leaf { 0 } else { w }, if leaf { 0 } else { 4 }, if leaf { 0 } else { 4 }, 1, 1, w, w]) {
        0 => json!(*s.pick(&prims)),
        1 => {
            let lt = *s.pick(&[
                "decimal", "date", "time-millis", "time-micros", "timestamp-millis", "timestamp-micros", "timestamp-nanos",
                "local-timestamp-millis", "local-timestamp-micros", "local-timestamp-nanos", "uuid", "duration", "big-decimal", "bogus",
            ]);
            let base = *s.pick(&prims);
            let mut v = json!({"type": base, "logicalType": lt});
            if lt == "decimal" || s.chance(1, 6) {
                v["precision"] = json!(*s.pick(&[4i64, 10, 0, -1, 38, 39, 76, 77, 1_000_000, i64::MAX]));
                v["scale"] = json!(*s.pick(&[2i64, 0, 5, -1, 38, 200, i64::MAX]));
            }
            if s.chance(1, 4) {
                v["type"] = json!("fixed");
                v["name"] = json!(name_of(s));
                v["size"] = json!(*s.pick(&[16i64, 12, 0, 1, 8, -1, 100, 1 << 31, i64::MAX]));
            }
            v
        }
        2 => json!({"type": "array", "items": schema_json(s, depth - 1)}),
        3 => json!({"type": "map", "values": schema_json(s, depth - 1)}),
        4 => {
            let n = if odd(s, 8) { 0 } else { s.usize(1, 4) };
            let f: Vec<Value> = (0..n).map(|i| field(s, i, depth - 1)).collect();
            json!({"type": "record", "name": name_of(s), "fields": f})
        }
        5 => {
            let wild = WILD.with(|w| w.get()) && s.chance(1, 3);
            let n = if wild { s.usize(0, 3) } else { 1 };
            let mut v: Vec<Value> = (0..n)
                .map(|_| {
                    let x = schema_json(s, depth - 1);
                    if !wild && (x.is_array() || x == "null") { json!("long") } else { x }
                })
                .collect();
            if !wild || s.chance(2, 3) {
                v.insert(if s.chance(1, 6) { v.len() } else { 0 }, json!("null"));
            }
            Value::Array(v)
        }
        6 => json!({"type": "enum", "name": name_of(s), "symbols": if odd(s, 4) { *s.pick(&[&[][..], &["a", "a"][..], &["é"][..]]) } else { &["a", "b"][..] }}),
        7 => json!({"type": "fixed", "name": name_of(s), "size": if odd(s, 4) { *s.pick(&[0i64, -1, 1 << 31, 1 << 40]) } else { *s.pick(&[1i64, 16]) }}),
        8 => json!(name_of(s)),
        _ => s.pick(&[json!(null), json!(1), json!({}), json!([]), json!({"type": {"type": "string"}}), json!({"type": []})]).clone(),
    }
}

fn field(s: &mut Source, i: usize, depth: u32) -> Value {
    let n = match s.below(60) {
        59 => name_of(s),
        // Names that nested paths can collide with.
        50..=58 => s.pick(&["f0", "element", "a", "key", "ts"]).to_string(),
        _ => format!("f{i}"),
    };
    let mut v = json!({"name": n, "type": schema_json(s, depth)});
    if odd(s, 8) {
        v["default"] = s.pick(&[json!(null), json!(1), json!("x"), json!([]), json!({})]).clone();
    }
    if odd(s, 12) {
        v["aliases"] = json!(["z", "f0"]);
    }
    v
}

/// A schema as found in a block header or in commit metadata.
pub fn schema_text(s: &mut Source) -> String {
    let w = WILD.with(|w| w.get()) as u32;
    match s.weighted(&[10, 2 * w, w, w, 1]) {
        0 => {
            let n = if odd(s, 8) { 0 } else { s.usize(1, 5) };
            let f: Vec<Value> = (0..n).map(|i| field(s, i, 2)).collect();
            json!({"type": "record", "name": if odd(s, 8) { name_of(s) } else { "R".into() }, "fields": f}).to_string()
        }
        1 => schema_json(s, 3).to_string(),
        2 if s.chance(1, 4) => hostile_text(s),
        2 | 3 => {
            // Deep nesting.
            let n = *s.pick(&[10usize, 30, 60, 100, 126, 200]);
            let (a, z) = s.pick(&[("{\"type\":\"array\",\"items\":", "}"), ("{\"type\":\"map\",\"values\":", "}"), ("[\"null\",", "]")]);
            format!("{{\"type\":\"record\",\"name\":\"R\",\"fields\":[{{\"name\":\"f\",\"type\":{}\"int\"{}}}]}}", a.repeat(n), z.repeat(n))
        }
        _ => s
            .pick(&[
                // Recursive.
                r#"{"type":"record","name":"R","fields":[{"name":"v","type":"int"},{"name":"next","type":["null","R"]}]}"#,
                r#"{"type":"record","name":"R","fields":[{"name":"next","type":"R"}]}"#,
                r#"{"type":"record","name":"R","fields":[{"name":"kids","type":{"type":"array","items":"R"}}]}"#,
                r#"{"type":"record","name":"R","fields":[{"name":"m","type":{"type":"map","values":"R"}}]}"#,
                r#"{"type":"record","name":"R","fields":[{"name":"a","type":{"type":"record","name":"S","fields":[{"name":"b","type":["null","R"]}]}}]}"#,
                // Used twice.
                r#"{"type":"record","name":"R","fields":[{"name":"a","type":{"type":"record","name":"S","fields":[{"name":"b","type":"int"}]}},{"name":"c","type":"S"}]}"#,
                r#"{"type":"record","name":"R","fields":[{"name":"a","type":{"type":"enum","name":"E","symbols":["x","y"]}},{"name":"c","type":["null","E"]}]}"#,
                r#"{"type":"record","name":"R","fields":[{"name":"a","type":{"type":"fixed","name":"F","size":2}},{"name":"c","type":["null","F"]}]}"#,
            ])
            .to_string(),
    }
}

fn zig(out: &mut Vec<u8>, v: i64) {
    let mut n = ((v << 1) ^ (v >> 63)) as u64;
    while n >= 0x80 {
        out.push((n as u8) | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
}

/// A datum for the schema, sometimes wrong.
fn encode(s: &mut Source, sch: &Value, named: &Value, out: &mut Vec<u8>, fuel: &mut u32) {
    if *fuel == 0 {
        return;
    }
    *fuel -= 1;
    if odd(s, 60) {
        out.extend(some_bytes(s, 6));
        return;
    }
    match sch {
        Value::String(t) => match t.as_str() {
            "null" => {}
            "boolean" => out.push(if odd(s, 10) { s.below(256) as u8 } else { s.below(2) as u8 }),
            "int" | "long" => {
                let v = s.i64();
                zig(out, v)
            }
            "float" => out.extend((s.below(1 << 32) as u32).to_le_bytes()),
            "double" => out.extend(s.below(u64::MAX).to_le_bytes()),
            "bytes" | "string" => {
                let b: Vec<u8> = match s.weighted(&[5, 1, 1]) {
                    0 => s.string_of(&["a", "é", "0", "-"], 0, 6).into_bytes(),
                    1 => some_bytes(s, 20),
                    _ => b"123e4567-e89b-12d3-a456-426614174000".to_vec(),
                };
                let n = if odd(s, 40) { *s.pick(&[-1, 1 << 20, 1 << 33, i64::MAX, i64::MIN]) } else { b.len() as i64 };
                zig(out, n);
                out.extend(b);
            }
            _ => encode(s, named, named, out, fuel),
        },
        Value::Array(u) => {
            let n = u.len() as u64;
            let i = if odd(s, 40) { *s.pick(&[-1, n as i64, i64::MAX]) } else if n == 0 { 0 } else { s.below(n) as i64 };
            zig(out, i);
            if i >= 0 && (i as u64) < n {
                encode(s, &u[i as usize], named, out, fuel);
            }
        }
        Value::Object(m) => match m.get("type") {
            Some(Value::String(t)) if t == "record" => {
                for f in m.get("fields").and_then(|f| f.as_array()).into_iter().flatten() {
                    encode(s, &f["type"], named, out, fuel);
                }
            }
            Some(Value::String(t)) if t == "array" || t == "map" => {
                let k = s.usize(0, 3);
                if k > 0 {
                    // Lengths that decoders allocate for up front are capped: see DESIGN.md.
                    let n = if odd(s, 30) { *s.pick(&[-3, 1000, 1 << 16, i64::MAX, i64::MIN]) } else { k as i64 };
                    zig(out, n);
                    if n < 0 {
                        zig(out, s.range(-1, 100));
                    }
                    for _ in 0..k {
                        if t == "map" {
                            encode(s, &json!("string"), named, out, fuel);
                        }
                        let items = m.get("items").or(m.get("values")).cloned().unwrap_or(json!("int"));
                        encode(s, &items, named, out, fuel);
                    }
                }
                zig(out, 0);
            }
            Some(Value::String(t)) if t == "enum" => zig(out, s.range(-1, 3)),
            Some(Value::String(t)) if t == "fixed" => {
                let n = m.get("size").and_then(|v| v.as_u64()).unwrap_or(0).min(64);
                out.extend((0..n).map(|_| s.below(256) as u8).collect::<Vec<_>>());
            }
            Some(v) => encode(s, v, named, out, fuel),
            None => {}
        },
        _ => {}
    }
}

fn pick_int(s: &mut Source, truth: u64, lie: u64) -> u64 {
    if odd(s, lie) {
        if s.chance(1, 2) {
            *s.pick(&INTS)
        } else {
            truth.wrapping_add(*s.pick(&[1, 2, 8, 1000, u64::MAX, u64::MAX - 3]))
        }
    } else {
        truth
    }
}

pub fn hostile_block(s: &mut Source, ts: &str) -> Vec<u8> {
    let wild = s.chance(1, 3);
    WILD.with(|w| w.set(wild));
    let ty = match s.weighted(&[10, 2, 2, if wild { 4 } else { 0 }]) {
        0 => 3,
        1 => 5,
        2 => 0,
        _ => *s.pick(&[1u64, 2, 4, 6, 7, 255, 0xffff_ffff]),
    } as u32;
    let schema = schema_text(s);
    let mut header: Vec<(u32, String)> = vec![];
    if !odd(s, 12) {
        header.push((0, if odd(s, 6) { hostile_time(s) } else { ts.to_string() }));
    }
    if ty != 0 && !odd(s, 12) {
        header.push((2, schema.clone()));
    }
    if ty == 0 && !odd(s, 6) {
        header.push((1, if s.chance(1, 3) { hostile_time(s) } else { ts.to_string() }));
    }
    if ty == 0 && !odd(s, 6) {
        header.push((3, if s.chance(1, 3) { hostile_text(s) } else { "0".into() }));
    }
    while odd(s, 8) {
        header.push((*s.pick(&[4u32, 5, 6, 7, 8, 0, 1, 2, 3, 0xffff_ffff]), hostile_text(s)));
    }
    let mut content = vec![];
    match ty {
        3 => {
            let v: Value = serde_json::from_str(&schema).unwrap_or(json!("int"));
            let n = s.usize(0, 4);
            content.extend((pick_int(s, 3, 25) as u32).to_be_bytes());
            content.extend((pick_int(s, n as u64, 12).min(u32::MAX as u64) as u32).to_be_bytes());
            for _ in 0..n {
                let mut r = vec![];
                let mut fuel = 40;
                encode(s, &v, &v, &mut r, &mut fuel);
                content.extend((pick_int(s, r.len() as u64, 20) as u32).to_be_bytes());
                content.extend(r);
            }
        }
        5 => {
            let c = bare();
            let rows: Vec<Row> = (0..s.usize(0, 3)).map(|i| row(i, ts)).collect();
            content = parquet_bytes(&c, &rows);
            for _ in 0..s.usize(0, 3) {
                let i = s.idx(content.len());
                content[i] = s.below(256) as u8;
            }
        }
        0 => {}
        _ => content = some_bytes(s, 40),
    }
    if odd(s, 15) {
        content = some_bytes(s, 60);
    }
    let meta = |s: &mut Source, out: &mut Vec<u8>, m: &[(u32, String)]| {
        out.extend((pick_int(s, m.len() as u64, 25) as u32).to_be_bytes());
        for (k, v) in m {
            out.extend(k.to_be_bytes());
            out.extend((pick_int(s, v.len() as u64, 40) as u32).to_be_bytes());
            if odd(s, 60) {
                out.extend(vec![0xff; v.len()]);
            } else {
                out.extend(v.as_bytes());
            }
        }
    };
    let version = if odd(s, 15) { *s.pick(&[0u32, 2, 3, 0xffff_ffff]) } else { 1 };
    let mut body = vec![];
    body.extend(version.to_be_bytes());
    body.extend(ty.to_be_bytes());
    meta(s, &mut body, &header);
    body.extend(pick_int(s, content.len() as u64, 20).to_be_bytes());
    body.extend(&content);
    let footer: Vec<(u32, String)> = if odd(s, 10) { vec![(*s.pick(&[0u32, 6, 99]), hostile_text(s))] } else { vec![] };
    meta(s, &mut body, &footer);
    let len = body.len() as u64 + 8;
    body.extend(pick_int(s, len + 14, 20).to_be_bytes());
    let mut out = if odd(s, 40) { some_bytes(s, 6) } else { b"#HUDI#".to_vec() };
    out.extend(pick_int(s, len, 20).to_be_bytes());
    out.extend(body);
    out
}

fn bare() -> TableCfg {
    let mut c = crate::props_log::bare_cfg(vec![
        col("key", Ty::Str, false),
        col("ts", Ty::I64, false),
        col("c0", Ty::I64, true),
    ]);
    c.fmt = BlockFmt::Parquet;
    c
}

fn row(i: usize, ts: &str) -> Row {
    Row {
        ct: ts.into(),
        seq: format!("{ts}_0_{i}"),
        pp: "".into(),
        file: "fid-0".into(),
        vals: vec![Val::S(format!("k{i}")), Val::I(i as i64), Val::I(7)],
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HostileCase {
    pub log: Vec<u8>,
    pub schema: String,
    /// The record schema has this type of ordering field, of the merge tests.
    pub opts: Vec<(String, String)>,
}

pub struct Hostile {
    pub n: (usize, usize),
}

impl Part for Hostile {
    type Case = HostileCase;
    fn name(&self) -> &'static str {
        "hostile log blocks"
    }
    fn rule(&self) -> &'static str {
        "log files of 1 to 3 blocks put together from hostile pieces: lying counts and lengths, unknown types, versions and header keys, avro schemas from a grammar (recursive, nested, logical types on wrong types, unions, missing names) with data encoded for them or not, altered parquet contents; read on their own, and merged with a base file; and the same schemas as commit metadata. Non-trivial: the file decodes, or fails only in its contents."
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> HostileCase {
        let mut log = vec![];
        for _ in 0..1 + s.weighted(&[6, 2, 1]) {
            log.extend(hostile_block(s, "20240101000000000"));
        }
        WILD.with(|w| w.set(true));
        let schema = schema_text(s);
        let mut opts = vec![];
        if s.chance(1, 3) {
            opts.push((HudiTableConfig::PrecombineField.as_ref().to_string(), s.pick(&["ts", "f0", "f1", "c0", "nope", ""]).to_string()));
        }
        HostileCase { log, schema, opts }
    }
    fn run(&self, c: &HostileCase) -> R<Info> {
        let d = Scratch::new();
        let log = ".fid-0_20240101000000000.log.1_0-1-1";
        let base = "fid-0_0-1-1_20240101000000000.parquet";
        put_file(&d.path().join(log), &c.log);
        let cfg = bare();
        put_file(&d.path().join(base), &parquet_bytes(&cfg, &[row(0, "20240101000000000"), row(1, "20240101000000000")]));
        let mut info = Info::default();
        let mut t = Tally::default();
        let r = t.of(|| blocks_of(d.path(), log)).ok_or(());
        info.label(match &r {
            Ok(b) if b.iter().any(|x| x.iter().any(|y| y.num_rows() > 0)) => "decoded with rows",
            Ok(_) => "decoded",
            Err(_) => "error",
        });
        info.nontrivial = r.is_ok();
        let mut fs = FileSlice::new(
            BaseFile::from_str(base).map_err(|e| Fail::new("error", e.to_string()))?,
            "".into(),
        );
        fs.log_files.insert(LogFile::from_str(log).map_err(|e| Fail::new("error", e.to_string()))?);
        let mut opts = vec![
            (HudiTableConfig::PrecombineField.as_ref().to_string(), "ts".to_string()),
            (HudiReadConfig::FileGroupEndTimestamp.as_ref().to_string(), FAR.to_string()),
        ];
        opts.extend(c.opts.clone());
        if let Some(r) = t.of(|| FileGroupReader::new_with_options(&d.uri(), opts)) {
            t.of(|| block(r.read_file_slice(&fs)));
        }
        // The schema in commit metadata.
        let d = Scratch::new();
        put_file(
            &d.path().join(".hoodie/hoodie.properties"),
            b"hoodie.table.name=t\nhoodie.table.type=COPY_ON_WRITE\nhoodie.table.version=6\nhoodie.timeline.layout.version=1\nhoodie.table.base.file.format=PARQUET\n",
        );
        let m = json!({"partitionToWriteStats": {}, "compacted": false, "extraMetadata": {"schema": c.schema}, "operationType": "UPSERT"});
        put_file(&d.path().join(".hoodie/20240101000000000.commit"), m.to_string().as_bytes());
        put_file(&d.path().join(".hoodie/20240101000000000.inflight"), b"");
        put_file(&d.path().join(".hoodie/20240101000000000.commit.requested"), b"");
        if let Some(table) = t.of(|| block(Table::new(&d.uri()))) {
            t.of(|| block(table.get_avro_schema()));
            t.of(|| block(table.get_schema()));
            t.of(|| block(table.get_partition_schema()));
            t.of(|| block(table.read_snapshot(&[])));
        }
        t.done(&mut info)?;
        Ok(info)
    }
}

// ---------------------------------------------------------------- (d) hostile strings

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StringsCase {
    pub plan: Option<Plan>,
    pub opts: Vec<(String, String)>,
    pub at: String,
    pub start: String,
    pub filters: Vec<(String, String, String)>,
    pub texts: Vec<String>,
    pub zone: String,
    pub uri: String,
    pub n: usize,
    pub path: String,
}

pub struct Strings {
    pub n: (usize, usize),
}

impl Part for Strings {
    type Case = StringsCase;
    fn name(&self) -> &'static str {
        "hostile strings"
    }
    fn rule(&self) -> &'static str {
        "arbitrary text (near-timestamps, non-ASCII, very long, near-names) as timestamps, filters, options of every key, time zones, names, paths and URIs, on a generated table and in every parser of the API. Non-trivial: some call on the table returned data and some an error."
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> StringsCase {
        let o = Opts { max_ops: 4, big: false, scale: false, ..Opts::all() };
        let plan = s.chance(1, 3).then(|| gen::plan(s, &o));
        let keys = hudi_keys();
        let mut opts = vec![];
        for _ in 0..s.usize(0, 3) {
            let k = match s.weighted(&[8, 1, 1]) {
                0 => s.pick(&keys).clone(),
                1 => hostile_text(s),
                _ => format!("hoodie.{}", hostile_text(s)),
            };
            if !steers(&k) {
                opts.push((k, hostile_text(s)));
            }
        }
        let cols: Vec<String> = plan.iter().flat_map(|p| p.cfg.cols.iter().map(|c| c.name.clone())).collect();
        let filters = (0..s.usize(0, 3))
            .map(|_| {
                let f = if !cols.is_empty() && s.chance(3, 4) { s.pick(&cols).clone() } else { hostile_text(s) };
                let op = if s.chance(4, 5) { s.pick(&["=", "!=", "<", "<=", ">", ">="]).to_string() } else { hostile_text(s) };
                (f, op, hostile_text(s))
            })
            .collect();
        let texts = (0..4).map(|_| if s.chance(1, 2) { hostile_name(s) } else { hostile_text(s) }).collect();
        let uri = match s.weighted(&[3, 2, 2]) {
            0 => hostile_text(s),
            1 => format!("{}{}", s.pick(&["file:", "file:/", "file:///", "memory:", "hdfs://", "/", "x://", ""]), hostile_text(s)),
            _ => format!("file:///dev/null/{}", hostile_name(s)),
        };
        StringsCase {
            plan,
            opts,
            at: hostile_time(s),
            start: hostile_time(s),
            filters,
            texts,
            zone: hostile_text(s),
            uri,
            n: *s.pick(&[1usize, 0, 2, 1000, usize::MAX]),
            path: hostile_text(s),
        }
    }
    fn run(&self, c: &StringsCase) -> R<Info> {
        let mut t = Tally::default();
        let mut info = Info::default();
        if let Some(plan) = &c.plan {
            let d = Scratch::new();
            materialize(plan, d.path());
            let uri = d.uri();
            exercise(&uri, &c.opts, &c.at, &c.filters, &mut t);
            let fs: Vec<(&str, &str, &str)> = c.filters.iter().map(|(a, b, c)| (a.as_str(), b.as_str(), c.as_str())).collect();
            if let Some(table) = t.of(|| block(Table::new(&uri))) {
                t.of(|| block(table.read_incremental_records(&c.start, Some(&c.at))));
                t.of(|| block(table.get_file_slices_between(Some(&c.start), Some(&c.at))));
                t.of(|| block(table.get_file_slices_splits(c.n, &fs)));
                t.of(|| block(table.get_file_slices_splits_as_of(c.n, &c.at, &fs)));
                t.of(|| block(table.read_snapshot_as_of(&c.at, &fs)));
                if let Some(r) = t.of(|| table.create_file_group_reader_with_options(c.opts.clone())) {
                    t.of(|| block(r.read_file_slice_by_base_file_path(&c.path)));
                    for sl in t.of(|| block(table.get_file_slices(&[]))).unwrap_or_default() {
                        t.of(|| block(r.read_file_slice(&sl)));
                    }
                }
                let st = &table;
                let _ = st.base_url();
            }
            info.nontrivial = t.ok > 0 && t.err > 0;
        }
        for x in c.texts.iter().chain([&c.at, &c.start, &c.path]) {
            t.of(|| LogFile::from_str(x));
            t.of(|| BaseFile::from_str(x));
            t.of(|| Instant::from_str(x));
            t.of(|| Instant::try_from_file_name_and_timezone(x, &c.zone));
            t.of(|| Instant::parse_datetime(x, &c.zone));
            t.of(|| Instant::parse_datetime(x, "utc"));
            t.of(|| Instant::parse_datetime(x, "local"));
            t.of(|| Instant::parse_action_and_state(x));
            t.of(|| InstantRange::within(&c.start, &c.at, &c.zone).is_in_range(x, "utc"));
            t.of(|| parse_data_for_options(&bytes::Bytes::from(x.clone()), "="));
            t.of(|| parse_data_for_options(&bytes::Bytes::from(x.clone()), "=:"));
        }
        if let Some(u) = t.of(|| parse_uri(&c.uri)) {
            let segs: Vec<&str> = c.texts.iter().map(|x| x.as_str()).collect();
            t.of(|| join_url_segments(&u, &segs));
        }
        // Remote schemes would reach for the network.
        let remote = ["s3", "gs", "az", "abfs", "wasb", "http"].iter().any(|p| c.uri.trim_start().to_lowercase().starts_with(p));
        if !remote {
            t.of(|| block(Table::new_with_options(&c.uri, c.opts.clone())));
        }
        for (a, b, v) in &c.filters {
            t.of(|| Filter::try_from((a.as_str(), b.as_str(), v.as_str())));
        }
        split_hudi_options_from_others(c.opts.clone());
        let confs = HudiConfigs::new(c.opts.clone());
        confs.as_options();
        for k in HudiTableConfig::iter() {
            let _ = confs.validate(k.clone());
            t.of(|| confs.get(k.clone()));
            let _ = confs.try_get(k);
        }
        for k in HudiReadConfig::iter() {
            t.of(|| confs.get(k.clone()));
            let _ = confs.try_get(k);
        }
        let m = json!({"partitionToWriteStats": {c.path.clone(): [{"fileId": c.texts[0], "path": c.texts[1], "baseFile": c.texts[2], "logFiles": [c.texts[3]]}, {"fileId": c.texts[1], "path": c.path}]},
            "partitionToReplaceFileIds": {c.path.clone(): c.texts.clone()}});
        if let Value::Object(m) = &m {
            t.of(|| build_file_groups(m));
            t.of(|| build_replaced_file_groups(m));
        }
        t.done(&mut info)?;
        info.label(if c.plan.is_some() { "with a table" } else { "parsers" });
        Ok(info)
    }
}
