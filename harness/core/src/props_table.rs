//! Replacement, partition filters, splits, read-optimized mode, changed slices, schemas and
//! concurrent use, over generated histories.

use crate::fail;
use crate::gen::{self, Opts};
use crate::pbt::Source;
use crate::props_read::plan_labels;
use crate::q::*;
use crate::runner::*;
use crate::sim::*;
use futures::future::BoxFuture;
use futures::FutureExt;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::storage::Storage;
use hudi_core::table::Table;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

fn tiers(n: (usize, usize), t: Tier) -> usize {
    if t == Tier::Quick {
        n.0
    } else {
        n.1
    }
}

pub const END: &str = "99999999999999999";

// ---------------------------------------------------------------- C04

#[derive(Serialize, Deserialize)]
pub struct ReplaceCase {
    pub plan: Plan,
}

pub struct Replace {
    pub n: (usize, usize),
}

impl Part for Replace {
    type Case = ReplaceCase;
    fn name(&self) -> &'static str {
        "replacements"
    }
    fn rule(&self) -> &'static str {
        "a history rich in clustering, insert overwrite and partition deletion; the rows and file slices are compared with the model at every instant and just before and after it, a clustering must leave the keys and values unchanged, and the clustering commits reported must be those made; non-trivial: at least one completed replacement of a live file group"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> ReplaceCase {
        let o = Opts { replace_heavy: true, big: false, clean: s.chance(1, 4), ..Opts::all() };
        ReplaceCase { plan: gen::plan(s, &o) }
    }
    fn run(&self, c: &ReplaceCase) -> R<Info> {
        let plan = &c.plan;
        let d = Scratch::new();
        let mut info = Info::default();
        let m = materialize(plan, d.path());
        plan_labels(&mut info, plan, &m);
        let t = open(&d.uri())?;
        if m.latest_completed().is_none() {
            return Ok(info);
        }
        let data_only = |rows: &[Row]| -> Vec<String> {
            let mut v: Vec<String> = rows.iter().map(|r| format!("{:?}", r.vals)).collect();
            v.sort();
            v
        };
        let mut times = BTreeSet::new();
        for op in &plan.ops {
            let ts = op.ts().to_string();
            times.insert(gen::shift(&ts, -1));
            times.insert(gen::shift(&ts, 1));
            times.insert(ts);
        }
        for at in times {
            if at < m.keep_from || (!m.keep_from.is_empty() && at.len() != m.keep_from.len()) {
                continue;
            }
            let want = m.snapshot(&plan.cfg, &at);
            let what = format!("as of {at}");
            let got = err(&what, block(t.read_snapshot_as_of(&at, &[])))?;
            same_batches(&what, &plan.cfg, &got, &all_rows(&want))?;
            let fs = err(&what, block(t.get_file_slices_as_of(&at, &[])))?;
            same_slices(&what, plan, &fs, &want)?;
            info.compared += 2;
        }
        let mut cluster = vec![];
        for i in &m.instants {
            if i.st != St::Completed || i.action != "replacecommit" {
                continue;
            }
            if i.op_type == "CLUSTER" {
                cluster.push(i.ts.clone());
                let before = gen::shift(&i.ts, -1);
                if before >= m.keep_from {
                    let a = data_only(&all_rows(&m.snapshot(&plan.cfg, &before)));
                    let b = data_only(&all_rows(&m.snapshot(&plan.cfg, &i.ts)));
                    if a != b {
                        panic!("HARNESS: a clustering changes the rows");
                    }
                }
            }
            if m.fgs.iter().any(|f| f.replaced_at.contains(&i.ts)) {
                info.nontrivial = true;
            }
        }
        for desc in [false, true] {
            let got = err("clustering commits", block(t.get_timeline().get_completed_clustering_commits(desc)))?;
            let got: Vec<String> = got.iter().map(|i| i.timestamp.clone()).collect();
            let mut want = cluster.clone();
            if desc {
                want.reverse();
            }
            if got != want {
                fail!("clustering", "clustering commits (desc {desc}): {got:?}, expected {want:?}");
            }
            info.compared += 1;
        }
        info.label_if(!cluster.is_empty(), "clustering");
        info.label_if(
            m.fgs.iter().any(|f| m.fgs.iter().any(|g| g.fid == f.fid && g.part != f.part && g.replaced_at != f.replaced_at)),
            "same file id elsewhere, not replaced",
        );
        Ok(info)
    }
}

pub fn slice_key(f: &FileSlice) -> (String, String, String) {
    (f.partition_path.clone(), f.file_id().to_string(), f.base_file.file_name())
}

pub fn seen_key(plan: &Plan, s: &Seen) -> (String, String, String) {
    (plan.part_path(s.part), s.fid.clone(), s.base_name.clone())
}

/// The same file groups with the same base files.
pub fn same_slices(what: &str, plan: &Plan, got: &[FileSlice], want: &[Seen]) -> R<()> {
    let mut g: Vec<_> = got.iter().map(slice_key).collect();
    let mut w: Vec<_> = want.iter().map(|s| seen_key(plan, s)).collect();
    g.sort();
    w.sort();
    if g != w {
        fail!("slices", "{what}: file slices {g:?}, expected {w:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Query {
    pub filters: Vec<(String, String, String)>,
    pub at: Option<String>,
}

#[derive(Serialize, Deserialize)]
pub struct FilterCase {
    pub plan: Plan,
    pub queries: Vec<Query>,
}

pub struct Filters {
    pub n: (usize, usize),
}

/// A literal of a filter on a column of type `ty`.
pub fn filter_value(s: &mut Source, ty: Ty, known: &[Val]) -> String {
    let known: Vec<&Val> = known.iter().filter(|v| **v != Val::N).collect();
    let v = if !known.is_empty() && s.chance(3, 4) {
        (*s.pick(&known)).clone()
    } else {
        gen::part_val(s, ty, true)
    };
    let v = match (v, ty) {
        (Val::I(i), Ty::I32 | Ty::I64 | Ty::Date | Ty::Dec) => Val::I(i + s.range(0, 2) - 1),
        (Val::F(f), _) => Val::F(f + s.range(-1, 1) as f64 / 4.0),
        (v, _) => v,
    };
    part_str_ty(&v, ty).unwrap_or_default()
}

pub fn parse_val(ty: Ty, v: &str) -> Option<Val> {
    Some(match ty {
        Ty::Str => Val::S(v.to_string()),
        Ty::I32 => Val::I(v.parse::<i32>().ok()? as i64),
        Ty::I64 => Val::I(v.parse::<i64>().ok()?),
        Ty::Bool => Val::B(match v {
            "true" => true,
            "false" => false,
            _ => return None,
        }),
        Ty::Date => Val::I(
            chrono::NaiveDate::parse_from_str(v, "%Y-%m-%d")
                .ok()?
                .signed_duration_since(chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap())
                .num_days(),
        ),
        Ty::F32 | Ty::F64 => Val::F(v.parse::<f64>().ok()?),
        Ty::Dec => Val::I((v.parse::<f64>().ok()? * 1000.0).round() as i64),
        _ => return None,
    })
}

pub fn typed_cmp(a: &Val, b: &Val) -> Ordering {
    match (a, b) {
        (Val::B(a), Val::B(b)) => a.cmp(b),
        _ => val_cmp(a, b),
    }
}

pub fn op_holds(op: &str, o: Ordering) -> bool {
    match op {
        "=" => o.is_eq(),
        "!=" => o.is_ne(),
        "<" => o.is_lt(),
        "<=" => o.is_le(),
        ">" => o.is_gt(),
        ">=" => o.is_ge(),
        _ => panic!("HARNESS: operator"),
    }
}

pub const OPS: [&str; 6] = ["=", "!=", "<", "<=", ">", ">="];

/// Whether the partition satisfies the filters: `None` if one of them is invalid.
pub fn part_matches(plan: &Plan, part: usize, filters: &[(String, String, String)]) -> Option<bool> {
    let mut all = true;
    for (f, op, v) in filters {
        let k = plan.cfg.parts.iter().position(|c| &plan.cfg.cols[*c].name == f)?;
        if !OPS.contains(&op.as_str()) {
            return None;
        }
        let lit = parse_val(plan.cfg.cols[plan.cfg.parts[k]].ty, v)?;
        let holds = match &plan.partitions[part][k] {
            // The path says the same of null and of empty text, which is compared as the path has it.
            Val::N if matches!(lit, Val::S(_)) => op_holds(op, typed_cmp(&Val::S(NULL_PARTITION.into()), &lit)),
            Val::N => false,
            v => op_holds(op, typed_cmp(v, &lit)),
        };
        all &= holds;
    }
    Some(all)
}

pub fn gen_filters(s: &mut Source, plan: &Plan, invalid: bool) -> Vec<(String, String, String)> {
    let n = 1 + s.weighted(&[4, 3, 1]);
    (0..n)
        .map(|_| {
            let k = s.idx(plan.cfg.parts.len());
            let c = &plan.cfg.cols[plan.cfg.parts[k]];
            let known: Vec<Val> = plan.partitions.iter().map(|p| p[k].clone()).collect();
            let v = filter_value(s, c.ty, &known);
            let op = s.pick(&OPS).to_string();
            if invalid && s.chance(1, 12) {
                match s.below(4) {
                    0 => ("nope".into(), op, v),
                    1 => (c.name.clone(), s.pick(&["??", "like", "", "==", "=>", "in"]).to_string(), v),
                    // arrow casts some more texts to decimals.
                    2 if c.ty == Ty::Dec => (c.name.clone(), op, "abc".to_string()),
                    2 if c.ty != Ty::Str => (c.name.clone(), op, s.pick(&["abc", "", "1.5x", "2024-13-01"]).to_string()),
                    _ => (c.name.to_uppercase(), op, v),
                }
            } else {
                (c.name.clone(), op, v)
            }
        })
        .collect()
}

fn refs(f: &[(String, String, String)]) -> Vec<(&str, &str, &str)> {
    f.iter().map(|(a, b, c)| (a.as_str(), b.as_str(), c.as_str())).collect()
}

impl Part for Filters {
    type Case = FilterCase;
    fn name(&self) -> &'static str {
        "partition filters"
    }
    fn rule(&self) -> &'static str {
        "a history over one to three partition fields of any type and style, then filtered snapshot and time-travel reads, listings and splits compared with the model's rows of the partitions whose typed values satisfy all filters; invalid fields, operators and literals must be errors; non-trivial: a filter list that keeps some but not all partitions holding rows"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> FilterCase {
        let o = Opts {
            partitioned: Some(true),
            min_parts: 3,
            max_ops: 5,
            max_rows: 4,
            big: false,
            ..Opts::all()
        };
        let plan = gen::plan(s, &o);
        let m = Model::of(&plan);
        let n = s.usize(2, 8);
        let queries = (0..n)
            .map(|_| Query {
                filters: gen_filters(s, &plan, true),
                at: if s.chance(1, 3) { Some(gen::as_of(s, &plan, &m)) } else { None },
            })
            .collect();
        FilterCase { plan, queries }
    }
    fn run(&self, c: &FilterCase) -> R<Info> {
        let plan = &c.plan;
        let d = Scratch::new();
        let mut info = Info::default();
        let m = materialize(plan, d.path());
        plan_labels(&mut info, plan, &m);
        info.label_if(plan.cfg.hive, "hive-style");
        info.label_if(plan.cfg.urlenc, "url-encoded");
        let t = open(&d.uri())?;
        let Some(latest) = m.latest_completed().map(|i| i.ts.clone()) else { return Ok(info) };
        for q in &c.queries {
            let at = q.at.clone().unwrap_or(latest.clone());
            let seen = m.snapshot(&plan.cfg, &at);
            let f = refs(&q.filters);
            let what = format!("filters {f:?} as of {:?}", q.at);
            let verdicts: Vec<Option<bool>> =
                (0..plan.partitions.len()).map(|p| part_matches(plan, p, &q.filters)).collect();
            if verdicts[0].is_none() {
                info.label("invalid filter");
                let r = block(t.read_snapshot_as_of(&at, &f));
                if let Ok(b) = r {
                    fail!("accepted", "{what}: accepted, {} batches", b.len());
                }
                if block(t.get_file_slices(&f)).is_ok() || block(t.get_file_slices_splits(2, &f)).is_ok() {
                    fail!("accepted", "{what}: accepted by a listing");
                }
                info.compared += 1;
                continue;
            }
            let want: Vec<Seen> = seen.iter().filter(|s| verdicts[s.part] == Some(true)).cloned().collect();
            let (got, fs, sp) = match &q.at {
                None => (
                    err(&what, block(t.read_snapshot(&f)))?,
                    err(&what, block(t.get_file_slices(&f)))?,
                    err(&what, block(t.get_file_slices_splits(2, &f)))?,
                ),
                Some(at) => (
                    err(&what, block(t.read_snapshot_as_of(at, &f)))?,
                    err(&what, block(t.get_file_slices_as_of(at, &f)))?,
                    err(&what, block(t.get_file_slices_splits_as_of(2, at, &f)))?,
                ),
            };
            same_batches(&what, &plan.cfg, &got, &all_rows(&want))?;
            same_slices(&what, plan, &fs, &want)?;
            same_slices(&what, plan, &sp.concat(), &want)?;
            info.compared += 3;
            if !want.is_empty() && want.len() < seen.len() {
                info.nontrivial = true;
            }
        }
        Ok(info)
    }
}

// ---------------------------------------------------------------- C06

#[derive(Serialize, Deserialize)]
pub struct SplitCase {
    pub plan: Plan,
    pub splits: Vec<(usize, Option<String>, Vec<(String, String, String)>)>,
}

pub struct Splits {
    pub n: (usize, usize),
}

impl Part for Splits {
    type Case = SplitCase;
    fn name(&self) -> &'static str {
        "splits"
    }
    fn rule(&self) -> &'static str {
        "a history with many file groups, then splits into n parts for several n, times and filters: parts are non-empty, at most max(n,1), none larger than the ceiling of slices/n, and together list each expected slice once; reading the parts gives the model's rows; non-trivial: more than one part"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> SplitCase {
        let o = Opts { max_ops: 6, max_rows: 6, many_groups: true, big: false, ..Opts::all() };
        let plan = gen::plan(s, &o);
        let m = Model::of(&plan);
        let k = s.usize(2, 6);
        let splits = (0..k)
            .map(|_| {
                let n = match s.weighted(&[6, 2, 1, 1]) {
                    0 => s.usize(1, 12),
                    1 => 0,
                    2 => s.usize(13, 2000),
                    _ => usize::MAX,
                };
                let at = if s.chance(1, 3) { Some(gen::as_of(s, &plan, &m)) } else { None };
                let f = if plan.cfg.partitioned() && s.chance(1, 3) { gen_filters(s, &plan, false) } else { vec![] };
                (n, at, f)
            })
            .collect();
        SplitCase { plan, splits }
    }
    fn run(&self, c: &SplitCase) -> R<Info> {
        let plan = &c.plan;
        let d = Scratch::new();
        let mut info = Info::default();
        let m = materialize(plan, d.path());
        let t = open(&d.uri())?;
        let latest = m.latest_completed().map(|i| i.ts.clone());
        for (n, at, filters) in &c.splits {
            let f = refs(filters);
            let what = format!("{n} splits as of {at:?} with {f:?}");
            if latest.is_none() && at.is_some() {
                continue;
            }
            let want: Vec<Seen> = match at.as_ref().or(latest.as_ref()) {
                None => vec![],
                Some(t) => m
                    .snapshot(&plan.cfg, t)
                    .into_iter()
                    .filter(|s| part_matches(plan, s.part, filters) == Some(true))
                    .collect(),
            };
            let sp = match at {
                None => err(&what, block(t.get_file_slices_splits(*n, &f)))?,
                Some(a) => err(&what, block(t.get_file_slices_splits_as_of(*n, a, &f)))?,
            };
            let n1 = (*n).max(1);
            if sp.len() > n1 || sp.iter().any(|p| p.is_empty()) {
                fail!("shape", "{what}: parts of sizes {:?}", sp.iter().map(|p| p.len()).collect::<Vec<_>>());
            }
            let cap = want.len().div_ceil(n1);
            if sp.iter().any(|p| p.len() > cap) {
                fail!("balance", "{what}: parts of sizes {:?}, at most {cap} expected", sp.iter().map(|p| p.len()).collect::<Vec<_>>());
            }
            same_slices(&what, plan, &sp.concat(), &want)?;
            // Reading part by part, as an engine does.
            let end = at.clone().or(latest.clone()).unwrap_or_default();
            let reader = err(
                "reader",
                t.create_file_group_reader_with_options([("hoodie.read.file_group.end_timestamp", end.as_str())]),
            )?;
            let mut got = vec![];
            for p in &sp {
                for fs in p {
                    got.push(err(&what, block(reader.read_file_slice(fs)))?);
                }
            }
            same_batches(&what, &plan.cfg, &got, &all_rows(&want))?;
            info.compared += 4;
            info.nontrivial |= sp.len() > 1;
            info.label_if(want.len() > 8, "over 8 slices");
        }
        Ok(info)
    }
}

// ---------------------------------------------------------------- C14

#[derive(Serialize, Deserialize)]
pub struct RoCase {
    pub plan: Plan,
    pub at: Vec<String>,
    /// Spelling of the option's value.
    pub on: String,
    #[serde(default)]
    pub windows: Vec<(String, Option<String>)>,
}

pub struct ReadOptimized {
    pub n: (usize, usize),
}

pub const RO: &str = "hoodie.read.use.read_optimized.mode";

impl Part for ReadOptimized {
    type Case = RoCase;
    fn name(&self) -> &'static str {
        "read-optimized"
    }
    fn rule(&self) -> &'static str {
        "a merge-on-read history (sometimes copy-on-write) read in read-optimized mode, set on the table and on the reader, as of several times and in windows, compared with the model's base file rows; with the mode off explicitly the merged rows are expected; non-trivial: the base rows differ from the merged rows"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> RoCase {
        let o = Opts { mor: Some(!s.chance(1, 8)), big: false, log_heavy: !s.chance(1, 4), ..Opts::all() };
        let plan = gen::plan(s, &o);
        let m = Model::of(&plan);
        let n = s.usize(1, 4);
        let at = (0..n).map(|_| gen::as_of(s, &plan, &m)).collect();
        let on = ["true", "TRUE", "True"][s.weighted(&[14, 1, 1])].to_string();
        let ts: Vec<String> = plan.ops.iter().map(|o| o.ts().to_string()).collect();
        let n = s.usize(0, 3);
        let windows = (0..n)
            .map(|_| {
                let t = s.pick(&ts).clone();
                let start = if s.chance(1, 3) { gen::shift(&t, -1) } else { t };
                (start, if s.chance(1, 2) { Some(gen::as_of(s, &plan, &m)) } else { None })
            })
            .collect();
        RoCase { plan, at, on, windows }
    }
    fn run(&self, c: &RoCase) -> R<Info> {
        let plan = &c.plan;
        let d = Scratch::new();
        let mut info = Info::default();
        let m = materialize(plan, d.path());
        plan_labels(&mut info, plan, &m);
        let on = if c.on == "true" { "true" } else { c.on.as_str() };
        let ro = match block(Table::new_with_options(&d.uri(), [(RO, on)])) {
            Ok(t) => t,
            // Spellings other than true and false may be rejected, but not misread.
            Err(_) if on != "true" => return Ok(info),
            Err(e) => fail!("error", "opening in read-optimized mode: {e}"),
        };
        let plain = open(&d.uri())?;
        let off = open_with(&d.uri(), &[(RO, "false")])?;
        let Some(latest) = m.latest_completed().map(|i| i.ts.clone()) else { return Ok(info) };
        let mut at = c.at.clone();
        at.push(latest.clone());
        for a in &at {
            let seen = m.snapshot(&plan.cfg, a);
            let base: Vec<Row> = seen.iter().flat_map(|s| s.base_only_rows.clone()).collect();
            let got = err("read-optimized", block(ro.read_snapshot_as_of(a, &[])))?;
            same_batches(&format!("read-optimized as of {a}"), &plan.cfg, &got, &base)?;
            if *a == latest {
                let got = err("read-optimized", block(ro.read_snapshot(&[])))?;
                same_batches("read-optimized", &plan.cfg, &got, &base)?;
                let got = err("mode off", block(off.read_snapshot(&[])))?;
                same_batches("read-optimized mode off", &plan.cfg, &got, &all_rows(&seen))?;
            }
            let fs = err("slices", block(plain.get_file_slices_as_of(a, &[])))?;
            let r_on = err("reader", plain.create_file_group_reader_with_options([
                (RO, on),
                ("hoodie.read.file_group.end_timestamp", a.as_str()),
            ]))?;
            let r_off = err("reader", ro.create_file_group_reader_with_options([
                (RO, "false"),
                ("hoodie.read.file_group.end_timestamp", a.as_str()),
            ]))?;
            let mut g_on = vec![];
            let mut g_off = vec![];
            for f in &fs {
                g_on.push(err("reader on", block(r_on.read_file_slice(f)))?);
                g_off.push(err("reader off", block(r_off.read_file_slice(f)))?);
            }
            same_batches(&format!("reader read-optimized as of {a}"), &plan.cfg, &g_on, &base)?;
            same_batches(&format!("reader with the mode off as of {a}"), &plan.cfg, &g_off, &all_rows(&seen))?;
            info.compared += 3;
            if expect_rows(&plan.cfg, &base) != expect_rows(&plan.cfg, &all_rows(&seen)) {
                info.nontrivial = true;
            }
        }
        for (st, end) in c.windows.iter().filter(|_| plan.cfg.meta) {
            let e = end.clone().unwrap_or(latest.clone());
            let seen = m.seen(&plan.cfg, Some(st), &e);
            let base: Vec<Row> = seen.iter().flat_map(|s| s.base_only_rows.clone()).collect();
            let what = format!("read-optimized in ({st}, {end:?}]");
            let got = block(ro.read_incremental_records(st, end.as_deref()));
            if got.is_err() && m.baseless_in(st, &e) {
                info.label("refused: logs upon a pending compaction");
                continue;
            }
            same_batches(&what, &plan.cfg, &err(&what, got)?, &base)?;
            let got = err(&what, block(off.read_incremental_records(st, end.as_deref())))?;
            same_batches(&format!("mode off in ({st}, {end:?}]"), &plan.cfg, &got, &all_rows(&seen))?;
            info.compared += 2;
            let differs = expect_rows(&plan.cfg, &base) != expect_rows(&plan.cfg, &all_rows(&seen));
            info.nontrivial |= differs;
            info.label_if(differs, "differs in a window");
        }
        Ok(info)
    }
}

// ---------------------------------------------------------------- C17

#[derive(Serialize, Deserialize)]
pub struct BetweenCase {
    pub plan: Plan,
    pub windows: Vec<(Option<String>, Option<String>)>,
}

pub struct Between {
    pub n: (usize, usize),
}

impl Part for Between {
    type Case = BetweenCase;
    fn name(&self) -> &'static str {
        "changed slices"
    }
    fn rule(&self) -> &'static str {
        "a history, then listings of the file slices changed in windows with and without bounds, compared with the model: partition, file id, base file and the log files known to the commits of the window; every path returned must exist; non-trivial: a window that returns some but not all live file groups"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> BetweenCase {
        let o = Opts { big: false, log_heavy: s.chance(1, 3), ..Opts::all() };
        let plan = gen::plan(s, &o);
        let m = Model::of(&plan);
        let ts: Vec<String> = plan.ops.iter().map(|o| o.ts().to_string()).collect();
        let n = s.usize(2, 6);
        let windows = (0..n)
            .map(|_| {
                let end = if s.chance(1, 2) { Some(gen::as_of(s, &plan, &m)) } else { None };
                let start = match s.weighted(&[4, 2, 2]) {
                    0 => Some(s.pick(&ts).clone()),
                    1 => Some(gen::shift(&s.pick(&ts).clone(), -1)),
                    _ => None,
                };
                (start, end)
            })
            .collect();
        BetweenCase { plan, windows }
    }
    fn run(&self, c: &BetweenCase) -> R<Info> {
        let plan = &c.plan;
        let d = Scratch::new();
        let mut info = Info::default();
        let m = materialize(plan, d.path());
        plan_labels(&mut info, plan, &m);
        let t = open(&d.uri())?;
        // Log files known to each completed commit, per slice.
        type K = (usize, String, String);
        let mut known: Vec<(String, K, Vec<String>)> = vec![];
        let mut running = Model::default();
        for op in &plan.ops {
            running.apply(op);
            if let Op::Commit { ts, writes, fate: Fate::Done, .. } = op {
                for w in writes {
                    if let Put::Log { base_ts, .. } = &w.put {
                        let fg = running.fg(w.part, &w.fid).unwrap();
                        let s = fg.slices.iter().find(|s| &s.base_ts == base_ts).unwrap();
                        known.push((
                            ts.clone(),
                            (w.part, w.fid.clone(), base_ts.clone()),
                            match &w.put {
                                Put::Log { name, .. } if plan.cfg.own_stats => vec![name.clone()],
                                _ => s.logs.iter().map(|l| l.name.clone()).collect(),
                            },
                        ));
                    }
                }
            }
        }
        let latest = m.latest_completed().map(|i| i.ts.clone());
        for (st, end) in &c.windows {
            let what = format!("slices changed in ({st:?}, {end:?}]");
            let got = block(t.get_file_slices_between(st.as_deref(), end.as_deref()));
            let start = in_millis(&st.clone().unwrap_or("19700101000000000".into()));
            if got.is_err() && m.baseless_in(&start, end.as_deref().unwrap_or(END)) {
                info.label("refused: logs upon a pending compaction");
                continue;
            }
            let got = err(&what, got)?;
            let Some(latest) = &latest else {
                if !got.is_empty() {
                    fail!("slices", "{what}: {} slices in an empty table", got.len());
                }
                continue;
            };
            let e = in_millis(&end.clone().unwrap_or(latest.clone()));
            if e < m.keep_from {
                continue;
            }
            let want = m.seen(&plan.cfg, Some(&start), &e);
            same_slices(&what, plan, &got, &want)?;
            for w in &want {
                let g = got.iter().find(|g| slice_key(g) == seen_key(plan, w)).unwrap();
                let mut logs = BTreeSet::new();
                for (ts, k, names) in &known {
                    if ts > &start
                        && ts <= &e
                        && m.completed(ts)
                        && *k == (w.part, w.fid.clone(), w.base_ts.clone())
                    {
                        logs.extend(names.iter().cloned());
                    }
                }
                let gl: BTreeSet<String> = g.log_files.iter().map(|l| l.file_name()).collect();
                if gl != logs {
                    fail!("logs", "{what}: log files {gl:?} of {:?}, expected {logs:?}", slice_key(g));
                }
                let mut paths = vec![err("path", g.base_file_relative_path())?];
                for l in &g.log_files {
                    paths.push(err("path", g.log_file_relative_path(l))?);
                }
                for p in paths {
                    if !d.path().join(&p).is_file() {
                        fail!("missing", "{what}: {p} does not exist");
                    }
                }
                info.label_if(logs.len() > 1, "several log files");
                info.compared += 1;
            }
            let live = m.snapshot(&plan.cfg, &e).len();
            info.nontrivial |= !want.is_empty() && want.len() < live;
        }
        Ok(info)
    }
}

// ---------------------------------------------------------------- C19

pub struct Schemas {
    pub n: (usize, usize),
}

impl Part for Schemas {
    type Case = Plan;
    fn name(&self) -> &'static str {
        "schemas"
    }
    fn rule(&self) -> &'static str {
        "a history; after every operation the table is opened afresh and its schema, avro schema and partition schema compared with the configuration and with the schema of the rows returned; non-trivial: a history whose latest commit is a deltacommit with logs, a replacement or has no files"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> Plan {
        let replace_heavy = s.chance(1, 3);
        gen::plan(s, &Opts { big: false, replace_heavy, ..Opts::all() })
    }
    fn run(&self, plan: &Plan) -> R<Info> {
        let d = Scratch::new();
        let mut info = Info::default();
        let empty = Plan { ops: vec![], ..plan.clone() };
        let mut m = materialize(&empty, d.path());
        let avro_want = avro_schema(&plan.cfg, false);
        for (k, op) in plan.ops.iter().enumerate() {
            apply_files(plan, &mut m, op, d.path());
            if m.latest_completed().is_none() {
                continue;
            }
            let t = open(&d.uri())?;
            let what = format!("after op {k}");
            let got = err(&format!("schema {what}"), block(t.get_schema()))?;
            if m.instants.iter().any(|i| i.st == St::Completed && i.had_base) {
                same_schema(&format!("schema {what}"), &got, &plan.cfg.schema())?;
            } else {
                // No data file tells the arrow types: names and order suffice.
                let g: Vec<_> = got.fields().iter().map(|f| f.name().clone()).collect();
                let w: Vec<_> = plan.cfg.schema().fields().iter().map(|f| f.name().clone()).collect();
                if g != w {
                    fail!("schema", "schema {what}: {g:?}, expected {w:?}");
                }
            }
            let ps = err(&format!("partition schema {what}"), block(t.get_partition_schema()))?;
            let g: Vec<String> = ps.fields().iter().map(|f| format!("{}:{}", f.name(), f.data_type())).collect();
            let w: Vec<String> = plan
                .cfg
                .parts
                .iter()
                .map(|i| format!("{}:{}", plan.cfg.cols[*i].name, arrow_ty(plan.cfg.cols[*i].ty)))
                .collect();
            if g != w {
                fail!("partition schema", "partition schema {what}: {g:?}, expected {w:?}");
            }
            let a = err(&format!("avro schema {what}"), block(t.get_avro_schema()))?;
            let a: serde_json::Value = serde_json::from_str(&a)
                .map_err(|e| Fail::new("avro schema", format!("{what}: {e}: {a}")))?;
            if a != avro_want {
                fail!("avro schema", "avro schema {what}: {a}, expected {avro_want}");
            }
            info.compared += 3;
            if let Op::Commit { writes, action, fate: Fate::Done, .. } = op {
                if writes.is_empty()
                    || action == "replacecommit"
                    || writes.iter().any(|w| matches!(w.put, Put::Log { .. }))
                {
                    info.nontrivial = true;
                }
            }
        }
        plan_labels(&mut info, plan, &m);
        Ok(info)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EvolveCase {
    pub cfg: TableCfg,
    /// Per commit: whether it adds a column and of which type, and whether it writes files.
    pub steps: Vec<(Option<Ty>, bool)>,
}

impl EvolveCase {
    pub fn generate(s: &mut Source) -> EvolveCase {
        let o = Opts { mor: Some(false), partitioned: Some(false), ..Opts::all() };
        let cfg = gen::cfg(s, &o);
        let n = s.usize(1, 6);
        let steps = (0..n)
            .map(|_| {
                let add = if s.chance(1, 2) {
                    Some(*s.pick(&[Ty::I64, Ty::Str, Ty::F64, Ty::Bool, Ty::Date, Ty::Dec, Ty::StructIS, Ty::ListI64]))
                } else {
                    None
                };
                (add, !s.chance(1, 5))
            })
            .collect();
        EvolveCase { cfg, steps }
    }
}

/// The next commit of a table whose columns are added over time.
pub fn evolve_step(plan: &mut Plan, i: usize, add: Option<Ty>, files: bool) -> Op {
    if let Some(ty) = add {
        if files {
            plan.cfg.cols.push(col(&format!("n{i}"), ty, true));
        }
    }
    let ts = format!("202401010{i:05}000");
    let ts = if plan.cfg.ts14 { ts[..14].to_string() } else { ts };
    let rows: Vec<Row> = (0..3)
        .map(|k| Row {
            ct: ts.clone(),
            seq: format!("{ts}_0_{k}"),
            pp: String::new(),
            file: "f".into(),
            vals: plan
                .cfg
                .cols
                .iter()
                .map(|col| match (col.name.as_str(), col.ty) {
                    ("key", _) => Val::S(format!("k{k}")),
                    (_, Ty::I32 | Ty::I64 | Ty::Date | Ty::TsUs | Ty::Dec) => Val::I(k),
                    (_, Ty::F32 | Ty::F64) => Val::F(k as f64),
                    (_, Ty::Str) => Val::S("s".into()),
                    (_, Ty::Bool) => Val::B(true),
                    (_, Ty::Bin) => Val::Y(vec![1]),
                    (_, Ty::ListI64) => Val::L(vec![Val::I(k)]),
                    (_, Ty::StructIS) => Val::R(vec![Val::I(k), Val::N]),
                })
                .collect(),
        })
        .collect();
    Op::Commit {
        ts: ts.clone(),
        action: "commit".into(),
        op_type: "UPSERT".into(),
        writes: if files {
            vec![FgWrite {
                fid: "aaaaaaaa-0".into(),
                part: 0,
                put: Put::Base { name: format!("aaaaaaaa-0_0-1-1_{ts}.parquet"), rows: rows.clone() },
            }]
        } else {
            vec![]
        },
        replaced: vec![],
        fate: Fate::Done,
    }
}

/// Columns added over time.
pub struct Evolve {
    pub n: (usize, usize),
}

impl Part for Evolve {
    type Case = EvolveCase;
    fn name(&self) -> &'static str {
        "added columns"
    }
    fn rule(&self) -> &'static str {
        "a copy-on-write table whose commits add columns, rewriting the file group; after each commit the schemas are those of the latest commit, and rows come with it; non-trivial: at least one column added"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> EvolveCase {
        EvolveCase::generate(s)
    }
    fn run(&self, c: &EvolveCase) -> R<Info> {
        let d = Scratch::new();
        let mut info = Info::default();
        let mut plan = Plan { cfg: c.cfg.clone(), partitions: vec![vec![]], ops: vec![] };
        let mut m = materialize(&plan, d.path());
        let (mut with_files, mut i) = (None::<TableCfg>, 0);
        for (add, files) in &c.steps {
            i += 1;
            info.nontrivial |= add.is_some() && *files;
            let op = evolve_step(&mut plan, i, *add, *files);
            apply_files(&plan, &mut m, &op, d.path());
            let t = open(&d.uri())?;
            let what = format!("after commit {i}");
            if *files {
                with_files = Some(plan.cfg.clone());
            }
            if let Some(cfg) = &with_files {
                let got = err(&format!("schema {what}"), block(t.get_schema()))?;
                same_schema(&format!("schema {what}"), &got, &cfg.schema())?;
                let got = err("read", block(t.read_snapshot(&[])))?;
                for b in &got {
                    same_schema(&format!("rows {what}"), &b.schema(), &cfg.schema())?;
                }
            }
            let a = err("avro schema", block(t.get_avro_schema()))?;
            let a: serde_json::Value = serde_json::from_str(&a).map_err(|e| Fail::new("avro schema", e.to_string()))?;
            let w = avro_schema(&plan.cfg, false);
            if a != w {
                fail!("avro schema", "{what}: {a}, expected {w}");
            }
            info.compared += 2;
        }
        Ok(info)
    }
}

// ---------------------------------------------------------------- C21

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Call {
    Snapshot(Vec<(String, String, String)>),
    AsOf(String),
    Slices(Vec<(String, String, String)>),
    Splits(usize),
    Between(Option<String>, Option<String>),
    Incremental(String),
    Schema,
}

#[derive(Serialize, Deserialize)]
pub struct ConcCase {
    pub plan: Plan,
    /// Operations after this many happen once the table is open.
    pub opened_at: usize,
    pub calls: Vec<Call>,
    /// 0: current thread, else that many workers.
    pub workers: usize,
    pub parallelism: Option<usize>,
    pub clones: bool,
}

pub struct Concurrent {
    pub n: (usize, usize),
}

/// A canonical form of a call's answer.
fn answer<'a>(t: &'a Table, c: &'a Call) -> BoxFuture<'a, Result<Vec<String>, String>> {
    async move {
        let slices = |v: Vec<FileSlice>| -> Vec<String> {
            let mut o: Vec<String> = v.iter().map(|f| format!("{:?}", slice_key(f))).collect();
            o.sort();
            o
        };
        let e = |e: hudi_core::error::CoreError| e.to_string();
        Ok(match c {
            Call::Snapshot(f) => rows_of(&t.read_snapshot(&refs(f)).await.map_err(e)?),
            Call::AsOf(a) => rows_of(&t.read_snapshot_as_of(a, &[]).await.map_err(e)?),
            Call::Slices(f) => slices(t.get_file_slices(&refs(f)).await.map_err(e)?),
            Call::Splits(n) => slices(t.get_file_slices_splits(*n, &[]).await.map_err(e)?.concat()),
            Call::Between(a, b) => {
                slices(t.get_file_slices_between(a.as_deref(), b.as_deref()).await.map_err(e)?)
            }
            Call::Incremental(a) => rows_of(&t.read_incremental_records(a, None).await.map_err(e)?),
            Call::Schema => {
                let s = t.get_schema().await.map_err(e)?;
                s.fields().iter().map(|f| f.to_string()).collect()
            }
        })
    }
    .boxed()
}

impl Part for Concurrent {
    type Case = ConcCase;
    fn name(&self) -> &'static str {
        "concurrent use"
    }
    fn rule(&self) -> &'static str {
        "a table is opened part way through its history and asked a list of questions one at a time; then the rest of the history is written to it and the questions are asked again, all at once, on shared or cloned handles, on a current-thread or multi-thread runtime with some listing parallelism: the answers must not change, and must come; snapshots are also compared with the model; non-trivial: at least two concurrent calls and further writes that changed the table"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn threads(&self) -> usize {
        6
    }
    fn shrink_budget(&self) -> usize {
        80
    }
    fn generate(&self, s: &mut Source) -> ConcCase {
        let o = Opts { clean: false, restore: false, big: false, many_groups: s.chance(1, 2), ..Opts::all() };
        let plan = gen::plan(s, &o);
        let opened_at = s.usize(0, plan.ops.len());
        let before = Plan { ops: plan.ops[..opened_at].to_vec(), ..plan.clone() };
        let m = Model::of(&before);
        let k = s.usize(1, 10);
        let calls = (0..k)
            .map(|_| {
                let f = if plan.cfg.partitioned() && s.chance(1, 2) { gen_filters(s, &plan, false) } else { vec![] };
                match s.weighted(&[4, 2, 4, 2, 1, 1, 1]) {
                    0 => Call::Snapshot(f),
                    1 => Call::AsOf(gen::as_of_until(s, &before, &m)),
                    2 => Call::Slices(f),
                    3 => Call::Splits(s.usize(0, 5)),
                    4 => Call::Between(None, Some(gen::as_of_until(s, &before, &m))),
                    5 => Call::Incremental(gen::as_of_until(s, &before, &m)),
                    _ => Call::Schema,
                }
            })
            .collect();
        ConcCase {
            opened_at,
            calls,
            workers: *s.pick(&[0, 2, 4, 1]),
            parallelism: match s.weighted(&[3, 1, 1, 1, 1]) {
                0 => None,
                1 => Some(1),
                2 => Some(2),
                3 => Some(1000),
                _ => Some(0),
            },
            clones: s.chance(1, 2),
            plan,
        }
    }
    fn run(&self, c: &ConcCase) -> R<Info> {
        let plan = &c.plan;
        let d = Scratch::new();
        let mut info = Info::default();
        let before = Plan { ops: plan.ops[..c.opened_at].to_vec(), ..plan.clone() };
        let mut m = materialize(&before, d.path());
        let p = c.parallelism.map(|p| p.to_string());
        let opts: Vec<(&str, &str)> = p.iter().map(|p| ("hoodie.read.listing.parallelism", p.as_str())).collect();
        let t = match block(Table::new_with_options(&d.uri(), opts)) {
            Ok(t) => t,
            // Refusing it is fine; never answering is not.
            Err(_) if c.parallelism == Some(0) => return Ok(info),
            Err(e) => fail!("error", "opening: {e}"),
        };
        let want: Option<Vec<Row>> =
            m.latest_completed().map(|i| i.ts.clone()).map(|l| all_rows(&m.snapshot(&plan.cfg, &l)));
        let asked = |t: Table, calls: Vec<Call>, workers: usize, clones: bool| -> R<Vec<Result<Vec<String>, String>>> {
            // In a thread of its own, so that a deadlock is noticed.
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                let mut b = if workers == 0 {
                    tokio::runtime::Builder::new_current_thread()
                } else {
                    let mut b = tokio::runtime::Builder::new_multi_thread();
                    b.worker_threads(workers);
                    b
                };
                let rt = b.enable_all().build().expect("HARNESS: runtime");
                let r = rt.block_on(async move {
                    if workers > 0 {
                        let t = std::sync::Arc::new(t);
                        let hs: Vec<_> = calls
                            .into_iter()
                            .map(|c| {
                                let t = t.clone();
                                tokio::spawn(async move {
                                    if clones {
                                        let t2 = t.as_ref().clone();
                                        answer(&t2, &c).await
                                    } else {
                                        answer(&t, &c).await
                                    }
                                })
                            })
                            .collect();
                        let mut out = vec![];
                        for h in hs {
                            out.push(match h.await {
                                Ok(r) => r,
                                Err(e) => Err(format!("panicked: {e}")),
                            });
                        }
                        out
                    } else {
                        let handles: Vec<Table> = calls.iter().map(|_| t.clone()).collect();
                        futures::future::join_all(
                            calls.iter().zip(&handles).map(|(c, h)| answer(if clones { h } else { &t }, c)),
                        )
                        .await
                    }
                });
                let _ = tx.send(r);
            });
            match rx.recv_timeout(std::time::Duration::from_secs(40)) {
                Ok(r) => Ok(r),
                Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => Err(Fail::new("panic", "a concurrent call panicked")),
                Err(_) => Err(Fail::new("hang", "no answer within 40 s")),
            }
        };
        let mut alone = vec![];
        for call in &c.calls {
            alone.extend(asked(t.clone(), vec![call.clone()], 0, false)?);
        }
        let first_completed = m.latest_completed().map(|i| i.ts.clone());
        for op in &plan.ops[c.opened_at..] {
            apply_files(plan, &mut m, op, d.path());
        }
        let together = asked(t.clone(), c.calls.clone(), c.workers, c.clones)?;
        for ((call, a), b) in c.calls.iter().zip(&alone).zip(&together) {
            info.compared += 1;
            match (a, b) {
                (Ok(a), Ok(b)) if a == b => {}
                (Err(_), Err(_)) => {
                    info.label("error both times");
                }
                _ => {
                    let cut = |r: &Result<Vec<String>, String>| format!("{r:?}").chars().take(700).collect::<String>();
                    fail!("changed", "{call:?}: alone before the writes {}, together after {}", cut(a), cut(b));
                }
            }
            if let (Call::Snapshot(f), Ok(b), Some(w)) = (call, b, &want) {
                if f.is_empty() {
                    same("snapshot of the open table", b, &expect_rows(&plan.cfg, w))?;
                }
            }
        }
        info.label(format!("workers {}", c.workers));
        info.label(format!("parallelism {:?}", c.parallelism));
        info.label_if(first_completed.is_none(), "opened empty");
        info.nontrivial =
            c.calls.len() > 1 && m.latest_completed().map(|i| i.ts.clone()) != first_completed && first_completed.is_some();
        Ok(info)
    }
}

/// Keeps the unused imports of helpers shared with other modules honest.
#[allow(unused)]
fn _types(_: &BTreeMap<String, String>, _: &Storage) {}
