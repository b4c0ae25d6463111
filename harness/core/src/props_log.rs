//! C07 (record merging), C08 (visibility of log data), C09 (log block decoding).

use crate::gen::{self, Opts};
use crate::pbt::Source;
use crate::q::*;
use crate::runner::*;
use crate::sim::*;
use crate::{fail, props_read::plan_labels};
use arrow_array::RecordBatch;
use hudi_core::config::read::HudiReadConfig;
use hudi_core::config::table::HudiTableConfig;
use hudi_core::config::HudiConfigs;
use hudi_core::file_group::base_file::BaseFile;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::file_group::log_file::reader::LogFileReader;
use hudi_core::file_group::log_file::scanner::LogFileScanner;
use hudi_core::file_group::log_file::LogFile;
use hudi_core::file_group::reader::FileGroupReader;
use hudi_core::merge::record_merger::RecordMerger;
use hudi_core::storage::Storage;
use hudi_core::verif::InstantRange;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;
use std::sync::Arc;

fn tiers(n: (usize, usize), t: Tier) -> usize {
    match t {
        Tier::Quick => n.0,
        Tier::Thorough => n.1,
    }
}

/// A permutation drawn from the source; the identity is the simplest.
pub fn permutation(s: &mut Source, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in 0..n {
        let j = i + s.idx(n - i);
        v.swap(i, j);
    }
    v
}

// ---------------------------------------------------------------- C07

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Twist {
    None,
    /// The ordering, key or sequence column is not in the schema.
    NoColumn(String),
    /// Batch i lacks column j.
    Lacks(usize, usize),
    /// Batch i has its columns in another order.
    Reordered(usize, Vec<usize>),
    /// Batch i has one more column.
    Extra(usize),
    /// Batch i has the integer column c0 as text.
    Retyped(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MergeCase {
    pub cfg: TableCfg,
    /// Default when absent.
    pub strategy: Option<String>,
    pub rows: Vec<Row>,
    /// Order in which the rows are handed over, and where the batches end.
    pub order: Vec<usize>,
    pub cuts: Vec<usize>,
    pub order2: Vec<usize>,
    pub cuts2: Vec<usize>,
    pub twist: Twist,
}

pub struct Merge {
    pub n: (usize, usize),
}

pub fn order_cmp(a: &Val, b: &Val) -> Ordering {
    match (a, b) {
        (Val::F(x), Val::F(y)) => x.total_cmp(y),
        (Val::B(x), Val::B(y)) => x.cmp(y),
        (Val::Y(x), Val::Y(y)) => x.cmp(y),
        _ => val_cmp(a, b),
    }
}

pub fn bare_cfg(cols: Vec<Col>) -> TableCfg {
    TableCfg {
        mor: true,
        version: 6,
        meta: true,
        precombine: true,
        cols,
        parts: vec![],
        hive: false,
        urlenc: false,
        fmt: BlockFmt::Parquet,
        own_stats: false,
        append_logs: false,
        ts14: false,
        tz: None,
        merge_strategy: None,
        row_group: 0,
        skip_arrow_meta: false,
        crc_files: false,
        props: vec![],
    }
}

fn small(s: &mut Source, ty: Ty) -> Val {
    // A narrow domain, so that ordering values tie.
    match ty {
        Ty::I32 | Ty::I64 | Ty::Date | Ty::TsUs | Ty::Dec => {
            let wide = ty == Ty::I64;
            match s.weighted(&[8, 1, 1]) {
                0 => Val::I(s.range(-3, 3)),
                1 => Val::I(if wide { i64::MAX } else { i32::MAX as i64 }),
                _ => Val::I(if wide { i64::MIN } else { i32::MIN as i64 }),
            }
        }
        Ty::F32 | Ty::F64 => Val::F(*s.pick(&[0.0, -0.0, 1.5, -1.5, 3.0e38, -3.0e38, 1.0e-38])),
        Ty::Str => Val::S(s.pick(&["", "a", "b", "10", "9", "aa", "é", "Z"]).to_string()),
        Ty::Bool => Val::B(s.chance(1, 2)),
        Ty::Bin => Val::Y(s.pick(&[vec![], vec![0u8], vec![0, 0], vec![255], vec![1, 2]]).clone()),
        _ => panic!("HARNESS: ordering type"),
    }
}

impl Part for Merge {
    type Case = MergeCase;
    fn name(&self) -> &'static str {
        "merge batches"
    }
    fn rule(&self) -> &'static str {
        "versions of a few keys with ordering values of any type (nulls, extremes and ties included), handed to the merger in two orders and batchings, or with columns missing, reordered, added or retyped in one batch; non-trivial: some key has three or more versions in two or more batches"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> MergeCase {
        let ty = *s.pick(&[
            Ty::I64, Ty::I32, Ty::Str, Ty::F64, Ty::F32, Ty::Date, Ty::TsUs, Ty::Dec, Ty::Bool, Ty::Bin,
        ]);
        let mut cols = vec![
            col("key", Ty::Str, false),
            col("ts", ty, s.chance(1, 2)),
            col("c0", Ty::I64, true),
        ];
        for i in 1..s.usize(1, 4) {
            let t = *s.pick(&[
                Ty::I64, Ty::Str, Ty::F64, Ty::I32, Ty::Bool, Ty::F32, Ty::Date, Ty::Bin, Ty::TsUs,
                Ty::Dec, Ty::ListI64, Ty::StructIS,
            ]);
            let nullable = s.chance(2, 3);
            cols.push(col(&format!("c{i}"), t, nullable));
        }
        let at = permutation(s, cols.len());
        let cols: Vec<Col> = at.iter().map(|i| cols[*i].clone()).collect();
        let cfg = bare_cfg(cols);
        let max = if s.chance(1, 12) { 400 } else { 24 };
        let n = s.usize(0, max * s.size as usize);
        let nkeys = s.usize(1, 1 + n / 3);
        let mut cts: Vec<String> = vec![];
        for i in 0..s.usize(1, 8) {
            // Lengths agree, so text order is time order.
            cts.push(format!("202401{:02}{:02}0000{:03}", 1 + i * 2, s.below(24), s.below(1000)));
        }
        let rows = (0..n)
            .map(|k| {
                let ct = s.pick(&cts).clone();
                let vals = cfg
                    .cols
                    .iter()
                    .map(|c| match c.name.as_str() {
                        "key" => Val::S(match s.below(nkeys as u64) {
                            0 => String::new(),
                            k => format!("k{k}"),
                        }),
                        "ts" => {
                            if c.nullable && s.chance(1, 5) {
                                Val::N
                            } else {
                                small(s, c.ty)
                            }
                        }
                        _ => gen::val(s, c.ty, c.nullable),
                    })
                    .collect();
                Row {
                    seq: format!("{ct}_{}_{k}", s.below(12)),
                    ct,
                    pp: String::new(),
                    file: "f".into(),
                    vals,
                }
            })
            .collect();
        let cuts = |s: &mut Source| -> Vec<usize> { (0..s.usize(0, 6)).map(|_| s.idx(n + 1)).collect() };
        let order = permutation(s, n);
        let order2 = permutation(s, n);
        let (cuts, cuts2) = (cuts(s), cuts(s));
        let strategy = match s.weighted(&[4, 3, 2]) {
            0 => None,
            1 => Some("overwrite_with_latest".to_string()),
            _ => Some("append_only".to_string()),
        };
        let nb = cuts.len() + 1;
        let width = cfg.cols.len() + META.len();
        let twist = match s.weighted(&[12, 1, 1, 1, 1, 1]) {
            0 => Twist::None,
            1 => Twist::NoColumn(s.pick(&["ts", "_hoodie_record_key", "_hoodie_commit_seqno"]).to_string()),
            2 => Twist::Lacks(s.idx(nb), s.idx(width)),
            3 => Twist::Reordered(s.idx(nb), permutation(s, width)),
            4 => Twist::Extra(s.idx(nb)),
            _ => Twist::Retyped(s.idx(nb)),
        };
        MergeCase { cfg, strategy, rows, order, cuts, order2, cuts2, twist }
    }
    fn run(&self, c: &MergeCase) -> R<Info> {
        let mut info = Info::default();
        let mut opts = vec![("hoodie.table.precombine.field".to_string(), "ts".to_string())];
        if let Some(s) = &c.strategy {
            opts.push(("hoodie.table.record.merge.strategy".to_string(), s.clone()));
        }
        let append = c.strategy.as_deref() == Some("append_only");
        let merger = RecordMerger::new(Arc::new(HudiConfigs::new(opts)));
        let mut schema = c.cfg.schema();
        let split = |order: &[usize], cuts: &[usize]| -> Vec<RecordBatch> {
            let mut cuts = cuts.to_vec();
            cuts.sort();
            cuts.push(order.len());
            let mut at = 0;
            cuts.into_iter()
                .map(|end| {
                    let rows: Vec<Row> = order[at..end].iter().map(|i| c.rows[*i].clone()).collect();
                    at = end;
                    batch(&c.cfg, &rows)
                })
                .collect()
        };
        let without = |b: &RecordBatch, j: usize| {
            let keep: Vec<usize> = (0..b.num_columns()).filter(|k| *k != j).collect();
            b.project(&keep).expect("HARNESS: project")
        };
        let mut first = split(&c.order, &c.cuts);
        let pos = |name: &str| c.cfg.schema().index_of(name).unwrap();
        let (mut may_fail, mut must_fail) = (false, false);
        match &c.twist {
            Twist::None => {}
            Twist::NoColumn(n) => {
                let j = pos(n);
                first = first.iter().map(|b| without(b, j)).collect();
                schema = first[0].schema();
                must_fail = !append && !c.rows.is_empty();
                may_fail = true;
            }
            Twist::Lacks(i, j) => {
                first[*i] = without(&first[*i], *j);
                must_fail = first[*i].num_rows() > 0;
                may_fail = true;
            }
            Twist::Reordered(i, p) => {
                first[*i] = first[*i].project(p).expect("HARNESS: project");
                may_fail = true;
            }
            Twist::Extra(i) => {
                let b = &first[*i];
                let mut f: Vec<_> = b.schema().fields().iter().cloned().collect();
                f.insert(0, Arc::new(arrow_schema::Field::new("more", arrow_schema::DataType::Utf8, true)));
                let mut a = b.columns().to_vec();
                a.insert(0, arrow_array::new_null_array(&arrow_schema::DataType::Utf8, b.num_rows()));
                first[*i] = RecordBatch::try_new(Arc::new(arrow_schema::Schema::new(f)), a).unwrap();
                may_fail = true;
            }
            Twist::Retyped(i) => {
                let b = &first[*i];
                let j = pos("c0");
                let mut f: Vec<_> = b.schema().fields().iter().cloned().collect();
                f[j] = Arc::new(arrow_schema::Field::new("c0", arrow_schema::DataType::Utf8, true));
                let mut a = b.columns().to_vec();
                a[j] = arrow_array::new_null_array(&arrow_schema::DataType::Utf8, b.num_rows());
                first[*i] = RecordBatch::try_new(Arc::new(arrow_schema::Schema::new(f)), a).unwrap();
                must_fail = first[*i].num_rows() > 0;
                may_fail = true;
            }
        }
        let nb = first.len();
        let got = merger.merge_record_batches(&schema, &first);
        match got {
            Err(e) if !may_fail => fail!("error", "merging {nb} batches failed: {e}"),
            Err(_) => {
                info.label("rejected");
            }
            Ok(_) if must_fail => fail!("accepted", "{:?} was merged without an error", c.twist),
            Ok(b) => {
                if b.num_columns() == c.cfg.schema().fields().len() {
                    self.check(c, append, &b, "first")?;
                }
                info.label_if(may_fail, "twisted but merged");
            }
        }
        let b = err("merging", merger.merge_record_batches(&c.cfg.schema(), &split(&c.order2, &c.cuts2)))?;
        self.check(c, append, &b, "second")?;
        info.compared += 2;
        let mut per: HashMap<&str, BTreeSet<usize>> = HashMap::new();
        let mut count: HashMap<&str, usize> = HashMap::new();
        let mut cuts = c.cuts.clone();
        cuts.sort();
        for (p, i) in c.order.iter().enumerate() {
            let k = c.rows[*i].key(&c.cfg);
            per.entry(k).or_default().insert(cuts.iter().filter(|x| **x <= p).count());
            *count.entry(k).or_default() += 1;
        }
        info.nontrivial = per.iter().any(|(k, v)| v.len() >= 2 && count[k] >= 3);
        info.label_if(append, "append-only");
        info.label(format!("ordering by {:?}", c.cfg.cols[c.cfg.ts_idx()].ty));
        Ok(info)
    }
}

impl Merge {
    fn check(&self, c: &MergeCase, append: bool, got: &RecordBatch, which: &str) -> R<()> {
        same_schema(which, &got.schema(), &c.cfg.schema())?;
        if append {
            return same(&format!("{which} merge"), &rows_of(&[got.clone()]), &expect_rows(&c.cfg, &c.rows));
        }
        let mut best: BTreeMap<String, Vec<Row>> = BTreeMap::new();
        for r in &c.rows {
            let e = best.entry(r.key(&c.cfg).to_string()).or_default();
            let o = match e.first() {
                None => Ordering::Greater,
                Some(b) => order_cmp(r.ts(&c.cfg), b.ts(&c.cfg)).then(r.ct.cmp(&b.ct)),
            };
            match o {
                Ordering::Greater => *e = vec![r.clone()],
                Ordering::Equal => e.push(r.clone()),
                Ordering::Less => {}
            }
        }
        let mut got = fmt_rows(got);
        got.sort();
        if got.len() != best.len() {
            fail!("rows", "{which} merge: {} rows for {} keys: {got:?}", got.len(), best.len());
        }
        for (k, cands) in &best {
            let cands = fmt_rows(&batch(&c.cfg, cands));
            let n = got.iter().filter(|g| cands.contains(g)).count();
            if n != 1 {
                fail!("rows", "{which} merge: key {k:?}: {n} of the winners {cands:?} in {got:?}");
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C08

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Blk {
    Data { instant: String, fmt: BlockFmt, rows: Vec<Row> },
    Rollback { instant: String, target: String },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SliceCase {
    pub cfg: TableCfg,
    pub base_ts: String,
    pub base: Vec<Row>,
    pub files: Vec<(u32, String, Vec<Blk>)>,
    pub listed: Vec<usize>,
    pub ranges: Vec<(Option<String>, Option<String>)>,
    pub part: String,
}

pub struct SliceLogs {
    pub n: (usize, usize),
}

/// Column layouts both block formats carry exactly.
fn log_cfg(s: &mut Source) -> TableCfg {
    let mut cols = vec![col("key", Ty::Str, false), col("ts", Ty::I64, false)];
    for i in 0..s.usize(0, 3) {
        let t = *s.pick(&[Ty::I64, Ty::Str, Ty::F64, Ty::I32, Ty::Bool, Ty::F32, Ty::Date, Ty::Bin]);
        let nullable = s.chance(2, 3);
        cols.push(col(&format!("c{i}"), t, nullable));
    }
    let mut c = bare_cfg(cols);
    c.skip_arrow_meta = s.chance(1, 2);
    c.row_group = if s.chance(1, 3) { s.usize(1, 4) } else { 0 };
    c.precombine = !s.chance(1, 4);
    c.ts14 = s.chance(1, 4);
    c.tz = if s.chance(1, 3) { Some("UTC".into()) } else { None };
    c
}

fn log_rows(s: &mut Source, cfg: &TableCfg, ct: &str, n: usize) -> Vec<Row> {
    (0..n)
        .map(|i| Row {
            ct: ct.into(),
            seq: format!("{ct}_0_{i}"),
            pp: String::new(),
            file: "fid".into(),
            vals: cfg
                .cols
                .iter()
                .map(|c| match c.name.as_str() {
                    // Keys do not repeat within a write.
                    "key" => Val::S(format!("k{i}")),
                    "ts" => Val::I(s.range(0, 6)),
                    _ => gen::val(s, c.ty, c.nullable),
                })
                .collect(),
        })
        .collect()
}

fn write_blocks(cfg: &TableCfg, blocks: &[Blk]) -> Vec<u8> {
    let mut out = vec![];
    for b in blocks {
        out.extend(match b {
            Blk::Data { instant, fmt, rows } => data_block(cfg, instant, *fmt, rows),
            Blk::Rollback { instant, target } => rollback_block(instant, target),
        });
    }
    out
}

impl Part for SliceLogs {
    type Case = SliceCase;
    fn name(&self) -> &'static str {
        "slice logs"
    }
    fn rule(&self) -> &'static str {
        "one file slice with a base file and blocks of writes, some split over batches and files, some rolled back, laid out over up to 14 log files with rollback blocks anywhere, read over generated time ranges without a timeline; non-trivial: a rollback and a range that each leave out a block while another stays"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> SliceCase {
        let cfg = log_cfg(s);
        let stamp = |day: u64, ms: u64| {
            let t = format!("202401{:02}0930{:02}", 1 + day, day % 60);
            if cfg.ts14 {
                t
            } else {
                format!("{t}{ms:03}")
            }
        };
        let n_inst = s.usize(1, 10);
        let insts: Vec<String> = (0..n_inst).map(|i| stamp(i as u64 + 1, s.below(1000))).collect();
        let base_ts = stamp(0, s.below(1000));
        let nb = s.usize(0, 5);
        let mut base = log_rows(s, &cfg, &base_ts, nb);
        for r in &mut base {
            // Rows carried over from earlier base files.
            if s.chance(1, 3) {
                r.ct = if cfg.ts14 { "20231201000000".into() } else { "20231201000000000".into() };
                r.seq = format!("{}_0_0", r.ct);
            }
        }
        let mut blocks: Vec<Blk> = vec![];
        for ts in &insts {
            match s.weighted(&[6, 2]) {
                1 if !blocks.is_empty() => {
                    let done: Vec<String> = blocks
                        .iter()
                        .filter_map(|b| match b {
                            Blk::Data { instant, .. } => Some(instant.clone()),
                            _ => None,
                        })
                        .collect();
                    let target = if done.is_empty() || s.chance(1, 8) {
                        // Rolls back a write that left nothing here.
                        stamp(28, 0)
                    } else {
                        s.pick(&done).clone()
                    };
                    for _ in 0..1 + s.weighted(&[5, 1]) {
                        blocks.push(Blk::Rollback { instant: ts.clone(), target: target.clone() });
                    }
                }
                _ => {
                    let n = s.usize(0, 6);
                    let first = s.usize(0, 4);
                    let mut rows = log_rows(s, &cfg, ts, n);
                    for r in &mut rows {
                        if let Val::S(k) = &mut r.vals[0] {
                            *k = format!("k{}", k[1..].parse::<usize>().unwrap() + first);
                        }
                    }
                    // One write may use several blocks.
                    let parts = 1 + s.weighted(&[5, 2, 1]);
                    let mut cut: Vec<usize> = (1..parts).map(|_| s.idx(rows.len() + 1)).collect();
                    cut.sort();
                    cut.push(rows.len());
                    let mut at = 0;
                    for c in cut {
                        blocks.push(Blk::Data {
                            instant: ts.clone(),
                            fmt: if s.chance(1, 3) { BlockFmt::Avro } else { BlockFmt::Parquet },
                            rows: rows[at..c].to_vec(),
                        });
                        at = c;
                    }
                }
            }
        }
        // Rollback blocks sit anywhere.
        for i in 0..blocks.len() {
            if matches!(blocks[i], Blk::Rollback { .. }) && s.chance(1, 3) {
                let b = blocks.remove(i);
                let j = s.idx(blocks.len() + 1);
                blocks.insert(j, b);
            }
        }
        let nf = s.usize(1, 14);
        let mut v = *s.pick(&[1u32, 1, 5, 9, 95]);
        let mut cuts: Vec<usize> = (1..nf).map(|_| s.idx(blocks.len() + 1)).collect();
        cuts.sort();
        cuts.push(blocks.len());
        let mut files = vec![];
        let mut at = 0;
        for c in cuts {
            let tok = format!("{}-{}-{}", s.below(3), s.below(30), s.below(30));
            files.push((v, tok, blocks[at..c].to_vec()));
            at = c;
            v += 1 + s.below(2) as u32;
        }
        let listed = permutation(s, files.len());
        let mut times: Vec<String> = insts.clone();
        times.push(base_ts.clone());
        for _ in 0..4 {
            times.push(stamp(s.below(14), s.below(1000)));
        }
        let ranges = (0..s.usize(1, 4))
            .map(|_| {
                let a = if s.chance(1, 2) { Some(s.pick(&times).clone()) } else { None };
                let b = if s.chance(2, 3) { Some(s.pick(&times).clone()) } else { None };
                (a, b)
            })
            .collect();
        let part = s.pick(&["", "p=1", "a/b"]).to_string();
        SliceCase { cfg, base_ts, base, files, listed, ranges, part }
    }
    fn run(&self, c: &SliceCase) -> R<Info> {
        let d = Scratch::new();
        let mut info = Info::default();
        let cfg = &c.cfg;
        let fid = "fid-0";
        let dir = d.path().join(&c.part);
        let base_name = format!("{fid}_0-1-2_{}.parquet", c.base_ts);
        put_file(&dir.join(&base_name), &parquet_bytes(cfg, &c.base));
        let mut names = vec![];
        for (v, tok, blocks) in &c.files {
            let n = format!(".{fid}_{}.log.{v}_{tok}", c.base_ts);
            put_file(&dir.join(&n), &write_blocks(cfg, blocks));
            names.push(n);
        }
        let mut slice = FileSlice::new(err("base name", BaseFile::from_str(&base_name))?, c.part.clone());
        for i in &c.listed {
            slice.log_files.insert(err("log name", LogFile::from_str(&names[*i]))?);
        }
        if slice.log_files.len() != names.len() {
            fail!("log files", "{} of {} log files in the slice", slice.log_files.len(), names.len());
        }
        let order: Vec<String> = slice.log_files.iter().map(|l| l.file_name()).collect();
        if order != names {
            fail!("log order", "log files in order {order:?}, expected {names:?}");
        }
        let undone: BTreeSet<&String> = c
            .files
            .iter()
            .flat_map(|f| &f.2)
            .filter_map(|b| match b {
                Blk::Rollback { target, .. } => Some(target),
                _ => None,
            })
            .collect();
        let mut table_opts: Vec<(String, String)> = vec![];
        if cfg.precombine {
            table_opts.push((HudiTableConfig::PrecombineField.as_ref().into(), "ts".into()));
        } else {
            table_opts.push((HudiTableConfig::RecordMergeStrategy.as_ref().into(), "append_only".into()));
        }
        let mut rcfg = cfg.clone();
        if !cfg.precombine {
            rcfg.merge_strategy = Some("append_only".into());
        }
        if let Some(tz) = &cfg.tz {
            table_opts.push((HudiTableConfig::TimelineTimezone.as_ref().into(), tz.clone()));
        }
        for (start, end) in &c.ranges {
            let inside = |t: &str| {
                start.as_deref().is_none_or(|s| t > s) && end.as_deref().is_none_or(|e| t <= e)
            };
            let mut rows: Vec<Row> =
                c.base.iter().filter(|r| start.is_none() || inside(&r.ct)).cloned().collect();
            let mut logs: Vec<Row> = vec![];
            let (mut kept, mut rolled, mut outside) = (0, 0, 0);
            for b in c.files.iter().flat_map(|f| &f.2) {
                if let Blk::Data { instant, rows: r, .. } = b {
                    if undone.contains(instant) {
                        rolled += 1;
                    } else if !inside(instant) {
                        outside += 1;
                    } else {
                        kept += 1;
                        logs.extend(r.iter().cloned());
                    }
                }
            }
            rows.extend(logs.iter().cloned());
            let want = merge_rows(&rcfg, rows);
            let mut opts = table_opts.clone();
            if let Some(s) = start {
                opts.push((HudiReadConfig::FileGroupStartTimestamp.as_ref().into(), s.clone()));
            }
            if let Some(e) = end {
                opts.push((HudiReadConfig::FileGroupEndTimestamp.as_ref().into(), e.clone()));
            }
            let what = format!("slice in ({start:?}, {end:?}]");
            let reader = err("reader", FileGroupReader::new_with_options(&d.uri(), opts))?;
            let got = err(&what, block(reader.read_file_slice(&slice)))?;
            same_batches(&what, cfg, &[got], &want)?;
            // The scanner alone, whatever order the files are given in.
            let mut confs = table_opts.clone();
            confs.push((HudiTableConfig::BasePath.as_ref().into(), d.uri()));
            let confs = Arc::new(HudiConfigs::new(confs));
            let storage =
                err("storage", Storage::new(Arc::new(HashMap::<String, String>::new()), confs.clone()))?;
            let paths: Vec<String> = c
                .listed
                .iter()
                .map(|i| if c.part.is_empty() { names[*i].clone() } else { format!("{}/{}", c.part, names[*i]) })
                .collect();
            let tz = cfg.tz.clone().unwrap_or("utc".into());
            let range = InstantRange::new(tz, start.clone(), end.clone(), false, true);
            let got = err("scan", block(LogFileScanner::new(confs, storage).scan(paths, &range)))?;
            let got: Vec<RecordBatch> = got.into_iter().flatten().collect();
            same(&format!("scan of {what}"), &rows_of(&got), &expect_rows(cfg, &logs))?;
            info.compared += 2;
            info.nontrivial |= kept > 0 && rolled > 0 && outside > 0;
            info.label_if(rolled > 0, "blocks rolled back");
            info.label_if(outside > 0, "blocks out of range");
        }
        info.label_if(names.len() > 9, "ten or more log files");
        info.label_if(!cfg.precombine, "append-only");
        Ok(info)
    }
}

/// The same history, its log blocks laid out over other log files.
pub struct Relayout {
    pub n: (usize, usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RelayoutCase {
    pub plan: Plan,
    pub times: Vec<String>,
    /// Consumed in turn: whether a block starts a new file, and by how much the version grows.
    pub dice: Vec<u64>,
}

/// Cuts a log file at its blocks.
pub fn split_blocks(b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut at = 0;
    while at < b.len() {
        let len = u64::from_be_bytes(b[at + 6..at + 14].try_into().unwrap()) as usize;
        let end = at + 14 + len;
        out.push(b[at..end].to_vec());
        at = end;
    }
    out
}

impl Part for Relayout {
    type Case = RelayoutCase;
    fn name(&self) -> &'static str {
        "log layout"
    }
    fn rule(&self) -> &'static str {
        "log-heavy merge-on-read histories with failed writes and rollbacks, read at generated times; then every slice's log blocks are redistributed over new log files with other versions and the same reads repeated; non-trivial: a layout with three or more log files in a slice and a write that must stay hidden"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> RelayoutCase {
        let o = Opts {
            mor: Some(true),
            log_heavy: true,
            big: false,
            replace: false,
            clean: false,
            max_ops: 14,
            ..Opts::all()
        };
        let plan = gen::plan(s, &o);
        let m = Model::of(&plan);
        let times = (0..s.usize(1, 4)).map(|_| gen::as_of(s, &plan, &m)).collect();
        let dice = (0..60).map(|_| s.below(6)).collect();
        RelayoutCase { plan, times, dice }
    }
    fn run(&self, c: &RelayoutCase) -> R<Info> {
        let plan = &c.plan;
        let d = Scratch::new();
        let mut info = Info::default();
        let m = materialize(plan, d.path());
        plan_labels(&mut info, plan, &m);
        let mut dice = c.dice.iter().cycle();
        let mut most = 0;
        for round in 0..2 {
            if round == 1 {
                for fg in &m.fgs {
                    for sl in &fg.slices {
                        let pdir = d.path().join(plan.part_path(fg.part));
                        let mut logs = sl.logs.clone();
                        logs.sort_by_key(|l| l.version);
                        let mut blocks = vec![];
                        for l in &logs {
                            let p = pdir.join(&l.name);
                            blocks.extend(split_blocks(&std::fs::read(&p).expect("HARNESS: log")));
                            std::fs::remove_file(&p).expect("HARNESS: log");
                        }
                        let mut v = 1 + 4 * *dice.next().unwrap();
                        let mut files = 0;
                        let mut cur: Vec<u8> = vec![];
                        let n = blocks.len();
                        for (i, b) in blocks.into_iter().enumerate() {
                            cur.extend(b);
                            if i + 1 == n || *dice.next().unwrap() >= 2 {
                                let name = format!(".{}_{}.log.{v}_7-7-7", fg.fid, sl.base_ts);
                                put_file(&pdir.join(name), &cur);
                                cur.clear();
                                files += 1;
                                v += 1 + *dice.next().unwrap() / 4;
                            }
                        }
                        most = most.max(files);
                    }
                }
            }
            let Some(l) = m.latest_completed() else { continue };
            let t = open(&d.uri())?;
            for ts in &c.times {
                if ts.as_str() < m.keep_from.as_str() {
                    continue;
                }
                let what = format!("round {round} as of {ts}");
                let got = err(&what, block(t.read_snapshot_as_of(ts, &[])))?;
                same_batches(&what, &plan.cfg, &got, &all_rows(&m.snapshot(&plan.cfg, ts)))?;
                info.compared += 1;
            }
            let what = format!("round {round} snapshot");
            let got = err(&what, block(t.read_snapshot(&[])))?;
            same_batches(&what, &plan.cfg, &got, &all_rows(&m.snapshot(&plan.cfg, &l.ts)))?;
            info.compared += 1;
            // Incremental reads take the log files from the commit metadata.
            if plan.cfg.meta && round == 0 && !m.baseless_in(&c.times[0], &l.ts) {
                let start = &c.times[0];
                let what = format!("round {round} incremental from {start}");
                let got = err(&what, block(t.read_incremental_records(start, None)))?;
                let want = m.seen(&plan.cfg, Some(start), &l.ts);
                same_batches(&what, &plan.cfg, &got, &all_rows(&want))?;
                info.compared += 1;
            }
        }
        let hidden = m.fgs.iter().flat_map(|f| &f.slices).flat_map(|s| &s.logs).flat_map(|l| &l.blocks).any(|b| !m.completed(&b.instant));
        info.nontrivial = most >= 3 && hidden;
        info.label_if(most > 9, "over nine log files after");
        info.label_if(hidden, "hidden blocks");
        Ok(info)
    }
}

// ---------------------------------------------------------------- C09

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct RawBlock {
    pub version: u32,
    /// `None` for a command block.
    pub data: Option<(BlockFmt, Vec<Row>)>,
    pub header: Vec<(u32, String)>,
    pub footer: Vec<(u32, String)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileCase {
    pub cfg: TableCfg,
    pub blocks: Vec<RawBlock>,
    pub ranges: Vec<(Option<String>, Option<String>)>,
}

pub struct Decode {
    pub n: (usize, usize),
}

const KEYS: [&str; 7] = [
    "InstantTime",
    "TargetInstantTime",
    "Schema",
    "CommandBlockType",
    "CompactedBlockTimes",
    "RecordPositions",
    "BlockIdentifier",
];

fn meta_text(s: &mut Source) -> String {
    match s.weighted(&[4, 2, 1, 1]) {
        0 => s.string_of(&["a", "0", ",", "#HUDI#", " "], 0, 5),
        1 => s.string_of(&["é", "日", "\0", "\n", "\u{1F600}"], 0, 5),
        2 => "y".repeat(s.usize(200, 3000)),
        _ => String::new(),
    }
}

impl Part for Decode {
    type Case = FileCase;
    fn name(&self) -> &'static str {
        "log files"
    }
    fn rule(&self) -> &'static str {
        "log files of any number of parquet, avro and command blocks, format versions 1 to 3, with arbitrary header and footer entries and row counts (beyond one decoder batch included), decoded over generated time ranges; non-trivial: two or more data blocks with rows, of both formats"
    }
    fn cases(&self, t: Tier) -> usize {
        tiers(self.n, t)
    }
    fn generate(&self, s: &mut Source) -> FileCase {
        let cfg = log_cfg(s);
        let n = s.usize(0, 6 * s.size as usize);
        let stamp = |day: u64, ms: u64| {
            let t = format!("202402{:02}235959", 1 + day % 28);
            if cfg.ts14 {
                t
            } else {
                format!("{t}{ms:03}")
            }
        };
        let blocks = (0..n)
            .map(|_| {
                let version = *s.pick(&[1u32, 1, 1, 2, 3]);
                let ts = stamp(s.below(28), s.below(1000));
                let data = if s.chance(1, 4) {
                    None
                } else {
                    let rows = match s.weighted(&[8, 1, 1]) {
                        0 => s.usize(0, 5),
                        1 => 0,
                        _ if s.chance(1, 3) => *s.pick(&[1023, 1024, 1025, 2048, 2500]),
                        _ => s.usize(5, 60),
                    };
                    let fmt = if s.chance(1, 2) { BlockFmt::Avro } else { BlockFmt::Parquet };
                    Some((fmt, log_rows(s, &cfg, &ts, rows)))
                };
                let mut header = vec![(0u32, ts.clone())];
                match &data {
                    Some((f, _)) => {
                        if *f == BlockFmt::Avro || s.chance(2, 3) {
                            header.push((2, avro_schema(&cfg, true).to_string()));
                        }
                        if s.chance(1, 6) {
                            header.push((1, meta_text(s)));
                        }
                    }
                    None => {
                        header.push((1, stamp(s.below(28), s.below(1000))));
                        header.push((3, "0".into()));
                        if s.chance(1, 6) {
                            header.push((2, meta_text(s)));
                        }
                    }
                }
                for k in 4..7u32 {
                    if s.chance(1, 5) {
                        header.push((k, meta_text(s)));
                    }
                }
                let p = permutation(s, header.len());
                let header = p.iter().map(|i| header[*i].clone()).collect();
                let mut footer = vec![];
                if version == 1 {
                    for k in 0..7u32 {
                        if s.chance(1, 10) {
                            footer.push((k, meta_text(s)));
                        }
                    }
                }
                RawBlock { version, data, header, footer }
            })
            .collect();
        let ranges = (0..s.usize(1, 3))
            .map(|_| {
                let a = if s.chance(1, 3) { Some(stamp(s.below(28), s.below(1000))) } else { None };
                let b = if s.chance(1, 2) { Some(stamp(s.below(28), s.below(1000))) } else { None };
                (a, b)
            })
            .collect();
        FileCase { cfg, blocks, ranges }
    }
    fn run(&self, c: &FileCase) -> R<Info> {
        let d = Scratch::new();
        let mut info = Info::default();
        let mut bytes = vec![];
        for b in &c.blocks {
            let (ty, content) = match &b.data {
                None => (0, vec![]),
                Some((BlockFmt::Avro, r)) => (3, avro_content(&c.cfg, r)),
                Some((BlockFmt::Parquet, r)) => (5, parquet_bytes(&c.cfg, r)),
            };
            bytes.extend(log_block_v(b.version, ty, &b.header, &content, &b.footer));
        }
        let name = ".fid-0_20240101000000000.log.1_0-0-0";
        put_file(&d.path().join(name), &bytes);
        let mut confs = vec![(HudiTableConfig::BasePath.as_ref().to_string(), d.uri())];
        if let Some(tz) = &c.cfg.tz {
            confs.push((HudiTableConfig::TimelineTimezone.as_ref().into(), tz.clone()));
        }
        let confs = Arc::new(HudiConfigs::new(confs));
        let storage = err("storage", Storage::new(Arc::new(HashMap::<String, String>::new()), confs.clone()))?;
        for (start, end) in &c.ranges {
            let range = InstantRange::new("utc".into(), start.clone(), end.clone(), false, true);
            let mut r = err("reader", block(LogFileReader::new(confs.clone(), storage.clone(), name)))?;
            let got = err("reading the log file", r.read_all_blocks(&range))?;
            let want: Vec<&RawBlock> = c
                .blocks
                .iter()
                .filter(|b| {
                    let t = &b.header.iter().find(|h| h.0 == 0).unwrap().1;
                    b.data.is_none()
                        || (start.as_ref().is_none_or(|s| t > s) && end.as_ref().is_none_or(|e| t <= e))
                })
                .collect();
            if got.len() != want.len() {
                fail!("blocks", "{} blocks in ({start:?}, {end:?}], expected {}", got.len(), want.len());
            }
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                let what = format!("block {i}");
                let ty = match &w.data {
                    None => "Command",
                    Some((BlockFmt::Avro, _)) => "AvroData",
                    Some((BlockFmt::Parquet, _)) => "ParquetData",
                };
                if format!("{:?}", g.block_type) != ty || format!("{:?}", g.format_version) != format!("V{}", w.version) {
                    fail!("block type", "{what} is {:?} {:?}, expected {ty} V{}", g.block_type, g.format_version, w.version);
                }
                let meta = |m: Vec<(String, String)>| m.into_iter().collect::<BTreeMap<_, _>>();
                let named = |m: &[(u32, String)]| {
                    meta(m.iter().map(|(k, v)| (KEYS[*k as usize].to_string(), v.clone())).collect())
                };
                let gh = meta(g.header.iter().map(|(k, v)| (format!("{k:?}"), v.clone())).collect());
                let gf = meta(g.footer.iter().map(|(k, v)| (format!("{k:?}"), v.clone())).collect());
                if gh != named(&w.header) || gf != named(&w.footer) {
                    fail!("block metadata", "{what}: {gh:?} {gf:?}, expected {:?} {:?}", w.header, w.footer);
                }
                if g.is_rollback_block() != w.data.is_none() {
                    fail!("block type", "{what}: rollback {}", g.is_rollback_block());
                }
                let rows: &[Row] = w.data.as_ref().map(|d| d.1.as_slice()).unwrap_or(&[]);
                for b in &g.record_batches {
                    same_schema(&what, &b.schema(), &c.cfg.schema())?;
                }
                let gr: Vec<String> = g.record_batches.iter().flat_map(fmt_rows).collect();
                let wr = fmt_rows(&batch(&c.cfg, rows));
                if gr != wr {
                    same(&what, &rows_of(&g.record_batches), &expect_rows(&c.cfg, rows))?;
                    fail!("row order", "{what}: rows in another order");
                }
                info.compared += 1;
                info.label_if(rows.len() > 1024, "over one decoder batch");
            }
            info.label_if(want.len() < c.blocks.len(), "blocks out of range");
        }
        let n = |f: BlockFmt| {
            c.blocks.iter().filter(|b| b.data.as_ref().is_some_and(|d| d.0 == f && !d.1.is_empty())).count()
        };
        info.nontrivial = n(BlockFmt::Avro) > 0 && n(BlockFmt::Parquet) > 0;
        info.label_if(c.blocks.is_empty(), "empty file");
        info.label_if(c.blocks.iter().any(|b| !b.footer.is_empty()), "footer");
        Ok(info)
    }
}
