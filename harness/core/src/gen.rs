//! Generates table configurations and histories. Every decision comes from the [`Source`].

use crate::pbt::Source;
use crate::sim::*;
use chrono::{Duration, NaiveDate, NaiveDateTime};

/// What a history may contain.
#[derive(Clone, Debug)]
pub struct Opts {
    pub mor: Option<bool>,
    pub partitioned: Option<bool>,
    pub max_ops: usize,
    pub max_rows: usize,
    /// Types other than the simple ones.
    pub rich_types: bool,
    /// Special characters in partition values.
    pub odd_paths: bool,
    /// Data blocks in avro.
    pub avro: bool,
    pub meta_off: bool,
    pub append_only: bool,
    pub replace: bool,
    pub failed: bool,
    /// Failed writes may be rolled back only after later commits (several writers).
    pub lazy_rollback: bool,
    pub restore: bool,
    pub clean: bool,
    /// Commits without data files, and delete_partition.
    pub empty_commits: bool,
    pub other_actions: bool,
    pub multi_log_stats: bool,
    pub big: bool,
    /// Now and then a hundred instants, or dozens of partitions.
    pub scale: bool,
    pub min_parts: usize,
    pub log_heavy: bool,
    pub replace_heavy: bool,
    /// Inserts spread over many file groups.
    pub many_groups: bool,
    /// Compactions that stay pending while writes go on.
    pub pending_compaction: bool,
}

impl Opts {
    pub fn all() -> Opts {
        Opts {
            mor: None,
            partitioned: None,
            max_ops: 10,
            max_rows: 6,
            rich_types: true,
            odd_paths: true,
            avro: true,
            meta_off: true,
            append_only: true,
            replace: true,
            failed: true,
            lazy_rollback: true,
            restore: true,
            clean: true,
            empty_commits: true,
            other_actions: true,
            multi_log_stats: true,
            big: true,
            scale: true,
            min_parts: 0,
            log_heavy: false,
            replace_heavy: false,
            many_groups: false,
            pending_compaction: true,
        }
    }
}

const WORDS: [&str; 8] = ["a", "b", "sf", "chennai", "sao_paulo", "x1", "10", "9"];
const ODD: [&str; 21] = [
    "a b", "100%", "x=y", "#1", "a?b", "é", "a+b", "a:b", "%41", "a&b", "~t", "日本", "a%2Fb", "[z]",
    "a\"b", "c,d", "_b", ".c", "_hoodie", "metadata", "_delta_log",
];

pub fn val(s: &mut Source, ty: Ty, nullable: bool) -> Val {
    if nullable && s.chance(1, 6) {
        return Val::N;
    }
    match ty {
        Ty::I32 => Val::I(match s.weighted(&[8, 1, 1, 1]) {
            0 => s.range(-50, 50),
            1 => i32::MAX as i64,
            2 => i32::MIN as i64,
            _ => s.range(i32::MIN as i64, i32::MAX as i64),
        }),
        Ty::I64 => Val::I(s.i64()),
        Ty::F32 => Val::F(match s.weighted(&[6, 1, 1, 1]) {
            0 => s.range(-200, 200) as f64 / 4.0,
            1 => f32::MAX as f64,
            2 => f32::MIN_POSITIVE as f64,
            _ => 0.0,
        }),
        Ty::F64 => Val::F(match s.weighted(&[6, 1, 1, 1]) {
            0 => s.range(-2000, 2000) as f64 / 7.0,
            1 => f64::MAX,
            2 => f64::MIN_POSITIVE,
            _ => 0.0,
        }),
        Ty::Str => Val::S(match s.weighted(&[6, 2, 1, 1]) {
            0 => s.string_of(&["a", "b", "c", "0"], 0, 4),
            1 => s.string_of(&["é", "日", "\"", "\n", " ", "\\", "null", "\u{1F600}"], 0, 4),
            2 => "x".repeat(s.usize(100, 300)),
            _ => String::new(),
        }),
        Ty::Bool => Val::B(s.chance(1, 2)),
        Ty::Bin => {
            let n = s.usize(0, 5);
            Val::Y((0..n).map(|_| s.below(256) as u8).collect())
        }
        Ty::Date => Val::I(s.range(-800, 30000)),
        Ty::TsUs => Val::I(match s.weighted(&[6, 1]) {
            0 => s.range(0, 1_800_000_000_000_000),
            _ => -s.range(1, 1_000_000_000),
        }),
        Ty::Dec => Val::I(s.range(-999_999_999_999, 999_999_999_999)),
        Ty::ListI64 => {
            let n = s.usize(0, 3);
            Val::L(
                (0..n)
                    .map(|_| if s.chance(1, 5) { Val::N } else { Val::I(s.range(-9, 9)) })
                    .collect(),
            )
        }
        Ty::StructIS => Val::R(vec![val(s, Ty::I64, true), val(s, Ty::Str, true)]),
    }
}

pub fn part_val(s: &mut Source, ty: Ty, odd: bool) -> Val {
    match ty {
        Ty::Str => {
            if odd && s.chance(1, 3) {
                Val::S(s.pick(&ODD).to_string())
            } else {
                Val::S(s.pick(&WORDS).to_string())
            }
        }
        Ty::I32 | Ty::I64 => Val::I(*s.pick(&[10i64, 9, 100, 20, -1, 0, 11, 2])),
        Ty::Date => Val::I(s.range(19700, 19760)),
        Ty::Bool => Val::B(s.chance(1, 2)),
        Ty::F32 | Ty::F64 => Val::F(*s.pick(&[0.5, 9.0, 10.0, -1.25, 100.0, 2.5, 0.0, 1e6])),
        Ty::Dec => Val::I(*s.pick(&[500, 9000, 10000, -1250, 100000, 2500, 0, 1])),
        _ => panic!("HARNESS: partition type"),
    }
}

pub fn part_val_or_null(s: &mut Source, ty: Ty, odd: bool, wide: bool) -> Val {
    if s.chance(1, 12) {
        Val::N
    } else if wide && s.chance(3, 4) {
        let i = s.range(0, 999);
        match ty {
            Ty::Str => Val::S(format!("w{i}")),
            Ty::F32 | Ty::F64 => Val::F(i as f64 / 4.0),
            Ty::Date => Val::I(19700 + i),
            Ty::I32 | Ty::I64 | Ty::Dec => Val::I(i),
            _ => part_val(s, ty, odd),
        }
    } else {
        part_val(s, ty, odd)
    }
}

pub fn cfg(s: &mut Source, o: &Opts) -> TableCfg {
    let mor = o.mor.unwrap_or_else(|| s.chance(1, 2));
    let partitioned = o.partitioned.unwrap_or_else(|| s.chance(2, 3));
    let avro = mor && o.avro && s.chance(1, 3);
    let mut cols = vec![col("key", Ty::Str, false), col("ts", Ty::I64, false)];
    if s.chance(1, 5) {
        cols[1].ty = *s.pick(&[Ty::I32, Ty::Str, Ty::F64, Ty::Date]);
    }
    if s.chance(1, 8) {
        cols[1].nullable = true;
    }
    let mut tys = vec![Ty::I64, Ty::Str, Ty::F64, Ty::I32, Ty::Bool, Ty::F32, Ty::Date, Ty::Bin];
    if o.rich_types && !avro {
        tys.extend([Ty::TsUs, Ty::Dec, Ty::ListI64, Ty::StructIS]);
    }
    let n = s.usize(0, 4);
    for i in 0..n {
        let t = *s.pick(&tys);
        let nullable = !s.chance(1, 4);
        cols.push(col(&format!("c{i}"), t, nullable));
    }
    let mut parts = vec![];
    if partitioned {
        let k = 1 + s.weighted(&[5, 3, 1]);
        for i in 0..k {
            let t = match s.weighted(&[10, 2, if o.rich_types && !avro { 1 } else { 0 }]) {
                0 => *s.pick(&[Ty::Str, Ty::I32, Ty::Date, Ty::I64, Ty::Bool]),
                1 => *s.pick(&[Ty::F64, Ty::F32]),
                _ => Ty::Dec,
            };
            let c = col(&format!("p{i}"), t, true);
            // Partition columns sit anywhere in the row.
            let at = if s.chance(1, 3) { s.idx(cols.len() + 1) } else { cols.len() };
            for p in &mut parts {
                if *p >= at {
                    *p += 1;
                }
            }
            cols.insert(at, c);
            parts.push(at);
        }
    }
    let meta = !(o.meta_off && s.chance(1, 10));
    let precombine = !(o.append_only && s.chance(1, 6));
    let merge_strategy = if o.append_only && s.chance(1, 8) {
        Some(if meta && precombine {
            s.pick(&["append_only", "overwrite_with_latest", "OVERWRITE_WITH_LATEST", "APPEND_ONLY"])
                .to_string()
        } else {
            "append_only".to_string()
        })
    } else {
        None
    };
    TableCfg {
        mor,
        version: if s.chance(1, 3) { 5 } else { 6 },
        meta,
        precombine,
        cols,
        parts,
        hive: s.chance(1, 2),
        urlenc: s.chance(1, 2),
        fmt: if avro { BlockFmt::Avro } else { BlockFmt::Parquet },
        append_logs: mor && s.chance(1, 4),
        own_stats: mor && s.chance(1, 3),
        ts14: s.chance(1, 5),
        tz: match s.weighted(&[5, 2, 1, 3]) {
            0 => None,
            1 => Some("UTC".into()),
            2 => Some("utc".into()),
            _ => Some(s.pick(&["LOCAL", "local"]).to_string()),
        },
        merge_strategy,
        row_group: if s.chance(1, 3) { s.usize(1, 4) } else { 0 },
        skip_arrow_meta: s.chance(1, 2),
        crc_files: s.chance(1, 4),
        props: vec![],
    }
}

pub struct Gen<'a> {
    pub s: &'a mut Source,
    pub o: Opts,
    pub plan: Plan,
    pub model: Model,
    now: NaiveDateTime,
    n_fid: u32,
    pending: Option<String>,
    compaction: Option<Compaction>,
    pub precs: i64,
}

/// A compaction that was requested and is not completed.
#[derive(Clone)]
struct Compaction {
    ts: String,
    groups: Vec<(usize, String)>,
    inflight: bool,
}

fn fmt_ts(t: NaiveDateTime, d14: bool) -> String {
    if d14 {
        t.format("%Y%m%d%H%M%S").to_string()
    } else {
        t.format("%Y%m%d%H%M%S%3f").to_string()
    }
}

pub fn plan(s: &mut Source, o: &Opts) -> Plan {
    let c = cfg(s, o);
    history(s, o, c)
}

pub fn history(s: &mut Source, o: &Opts, c: TableCfg) -> Plan {
    let wide = o.scale && c.partitioned() && s.chance(1, 50);
    let long = o.scale && !wide && s.chance(1, 50);
    let np = if wide {
        s.usize(15, 60)
    } else if c.partitioned() { s.usize(o.min_parts.max(1), 3.max(o.min_parts + 2)) } else { 1 };
    let mut partitions: Vec<Vec<Val>> = vec![];
    for _ in 0..np * 2 {
        if partitions.len() == np {
            break;
        }
        let v: Vec<Val> =
            c.parts.iter().map(|i| part_val_or_null(s, c.cols[*i].ty, o.odd_paths, wide)).collect();
        if !partitions.contains(&v) {
            partitions.push(v);
        }
    }
    let start = NaiveDate::from_ymd_opt(2024, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap()
        + Duration::minutes(s.range(0, 1_000_000));
    let mut g = Gen {
        o: o.clone(),
        plan: Plan { cfg: c, partitions, ops: vec![] },
        model: Model::default(),
        now: start,
        n_fid: 0,
        pending: None,
        compaction: None,
        precs: 0,
        s,
    };
    let max = g.o.max_ops * g.s.size as usize;
    // Rather long histories, and longer ones for slices with many log files.
    let mut n = g.s.usize(1, max).max(g.s.usize(1, max));
    if g.o.log_heavy {
        n = n.max(g.s.usize(1, max));
    }
    if long {
        n = g.s.usize(30, 120);
    }
    for _ in 0..n {
        g.step();
    }
    // Local times around a change of daylight saving are not in order; C12 has these.
    let local = g.plan.cfg.tz.as_ref().is_some_and(|t| t.eq_ignore_ascii_case("local"));
    if local && g.plan.ops.iter().any(|o| crate::props_names::near_change(o.ts())) {
        g.plan.cfg.tz = None;
    }
    g.plan
}

impl Gen<'_> {
    fn tick(&mut self) -> String {
        let d14 = self.plan.cfg.ts14;
        let step = match self.s.weighted(&[4, 3, 2, 1, 1]) {
            0 => Duration::seconds(self.s.range(1, 90)),
            1 => Duration::milliseconds(self.s.range(1, 2000)),
            2 => Duration::minutes(self.s.range(1, 3000)),
            3 => Duration::milliseconds(1),
            _ => Duration::days(self.s.range(1, 400)),
        };
        let step = if d14 { step.max(Duration::seconds(1)) } else { step };
        self.now += step;
        if d14 {
            self.now = self.now.with_nanos_zero();
        }
        fmt_ts(self.now, d14)
    }

    fn push(&mut self, op: Op) {
        self.model.apply(&op);
        self.plan.ops.push(op);
    }

    fn new_fid(&mut self) -> String {
        // Two file groups of one write share the uuid; bucketed tables share ids across partitions.
        let share = self.s.chance(1, 5);
        if !share || self.n_fid == 0 {
            self.n_fid += 1;
        }
        let sub = self.s.below(3);
        let id = format!("{:08x}-11aa-4bcd-{sub}", self.n_fid.wrapping_mul(0x9E37_79B1));
        id
    }

    fn fresh_fid(&mut self, part: usize, taken: &[(usize, String)]) -> String {
        loop {
            let f = self.new_fid();
            let used = self.model.fg(part, &f).is_some()
                || taken.iter().any(|t| t.0 == part && t.1 == f)
                || self.plan.ops.iter().any(|o| match o {
                    Op::Commit { writes, .. } => writes.iter().any(|w| w.part == part && w.fid == f),
                    _ => false,
                });
            if !used {
                return f;
            }
            self.n_fid += 1;
        }
    }

    fn token(&mut self) -> String {
        format!("{}-{}-{}", self.s.below(3), self.s.below(30), self.s.below(400))
    }

    /// File groups of a partition that take writes, with their visible rows.
    fn live(&self, part: usize) -> Vec<Seen> {
        self.model
            .snapshot(&self.plan.cfg, "99999999999999999")
            .into_iter()
            .filter(|s| s.part == part)
            .collect()
    }

    fn prec(&mut self) -> Val {
        self.precs += 1;
        let cfg = &self.plan.cfg;
        let c = cfg.cols[cfg.ts_idx()].clone();
        if c.nullable && self.s.chance(1, 5) {
            return Val::N;
        }
        // Mostly rising; late arrivals and ties are common enough to matter.
        let v = match self.s.weighted(&[5, 2, 2, 1]) {
            0 => self.precs * 3,
            1 => self.s.range(0, self.precs * 4),
            2 => self.s.range(1, 4),
            _ => match c.ty {
                Ty::I64 => *self.s.pick(&[i64::MAX, i64::MIN, -1, 0]),
                _ => -1,
            },
        };
        match c.ty {
            Ty::Str => Val::S(v.to_string()),
            Ty::F64 => Val::F(v as f64 / 4.0),
            _ => Val::I(v),
        }
    }

    fn row(&mut self, ts: &str, n: usize, part: usize, key: &str, file: &str) -> Row {
        let cfg = self.plan.cfg.clone();
        let mut vals = vec![];
        for (i, c) in cfg.cols.iter().enumerate() {
            vals.push(if c.name == "key" {
                Val::S(key.to_string())
            } else if c.name == "ts" {
                self.prec()
            } else if let Some(k) = cfg.parts.iter().position(|p| *p == i) {
                self.plan.partitions[part][k].clone()
            } else {
                val(self.s, c.ty, c.nullable)
            });
        }
        Row {
            ct: ts.to_string(),
            seq: format!("{ts}_{part}_{n}"),
            pp: self.plan.part_path(part),
            file: file.to_string(),
            vals,
        }
    }

    fn pick_keys(&mut self) -> Vec<String> {
        let n = if self.o.big && self.s.chance(1, 60) {
            self.s.usize(1000, 1100)
        } else {
            self.s.usize(1, self.o.max_rows)
        };
        let pool = (self.o.max_rows * 2).max(n + 4);
        let mut keys: Vec<String> = vec![];
        if n > 100 {
            return (0..n).map(|i| format!("k{i}")).collect();
        }
        for _ in 0..n {
            let k = format!("k{}", self.s.idx(pool));
            if !keys.contains(&k) {
                keys.push(k);
            }
        }
        keys
    }

    /// Base name of a new base file.
    fn base_name(&mut self, fid: &str, ts: &str) -> String {
        let t = self.token();
        format!("{fid}_{t}_{ts}.parquet")
    }

    fn rewritten(&mut self, fid: &str, ts: &str, rows: Vec<Row>) -> Put {
        let name = self.base_name(fid, ts);
        Put::Base { name, rows }
    }

    fn log_put(&mut self, seen: &Seen, _ts: &str, mut rows: Vec<Row>) -> Put {
        let cfg = self.plan.cfg.clone();
        // What is written to a file group whose compaction is pending goes upon it.
        let base_ts = match &self.compaction {
            Some(c) if self.compacted(seen) => c.ts.clone(),
            _ => seen.base_ts.clone(),
        };
        // An append never goes to a file a rollback sealed.
        let newest = seen
            .log_names
            .iter()
            .filter(|n| log_file_of(n, &seen.fid, &base_ts))
            .max_by_key(|n| log_version(n))
            .cloned();
        let sealed = newest.as_ref().is_some_and(|n| n.ends_with("_1-0-1"));
        let name = match &newest {
            Some(n) if cfg.append_logs && !sealed => n.clone(),
            Some(n) => {
                let t = self.token();
                format!(".{}_{base_ts}.log.{}_{t}", seen.fid, log_version(n) + 1)
            }
            None => {
                let t = self.token();
                // Close to a further digit, so that few log files suffice to get there.
                let v = *self.s.pick(&[1u32, 1, 1, 9, 8, 99]);
                format!(".{}_{base_ts}.log.{v}_{t}", seen.fid)
            }
        };
        let mut blocks = vec![];
        let mixed = self.o.avro && cfg.fmt == BlockFmt::Avro;
        if rows.len() > 1 && self.s.chance(1, 4) {
            let k = self.s.usize(1, rows.len() - 1);
            let rest = rows.split_off(k);
            let f = if mixed && self.s.chance(1, 3) { BlockFmt::Parquet } else { cfg.fmt };
            blocks.push((f, rows));
            rows = rest;
        }
        let f = if mixed && self.s.chance(1, 4) { BlockFmt::Parquet } else { cfg.fmt };
        blocks.push((f, rows));
        Put::Log { name, base_ts, blocks }
    }

    fn upsert_writes(&mut self, ts: &str, part: usize, delete: bool) -> Vec<FgWrite> {
        let cfg = self.plan.cfg.clone();
        let live = self.live(part);
        let keys = self.pick_keys();
        let mut writes: Vec<FgWrite> = vec![];
        let mut fresh: Vec<String> = vec![];
        let mut per_fg: Vec<Vec<String>> = vec![vec![]; live.len()];
        let insert_only = !delete && self.s.chance(1, 6);
        for k in keys {
            let at = live.iter().position(|f| f.rows.iter().any(|r| r.key(&cfg) == k));
            match at {
                Some(i) if !insert_only => per_fg[i].push(k),
                _ if delete => {}
                _ => fresh.push(k),
            }
        }
        // Small files take some of the new keys.
        if !live.is_empty() && self.s.chance(2, 5) {
            let i = self.s.idx(live.len());
            let n = self.s.usize(0, fresh.len());
            let have: Vec<String> = live[i].rows.iter().map(|r| r.key(&cfg).to_string()).collect();
            let moved: Vec<String> = fresh.drain(..n).collect();
            for k in moved {
                if have.contains(&k) {
                    fresh.push(k);
                } else {
                    per_fg[i].push(k);
                }
            }
        }
        let mut n = 0;
        for (i, keys) in per_fg.iter().enumerate() {
            if keys.is_empty() {
                continue;
            }
            let seen = live[i].clone();
            let mut rows = vec![];
            for k in keys {
                n += 1;
                rows.push(self.row(ts, n, part, k, &seen.fid));
            }
            if cfg.mor && !delete && (self.compacted(&seen) || !self.s.chance(1, 10)) {
                if self.o.multi_log_stats && rows.len() > 1 && self.s.chance(1, 8) && !cfg.append_logs {
                    // A writer that rolled over to a second log file in one commit.
                    let rest = rows.split_off(1);
                    let p1 = self.log_put(&seen, ts, rows);
                    let mut s2 = seen.clone();
                    if let Put::Log { name, .. } = &p1 {
                        s2.log_names.push(name.clone());
                    }
                    let p2 = self.log_put(&s2, ts, rest);
                    writes.push(FgWrite { fid: seen.fid.clone(), part, put: p1 });
                    writes.push(FgWrite { fid: seen.fid.clone(), part, put: p2 });
                } else {
                    let put = self.log_put(&seen, ts, rows);
                    writes.push(FgWrite { fid: seen.fid.clone(), part, put });
                }
            } else {
                let mut all: Vec<Row> =
                    seen.rows.iter().filter(|r| !keys.iter().any(|k| k == r.key(&cfg))).cloned().collect();
                if !delete {
                    // A rewrite merges by precombine as well.
                    let old: Vec<Row> =
                        seen.rows.iter().filter(|r| keys.iter().any(|k| k == r.key(&cfg))).cloned().collect();
                    all.extend(rows.into_iter().filter(|r| {
                        cfg.append_only()
                            || old.iter().all(|o| o.key(&cfg) != r.key(&cfg) || val_cmp(r.ts(&cfg), o.ts(&cfg)).is_ge())
                    }));
                    for o in old {
                        if cfg.append_only() || !all.iter().any(|r| r.key(&cfg) == o.key(&cfg)) {
                            all.push(o);
                        }
                    }
                }
                let put = self.rewritten(&seen.fid, ts, all);
                writes.push(FgWrite { fid: seen.fid.clone(), part, put });
            }
        }
        while !fresh.is_empty() {
            let k = if self.o.many_groups {
                1
            } else if self.s.chance(1, 4) {
                self.s.usize(1, fresh.len())
            } else {
                fresh.len()
            };
            let mut taken: Vec<String> = fresh.drain(..k).collect();
            taken.sort();
            let used: Vec<(usize, String)> = writes.iter().map(|w| (w.part, w.fid.clone())).collect();
            let fid = self.fresh_fid(part, &used);
            let mut rows = vec![];
            for k in &taken {
                n += 1;
                rows.push(self.row(ts, n, part, k, &fid));
            }
            let put = self.rewritten(&fid, ts, rows);
            writes.push(FgWrite { fid, part, put });
        }
        writes
    }

    fn parts_subset(&mut self) -> Vec<usize> {
        let n = self.plan.partitions.len();
        let mut v: Vec<usize> = (0..n).filter(|_| self.s.chance(1, 2)).collect();
        if v.is_empty() {
            v.push(self.s.idx(n));
        }
        v
    }

    fn write_action(&self) -> &'static str {
        if self.plan.cfg.mor {
            "deltacommit"
        } else {
            "commit"
        }
    }

    fn fate(&mut self) -> Fate {
        if self.o.failed && self.pending.is_none() && self.s.chance(1, 7) {
            if self.s.chance(1, 3) {
                Fate::Requested
            } else {
                Fate::Inflight
            }
        } else {
            Fate::Done
        }
    }

    fn commit(&mut self, ts: String, action: &str, op_type: &str, mut writes: Vec<FgWrite>, replaced: Vec<(usize, String)>) {
        let fate = self.fate();
        if fate != Fate::Done {
            if fate == Fate::Requested {
                writes.clear();
            } else if !writes.is_empty() {
                // Crashed part way.
                let k = self.s.usize(0, writes.len());
                writes.truncate(k);
            }
            self.pending = Some(ts.clone());
        }
        self.push(Op::Commit {
            ts,
            action: action.into(),
            op_type: op_type.into(),
            writes,
            replaced,
            fate,
        });
    }

    fn rollback(&mut self, target: String) {
        let ts = self.tick();
        let cfg_append = self.plan.cfg.append_logs;
        let mut command_logs = vec![];
        for fg in &self.model.fgs {
            for s in &fg.slices {
                if s.removed {
                    continue;
                }
                let hit = s.logs.iter().any(|l| l.blocks.iter().any(|b| b.instant == target));
                if hit && s.base_ts != target {
                    let v = s.logs.iter().map(|l| l.version).max().unwrap();
                    let name = if cfg_append {
                        s.logs.iter().find(|l| l.version == v).unwrap().name.clone()
                    } else {
                        format!(".{}_{}.log.{}_1-0-1", fg.fid, s.base_ts, v + 1)
                    };
                    command_logs.push((fg.part, name));
                }
            }
        }
        self.push(Op::Rollback { ts, target, command_logs });
    }

    pub fn step(&mut self) {
        let cfg = self.plan.cfg.clone();
        if let Some(p) = self.pending.clone() {
            let lazily = self.o.lazy_rollback && self.s.chance(1, 2);
            if !lazily {
                self.pending = None;
                self.rollback(p);
                if self.s.chance(1, 2) {
                    return;
                }
            }
        }
        let any = !self.model.snapshot(&cfg, "99999999999999999").is_empty();
        if !any {
            return self.do_write(false);
        }
        let w = [
            if self.o.log_heavy { 40 } else { 12 },
            2,
            if !cfg.mor {
                0
            } else if self.compaction.is_some() || self.o.log_heavy {
                3
            } else {
                6
            },
            if self.o.replace_heavy { 8 } else if self.o.replace { 2 } else { 0 },
            if self.compaction.is_some() {
                0
            } else if self.o.replace_heavy {
                8
            } else if self.o.replace {
                2
            } else {
                0
            },
            if self.o.empty_commits { 1 } else { 0 },
            if self.o.clean { 1 } else { 0 },
            if self.o.other_actions { 2 } else { 0 },
            if self.o.restore && self.pending.is_none() && self.compaction.is_none() { 1 } else { 0 },
        ];
        match self.s.weighted(&w) {
            0 => self.do_write(false),
            1 => self.do_write(true),
            2 => self.compact(),
            3 => self.cluster(),
            4 => self.overwrite(),
            5 => {
                let ts = self.tick();
                let a = self.write_action();
                self.commit(ts, a, "UPSERT", vec![], vec![]);
            }
            6 => self.clean(),
            7 => self.other(),
            _ => {
                let last = self
                    .model
                    .instants
                    .iter()
                    .filter(|i| i.st == St::Completed)
                    .last()
                    .map(|i| i.ts.clone());
                if let Some(t) = last {
                    if self.model.keep_from.as_str() < t.as_str() {
                        self.rollback(t);
                    }
                }
            }
        }
    }

    fn do_write(&mut self, delete: bool) {
        let ts = self.tick();
        let delete = delete && !self.plan.cfg.mor;
        let mut writes = vec![];
        for p in self.parts_subset() {
            writes.extend(self.upsert_writes(&ts, p, delete));
        }
        let a = self.write_action();
        if writes.is_empty() && !self.o.empty_commits {
            return;
        }
        let op = if delete {
            "DELETE"
        } else {
            *self.s.pick(&["UPSERT", "INSERT", "BULK_INSERT"])
        };
        self.commit(ts, a, op, writes, vec![]);
    }

    /// Whether a compaction of the file group is pending.
    fn compacted(&self, f: &Seen) -> bool {
        self.compaction.as_ref().is_some_and(|c| c.groups.iter().any(|g| g.0 == f.part && g.1 == f.fid))
    }

    fn compact(&mut self) {
        if let Some(c) = self.compaction.clone() {
            return self.go_on_compacting(c);
        }
        let cfg = self.plan.cfg.clone();
        let all: Vec<Seen> = self
            .model
            .snapshot(&cfg, "99999999999999999")
            .into_iter()
            .filter(|f| !f.log_names.is_empty() && !self.s.chance(1, 4))
            .collect();
        if all.is_empty() {
            return;
        }
        let ts = self.tick();
        if self.o.pending_compaction && self.s.chance(1, 2) {
            let groups = all.iter().map(|f| (f.part, f.fid.clone())).collect();
            self.compaction = Some(Compaction { ts: ts.clone(), groups, inflight: false });
            return self.compaction_op(ts, vec![], Fate::Requested);
        }
        let writes = all.iter().map(|f| self.compacting_write(f, &ts)).collect();
        self.compaction_op(ts, writes, Fate::Done);
    }

    fn go_on_compacting(&mut self, c: Compaction) {
        if c.inflight {
            self.compaction = Some(Compaction { inflight: false, ..c.clone() });
            return self.rollback(c.ts);
        }
        let before: Vec<Seen> = self
            .model
            .snapshot(&self.plan.cfg, &c.ts)
            .into_iter()
            .filter(|f| c.groups.iter().any(|g| g.0 == f.part && g.1 == f.fid))
            .collect();
        let mut writes: Vec<FgWrite> = before.iter().map(|f| self.compacting_write(f, &c.ts)).collect();
        if self.s.chance(1, 4) {
            // Crashed part way.
            let k = self.s.usize(0, writes.len());
            writes.truncate(k);
            self.compaction = Some(Compaction { inflight: true, ..c.clone() });
            return self.compaction_op(c.ts, writes, Fate::Inflight);
        }
        self.compaction = None;
        self.compaction_op(c.ts, writes, Fate::Done);
    }

    fn compacting_write(&mut self, f: &Seen, ts: &str) -> FgWrite {
        let cfg = &self.plan.cfg;
        let mut rows = f.rows.clone();
        rows.sort_by(|a, b| a.key(cfg).cmp(b.key(cfg)));
        let put = self.rewritten(&f.fid, ts, rows);
        FgWrite { fid: f.fid.clone(), part: f.part, put }
    }

    fn compaction_op(&mut self, ts: String, writes: Vec<FgWrite>, fate: Fate) {
        self.push(Op::Commit {
            ts,
            action: "commit".into(),
            op_type: "COMPACT".into(),
            writes,
            replaced: vec![],
            fate,
        });
    }

    fn cluster(&mut self) {
        let cfg = self.plan.cfg.clone();
        let ts = self.tick();
        let p = self.s.idx(self.plan.partitions.len());
        let live = self.live(p);
        let mut chosen: Vec<Seen> = live.into_iter().filter(|f| !self.compacted(f)).collect();
        chosen.retain(|_| !self.s.chance(1, 3));
        if chosen.is_empty() {
            return;
        }
        let mut rows: Vec<Row> = chosen.iter().flat_map(|f| f.rows.clone()).collect();
        rows.sort_by(|a, b| a.key(&cfg).cmp(b.key(&cfg)));
        let replaced = chosen.iter().map(|f| (p, f.fid.clone())).collect();
        let mut writes = vec![];
        while !rows.is_empty() {
            let k = if self.s.chance(1, 3) { self.s.usize(1, rows.len()) } else { rows.len() };
            // Duplicate keys (of inserts into several file groups) go to different file groups.
            let mut part_rows: Vec<Row> = vec![];
            let mut rest = vec![];
            for r in rows {
                let dup = !cfg.append_only() && part_rows.last().is_some_and(|x| x.key(&cfg) == r.key(&cfg));
                if part_rows.len() < k && !dup {
                    part_rows.push(r);
                } else {
                    rest.push(r);
                }
            }
            rows = rest;
            let used: Vec<(usize, String)> =
                writes.iter().map(|w: &FgWrite| (w.part, w.fid.clone())).collect();
            let fid = self.fresh_fid(p, &used);
            let put = self.rewritten(&fid, &ts, part_rows);
            writes.push(FgWrite { fid, part: p, put });
        }
        self.commit(ts, "replacecommit", "CLUSTER", writes, replaced);
    }

    fn overwrite(&mut self) {
        let kind = self.s.weighted(&[3, 2, if self.o.empty_commits { 2 } else { 0 }]);
        let ts = self.tick();
        let parts = self.parts_subset();
        let all: Vec<Seen> = self.model.snapshot(&self.plan.cfg, "99999999999999999");
        let replaced: Vec<(usize, String)> = all
            .iter()
            .filter(|f| kind == 1 || parts.contains(&f.part))
            .map(|f| (f.part, f.fid.clone()))
            .collect();
        let mut writes = vec![];
        if kind != 2 {
            for p in &parts {
                let keys = self.pick_keys();
                let used: Vec<(usize, String)> =
                    writes.iter().map(|w: &FgWrite| (w.part, w.fid.clone())).collect();
                let fid = self.fresh_fid(*p, &used);
                let mut rows = vec![];
                for (n, k) in keys.iter().enumerate() {
                    rows.push(self.row(&ts, n, *p, k, &fid));
                }
                let put = self.rewritten(&fid, &ts, rows);
                writes.push(FgWrite { fid, part: *p, put });
            }
        }
        let op = ["INSERT_OVERWRITE", "INSERT_OVERWRITE_TABLE", "DELETE_PARTITION"][kind];
        self.commit(ts, "replacecommit", op, writes, replaced);
    }

    fn clean(&mut self) {
        let done: Vec<String> = self
            .model
            .instants
            .iter()
            .filter(|i| i.st == St::Completed)
            .map(|i| i.ts.clone())
            .collect();
        if done.is_empty() {
            return;
        }
        let keep = done[self.s.idx(done.len())].clone();
        if keep < self.model.keep_from {
            return;
        }
        let ts = self.tick();
        self.push(Op::Clean { ts, keep_from: keep });
    }

    fn other(&mut self) {
        let (a, st): (&str, &str) = *self.s.pick(&[
            ("savepoint", ""),
            ("savepoint", "inflight"),
            ("clean", ""),
            ("clean", "requested"),
            ("rollback", ""),
            ("restore", ""),
            ("indexing", ""),
            ("compaction", "requested"),
            ("logcompaction", "requested"),
            ("commit", "requested"),
            ("replacecommit", "requested"),
            ("replacecommit", "inflight"),
        ]);
        let ts = self.tick();
        self.push(Op::Other { ts, action: a.into(), state: st.into() });
    }
}

trait ZeroNanos {
    fn with_nanos_zero(self) -> Self;
}
impl ZeroNanos for NaiveDateTime {
    fn with_nanos_zero(self) -> Self {
        use chrono::Timelike;
        self.with_nanosecond(0).unwrap()
    }
}

/// A timestamp to read the table as of, at or after what a clean kept.
pub fn as_of(s: &mut Source, plan: &Plan, model: &Model) -> String {
    let mut pts: Vec<String> = plan.ops.iter().map(|o| o.ts().to_string()).collect();
    pts.retain(|t| t.as_str() >= model.keep_from.as_str());
    if pts.is_empty() {
        pts.push(model.keep_from.clone());
    }
    if pts[0].is_empty() {
        return "20990101000000000".into();
    }
    let t = s.pick(&pts).clone();
    let t = match s.weighted(&[5, 2, 1, 1]) {
        0 => t,
        // Just after, before the next one.
        1 => shift(&t, 1),
        2 => {
            let b = shift(&t, -1);
            if b.as_str() >= model.keep_from.as_str() {
                b
            } else {
                t
            }
        }
        _ => {
            if s.chance(1, 2) {
                if t.len() == 14 { "20990101000000".into() } else { "20990101000000000".into() }
            } else if model.keep_from.is_empty() {
                if t.len() == 14 { "20200101000000".into() } else { "20200101000000000".into() }
            } else {
                t
            }
        }
    };
    let other = if s.chance(1, 8) { other_precision(s, &t) } else { t.clone() };
    if in_millis(&other).as_str() >= model.keep_from.as_str() {
        other
    } else {
        t
    }
}

/// A time in seconds for one in milliseconds, and the other way round.
pub fn other_precision(s: &mut Source, t: &str) -> String {
    if t.len() == 17 {
        t[..14].to_string()
    } else {
        format!("{t}{}", s.pick(&["000", "001", "500", "999"]))
    }
}

/// One unit (second or millisecond) earlier or later.
pub fn shift(t: &str, by: i64) -> String {
    if t.len() == 14 {
        let d = NaiveDateTime::parse_from_str(t, "%Y%m%d%H%M%S").expect("HARNESS: ts");
        (d + Duration::seconds(by)).format("%Y%m%d%H%M%S").to_string()
    } else {
        let d = NaiveDateTime::parse_from_str(&t[..14], "%Y%m%d%H%M%S").expect("HARNESS: ts")
            + Duration::milliseconds(t[14..].parse::<i64>().unwrap() + by);
        d.format("%Y%m%d%H%M%S%3f").to_string()
    }
}

/// As [`as_of`], not after the latest completed instant: what an open table can be asked.
pub fn as_of_until(s: &mut Source, plan: &Plan, model: &Model) -> String {
    let t = as_of(s, plan, model);
    match model.latest_completed() {
        Some(l) if t <= l.ts => t,
        Some(l) => l.ts.clone(),
        None => t,
    }
}
