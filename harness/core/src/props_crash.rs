//! Tables in the middle of a write: readers see the state before it until it is complete.

use crate::fail;
use crate::gen::{self, Opts};
use crate::pbt::Source;
use crate::props_read::plan_labels;
use crate::props_table::{seen_key, slice_key};
use crate::q::*;
use crate::runner::*;
use crate::s3::Bucket;
use crate::sim::*;
use hudi_core::table::Table;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

/// A history of which the last part happens step by step.
#[derive(Serialize, Deserialize)]
pub struct Writing {
    pub plan: Plan,
    /// The operation in progress: the last one, or one that goes on while those after it happen.
    pub op: usize,
    /// Orders what writers do in no particular order.
    pub keys: Vec<u16>,
    /// Which writer goes on, when there are two.
    pub turns: Vec<bool>,
    /// Files of failed writes that were left incomplete: the operation, the write and how much there is.
    pub torn: Vec<(usize, usize, u16)>,
    /// Base files of failed attempts of tasks, next to those of the attempts that counted: the operation,
    /// the write, how much there is, and whether its name sorts first.
    #[serde(default)]
    pub attempts: Vec<(usize, usize, u16, bool)>,
    pub markers: bool,
}

struct Did {
    op: usize,
    step: Step,
    /// The operation counts as done from here on.
    effective: bool,
    data: bool,
}

/// Whether the operation undoes a completed commit.
fn undoes(plan: &Plan, op: &Op) -> bool {
    let Op::Rollback { target, .. } = op else { return false };
    plan.ops.iter().any(|o| matches!(o, Op::Commit { ts, fate: Fate::Done, .. } if ts == target))
}

impl Writing {
    fn generate(s: &mut Source, o: &Opts) -> Writing {
        let mut plan = gen::plan(s, o);
        let mut op = plan.ops.len() - 1;
        if s.chance(1, 3) {
            let alone = (0..plan.ops.len()).filter(|j| apart(&plan, *j)).collect::<Vec<_>>();
            if !alone.is_empty() {
                op = *s.pick(&alone);
                if let Some(c) = plan.ops[op..].iter().position(|o| matches!(o, Op::Clean { .. })) {
                    plan.ops.truncate(op + c);
                }
            }
        }
        let (mut torn, mut attempts) = (vec![], vec![]);
        for (i, o) in plan.ops.iter().enumerate() {
            let Op::Commit { writes, fate, .. } = o else { continue };
            for (k, w) in writes.iter().enumerate() {
                if !matches!(w.put, Put::Base { .. }) {
                    continue;
                }
                if i < op && *fate == Fate::Inflight && s.chance(1, 2) {
                    torn.push((i, k, s.below(1000) as u16));
                }
                // Those of completed writes were removed before.
                if (i >= op || *fate == Fate::Inflight) && s.chance(1, 8) {
                    attempts.push((i, k, s.below(1001) as u16, s.chance(1, 2)));
                }
            }
        }
        Writing {
            keys: (0..24).map(|_| s.below(1000) as u16).collect(),
            turns: if op + 1 < plan.ops.len() { (0..40).map(|_| s.chance(1, 3)).collect() } else { vec![] },
            torn,
            attempts,
            markers: s.chance(1, 2),
            plan,
            op,
        }
    }

    /// Adds the steps of the failed attempts of tasks.
    fn retry(&self, i: usize, st: &mut Steps) {
        let op = &self.plan.ops[i];
        let other = |n: &Path, first: bool| {
            let name = n.file_name().unwrap().to_str().unwrap();
            let (id, rest) = name.split_once('_').unwrap();
            let (token, rest) = rest.split_once('_').unwrap();
            n.with_file_name(if first { format!("{id}_0{token}_{rest}") } else { format!("{id}_{token}9_{rest}") })
        };
        let base = |w: &FgWrite| match &w.put {
            Put::Base { name, .. } => PathBuf::from(self.plan.part_path(w.part)).join(name),
            _ => unreachable!(),
        };
        match op {
            Op::Commit { fate, .. } => {
                for (_, k, part, first) in self.attempts.iter().filter(|a| a.0 == i) {
                    let Some(g) = st.data.get_mut(*k) else { continue };
                    let at = g.iter().position(|x| matches!(x, Step::Put(p, _) if p.extension().is_some_and(|e| e == "parquet")));
                    let Some(at) = at else { continue };
                    let Step::Put(p, b) = &g[at] else { unreachable!() };
                    let (p, mut b) = (other(p, *first), b.clone());
                    b.truncate(b.len() * *part as usize / 1000);
                    // Before or after the one that counted.
                    g.insert(at + (*part % 2) as usize, Step::Put(p.clone(), b));
                    if *fate == Fate::Done {
                        st.post.insert(0, Step::Remove(p));
                    }
                }
            }
            Op::Rollback { target, .. } => {
                for (j, k, _, first) in &self.attempts {
                    if let Op::Commit { ts, writes, .. } = &self.plan.ops[*j] {
                        if ts == target {
                            st.data.push(vec![Step::Remove(other(&base(&writes[*k]), *first))]);
                        }
                    }
                }
            }
            _ => {}
        }
    }

    /// Writes the part of the history that is over, and tells the steps that are to come.
    fn begin(&self, dir: &Path) -> Vec<Did> {
        let plan = &self.plan;
        let before = Plan { ops: vec![], ..plan.clone() };
        let mut m = materialize(&before, dir);
        for (i, op) in plan.ops.iter().enumerate().take(self.op) {
            let mut st = op_steps(plan, &mut m, op);
            self.retry(i, &mut st);
            for (_, k, part) in self.torn.iter().filter(|t| t.0 == i) {
                for x in st.data.get_mut(*k).into_iter().flatten() {
                    if let Step::Put(p, b) = x {
                        if p.extension().is_some_and(|e| e == "parquet") {
                            b.truncate(b.len() * *part as usize / 1000);
                        }
                    }
                }
            }
            for x in st.pre.iter().chain(st.data.iter().flatten()).chain(&st.post) {
                x.run(dir);
            }
        }
        let mut keys = self.keys.iter().cycle();
        let mut seqs: Vec<Vec<Did>> = vec![vec![], vec![]];
        for (i, op) in plan.ops.iter().enumerate().skip(self.op) {
            let mut st = op_steps(plan, &mut m, op);
            self.retry(i, &mut st);
            let seq = &mut seqs[(i > self.op) as usize];
            let from = seq.len();
            let did = |step: Step, data| Did { op: i, step, effective: false, data };
            seq.extend(st.pre.into_iter().map(|x| did(x, false)));
            let pre = seq.len();
            let mut groups: Vec<(u16, Vec<Step>)> = vec![];
            let mut marks = vec![];
            for g in st.data {
                let last = g.last().unwrap().path().to_path_buf();
                if self.markers && matches!(op, Op::Commit { .. }) {
                    let n = format!(".hoodie/.temp/{}/{}.marker.CREATE", op.ts(), last.display());
                    let p = PathBuf::from(n);
                    seq.push(did(Step::Put(p.clone(), vec![]), false));
                    marks.push(p);
                }
                // What is added to one file stays in order.
                match groups.iter_mut().find(|(_, o)| o.iter().any(|x| x.path() == last)) {
                    Some((_, o)) => o.extend(g),
                    None => groups.push((*keys.next().unwrap(), g)),
                }
            }
            groups.sort_by_key(|g| g.0);
            seq.extend(groups.into_iter().flat_map(|g| g.1).map(|x| did(x, true)));
            seq.extend(st.post.into_iter().map(|x| did(x, false)));
            let at = match op {
                // When the completed state is removed.
                Op::Rollback { .. } if undoes(plan, op) => pre - 1,
                // Only what is kept is compared.
                Op::Clean { .. } => from,
                _ => seq.len() - 1,
            };
            seq[at].effective = true;
            seq.extend(marks.into_iter().map(|p| did(Step::Remove(p), false)));
        }
        let rest = seqs.pop().unwrap();
        let (mut a, mut b) = (seqs.pop().unwrap().into_iter().peekable(), rest.into_iter().peekable());
        let mut turns = self.turns.iter();
        // Instants get their times in the order in which they are requested.
        let mut out: Vec<Did> = a.next().into_iter().collect();
        while a.peek().is_some() || b.peek().is_some() {
            let first = b.peek().is_none() || (a.peek().is_some() && *turns.next().unwrap_or(&true));
            out.extend(if first { a.next() } else { b.next() });
        }
        out
    }

    /// The model after the first `n` steps.
    fn model(&self, steps: &[Did], n: usize) -> Model {
        let mut m = Model::default();
        for (i, op) in self.plan.ops.iter().enumerate() {
            let of = |k: usize| steps[..k].iter().filter(|d| d.op == i);
            let done = i < self.op || of(n).any(|d| d.effective);
            if done {
                m.apply(op);
            } else if of(n).next().is_some() {
                if let Op::Commit { ts, action, op_type, writes, fate, .. } = op {
                    m.apply(&Op::Commit {
                        ts: ts.clone(),
                        action: action.clone(),
                        op_type: op_type.clone(),
                        writes: writes.clone(),
                        replaced: vec![],
                        fate: if *fate == Fate::Done { Fate::Inflight } else { *fate },
                    });
                }
            }
        }
        m
    }
}

/// Whether no other operation has to do with what the operation writes.
fn apart(plan: &Plan, j: usize) -> bool {
    let Op::Commit { ts, writes, replaced, fate: Fate::Done, .. } = &plan.ops[j] else { return false };
    if j + 1 == plan.ops.len() || writes.is_empty() {
        return false;
    }
    let mine = |p: usize, f: &str| {
        writes.iter().any(|w| w.part == p && w.fid == f) || replaced.iter().any(|r| r.0 == p && r.1 == f)
    };
    writes.iter().all(|w| matches!(w.put, Put::Base { .. }))
        && plan.ops.iter().enumerate().all(|(i, o)| match o {
            Op::Commit { writes: w, replaced: r, .. } if i != j => {
                (i < j && !w.iter().any(|x| writes.iter().any(|y| y.part == x.part && y.fid == x.fid)))
                    || (i > j && !w.iter().any(|x| mine(x.part, &x.fid)) && !r.iter().any(|x| mine(x.0, &x.1)))
            }
            Op::Rollback { target, .. } => target != ts,
            _ => true,
        })
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Ask {
    Instants,
    Snapshot,
    Slices,
    AsOf(String),
    Since(String),
    Schema,
}

fn asks(s: &mut Source, plan: &Plan) -> Vec<Ask> {
    let m = Model::of(plan);
    let mut v = vec![Ask::Instants, Ask::Snapshot];
    for _ in 0..s.usize(1, 4) {
        v.push(match s.weighted(&[2, 1, 4, if plan.cfg.meta { 2 } else { 0 }, 1]) {
            0 => Ask::Slices,
            1 => Ask::Snapshot,
            2 => Ask::AsOf(gen::as_of(s, plan, &m)),
            3 => Ask::Since(gen::as_of(s, plan, &m)),
            _ => Ask::Schema,
        });
    }
    v
}

/// What a table in the state of the model answers; nothing where that is not specified.
fn expected(plan: &Plan, m: &Model, a: &Ask) -> Option<Vec<String>> {
    let cfg = &plan.cfg;
    let done: Vec<&MInstant> = m.instants.iter().filter(|i| i.st == St::Completed).collect();
    let latest = done.last().map(|i| i.ts.clone());
    if let Ask::Instants = a {
        return Some(done.iter().map(|i| format!("{} {}", i.ts, i.action)).collect());
    }
    let Some(latest) = latest else {
        return match a {
            Ask::Snapshot | Ask::Slices => Some(vec![]),
            _ => None,
        };
    };
    if latest < m.keep_from {
        return None;
    }
    match a {
        Ask::Instants => None,
        Ask::Snapshot => Some(expect_rows(cfg, &all_rows(&m.snapshot(cfg, &latest)))),
        Ask::Slices => {
            let mut v: Vec<String> =
                m.snapshot(cfg, &latest).iter().map(|s| format!("{:?}", seen_key(plan, s))).collect();
            v.sort();
            Some(v)
        }
        Ask::AsOf(t) if *t >= m.keep_from => Some(expect_rows(cfg, &all_rows(&m.snapshot(cfg, t)))),
        Ask::Since(t) if *t >= m.keep_from && !m.baseless_in(t, &latest) => {
            Some(expect_rows(cfg, &all_rows(&m.seen(cfg, Some(t), &latest))))
        }
        Ask::AsOf(_) | Ask::Since(_) => None,
        // A write of this kind does not change it.
        Ask::Schema => done
            .iter()
            .any(|i| i.had_base)
            .then(|| cfg.schema().fields().iter().map(|f| format!("{}:{}", f.name(), f.data_type())).collect()),
    }
}

fn answer(t: &Table, a: &Ask) -> Result<Vec<String>, String> {
    let e = |e: hudi_core::error::CoreError| format!("{a:?}: {e}");
    let rows = |b: Vec<arrow_array::RecordBatch>| rows_of(&b);
    match a {
        Ask::Instants => {
            Ok(t.get_timeline().completed_commits.iter().map(|i| format!("{} {}", i.timestamp, i.action.as_ref())).collect())
        }
        Ask::Snapshot => block(t.read_snapshot(&[])).map(rows).map_err(e),
        Ask::Slices => block(t.get_file_slices(&[])).map_err(e).map(|v| {
            let mut v: Vec<String> = v.iter().map(|f| format!("{:?}", slice_key(f))).collect();
            v.sort();
            v
        }),
        Ask::AsOf(x) => block(t.read_snapshot_as_of(x, &[])).map(rows).map_err(e),
        Ask::Since(x) => block(t.read_incremental_records(x, None)).map(rows).map_err(e),
        Ask::Schema => block(t.get_schema())
            .map(|s| s.fields().iter().map(|f| format!("{}:{}", f.name(), f.data_type())).collect())
            .map_err(e),
    }
}

fn shown(v: &[String]) -> String {
    format!("{} {:?}", v.len(), v).chars().take(900).collect()
}

fn all_same(what: &str, plan: &Plan, m: &Model, t: &Result<Table, String>, asks: &[Ask], lenient: bool, info: &mut Info) -> R<()> {
    for a in asks {
        let Some(want) = expected(plan, m, a) else { continue };
        let got = match t {
            Ok(t) => answer(t, a),
            Err(e) => Err(format!("opening: {e}")),
        };
        info.compared += 1;
        match got {
            Ok(g) if g == want => {}
            Ok(g) => fail!("state", "{what}, {a:?}: got {}, expected {}", shown(&g), shown(&want)),
            Err(_) if lenient => info.label("an error for a partial block"),
            Err(e) => fail!("error", "{what}: {e}"),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- crash points

#[derive(Serialize, Deserialize)]
pub struct CrashCase {
    pub w: Writing,
    /// Where to look, and how much of the next data file is there, if any.
    pub points: Vec<(u16, Option<u16>)>,
    pub asks: Vec<Ask>,
    /// Whether the table opened at the first of the points was also read then.
    pub read_first: bool,
}

pub struct Crash {
    pub n: (usize, usize),
}

impl Part for Crash {
    type Case = CrashCase;
    fn name(&self) -> &'static str {
        "crash points"
    }
    fn rule(&self) -> &'static str {
        "the steps of the last operation of a history (timeline files, markers, data files in any order, appends and deletions), or of one that goes on while later ones happen, are carried out one by one; at generated points, with the next data file partly written or not, the table is opened and asked for its instants, snapshot, slices, past states and increments, which are those of the model with the operations that are complete; a table opened at the first point keeps its answers; non-trivial: a point at which data of an incomplete operation is there"
    }
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { self.n.0 } else { self.n.1 }
    }
    fn generate(&self, s: &mut Source) -> CrashCase {
        let w = Writing::generate(s, &Opts { big: false, scale: false, ..Opts::all() });
        let n = s.usize(1, 5);
        CrashCase {
            points: (0..n)
                .map(|_| (s.below(1000) as u16, if s.chance(1, 3) { Some(s.below(1000) as u16) } else { None }))
                .collect(),
            asks: asks(s, &w.plan),
            read_first: s.chance(1, 2),
            w,
        }
    }
    fn run(&self, c: &CrashCase) -> R<Info> {
        let d = Scratch::new();
        let mut info = Info::default();
        let plan = &c.w.plan;
        let steps = c.w.begin(d.path());
        let uri = d.uri();
        let mut points: Vec<(usize, Option<u16>)> =
            c.points.iter().map(|(p, f)| (*p as usize * (steps.len() + 1) / 1000, *f)).collect();
        points.sort();
        let mut held: Option<(usize, Model, Result<Table, String>)> = None;
        let mut at = 0;
        for (p, part) in points {
            while at < p {
                steps[at].step.run(d.path());
                at += 1;
            }
            let m = c.w.model(&steps, at);
            let mut cut = None;
            if let (Some(f), Some(next)) = (part, steps.get(at).filter(|n| n.data)) {
                let part = |b: &Vec<u8>| b[..b.len() * f as usize / 1000].to_vec();
                let path = d.path().join(next.step.path());
                match &next.step {
                    Step::Put(p, b) => Step::Put(p.clone(), part(b)).run(d.path()),
                    Step::Append(p, b) => {
                        let n = std::fs::metadata(&path).map(|m| m.len()).ok();
                        Step::Append(p.clone(), part(b)).run(d.path());
                        cut = Some((path, n));
                    }
                    Step::Remove(_) => {}
                }
                info.label(if cut.is_some() { "a block written in part" } else { "a file written in part" });
            }
            let t = block(Table::new(&uri)).map_err(|e| e.to_string());
            let what = format!("opened after step {at} of {}", steps.len());
            all_same(&what, plan, &m, &t, &c.asks, cut.is_some(), &mut info)?;
            match &held {
                Some((from, hm, ht)) => {
                    let gone = steps[*from..at].iter().any(|d| {
                        matches!(plan.ops[d.op], Op::Clean { .. }) || undoes(plan, &plan.ops[d.op])
                    });
                    if !gone {
                        let what = format!("opened after step {from}, asked after step {at} of {}", steps.len());
                        // As of times it knows of.
                        let known: Vec<Ask> = c
                            .asks
                            .iter()
                            .filter(|a| match a {
                                Ask::AsOf(x) => hm.latest_completed().is_some_and(|l| *x <= l.ts),
                                _ => true,
                            })
                            .cloned()
                            .collect();
                        all_same(&what, plan, hm, ht, &known, cut.is_some(), &mut info)?;
                        info.label_if(at > *from, "an earlier opened table");
                    }
                }
                None if c.read_first => held = Some((at, m, t)),
                None => held = Some((at, m, block(Table::new(&uri)).map_err(|e| e.to_string()))),
            }
            if let Some((path, n)) = cut {
                match n {
                    Some(n) => std::fs::OpenOptions::new()
                        .write(true)
                        .open(path)
                        .and_then(|f| f.set_len(n))
                        .expect("HARNESS: truncate"),
                    None => std::fs::remove_file(path).expect("HARNESS: remove"),
                }
            }
            let half = (0..plan.ops.len()).any(|i| {
                let mine = |k: &[Did]| k.iter().any(|d| d.op == i && d.data);
                let over = steps[..at].iter().any(|d| d.op == i && d.effective);
                !over && (mine(&steps[..at]) || (part.is_some() && steps.get(at).is_some_and(|n| n.data && n.op == i)))
            });
            info.nontrivial |= half;
        }
        labels(&mut info, &c.w);
        Ok(info)
    }
}

fn labels(info: &mut Info, w: &Writing) {
    info.label_if(w.op + 1 < w.plan.ops.len(), "two writers");
    info.label_if(!w.torn.is_empty(), "partial files of failed writes");
    info.label(match &w.plan.ops[w.op] {
        Op::Commit { op_type, .. } => format!("writing {op_type}"),
        o @ Op::Rollback { .. } if undoes(&w.plan, o) => "undoing a commit".to_string(),
        Op::Rollback { .. } => "rolling back".to_string(),
        Op::Clean { .. } => "cleaning".to_string(),
        Op::Other { .. } => "another action".to_string(),
    });
    plan_labels(info, &w.plan, &Model::of(&w.plan));
}

// ---------------------------------------------------------------- interleavings

#[derive(Serialize, Deserialize)]
pub struct MidCase {
    pub w: Writing,
    /// Steps carried out before the table is opened.
    pub start: u16,
    /// How many steps to carry out before each of the requests.
    pub pace: Vec<u8>,
    pub asks: Vec<Ask>,
}

pub struct Mid {
    pub n: (usize, usize),
}

impl Part for Mid {
    type Case = MidCase;
    fn name(&self) -> &'static str {
        "interleavings"
    }
    fn rule(&self) -> &'static str {
        "a table is opened and read over a store while writers carry out their steps, a generated number of them before each of the reader's requests: all its answers are those of one state the table had while it was being opened; non-trivial: a step that completes an operation between two requests of the reader"
    }
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { self.n.0 } else { self.n.1 }
    }
    fn generate(&self, s: &mut Source) -> MidCase {
        let o = Opts { big: false, scale: false, clean: false, restore: false, odd_paths: false, ..Opts::all() };
        let mut w = Writing::generate(s, &o);
        if w.turns.is_empty() && s.chance(2, 3) {
            // The last few operations, one after the other.
            w.op = s.usize(0, w.op);
            w.torn.retain(|t| t.0 < w.op);
            w.turns = vec![true; 1000];
        }
        MidCase {
            start: s.below(1000) as u16,
            pace: (0..30).map(|_| *s.pick(&[0, 0, 1, 2, 3, 8])).collect(),
            asks: asks(s, &w.plan),
            w,
        }
    }
    fn run(&self, c: &MidCase) -> R<Info> {
        crate::props_s3::conf();
        let d = Scratch::new();
        let mut info = Info::default();
        let plan = &c.w.plan;
        let dir = d.path().join("t");
        let steps = c.w.begin(&dir);
        let start = c.start as usize * steps.len() / 1000;
        for s in &steps[..start] {
            s.step.run(&dir);
        }
        let b = Bucket::new(d.path(), 1000);
        let at = Arc::new(Mutex::new(start));
        {
            let at = at.clone();
            let todo: Vec<Step> = steps.iter().map(|d| d.step.clone()).collect();
            let (pace, dir) = (c.pace.clone(), dir.clone());
            let mut n = 0;
            b.before_requests(Some(Box::new(move || {
                let mut at = at.lock().unwrap();
                for _ in 0..*pace.get(n).unwrap_or(&0) {
                    if let Some(s) = todo.get(*at) {
                        s.run(&dir);
                        *at += 1;
                    }
                }
                n += 1;
            })));
        }
        let mut store = crate::props_s3::store_options(false);
        store.push(("hoodie.read.listing.parallelism".into(), "1".into()));
        let t = block(Table::new_with_options(&format!("s3://{}/t", b.name), store)).map_err(|e| e.to_string());
        let opened = *at.lock().unwrap();
        let mut states: Vec<(usize, Model)> = vec![];
        for n in start..=opened {
            if n == start || steps[n - 1].effective {
                states.push((n, c.w.model(&steps, n)));
            }
        }
        let r = (|| -> R<()> {
            let mut told = vec![];
            for a in &c.asks {
                // As of times that any of the states knows.
                if let Ask::AsOf(x) = a {
                    if !states.iter().all(|(_, m)| m.latest_completed().is_some_and(|l| *x <= l.ts)) {
                        continue;
                    }
                }
                let wants: Vec<Option<Vec<String>>> = states.iter().map(|(_, m)| expected(plan, m, a)).collect();
                if wants.iter().any(|w| w.is_none()) {
                    continue;
                }
                let got = match &t {
                    Ok(t) => answer(t, a),
                    Err(e) => Err(format!("opening: {e}")),
                };
                info.compared += 1;
                let got = match got {
                    Ok(g) => g,
                    Err(e) => fail!("error", "opened during steps {start}..{opened}, asked at {}: {e}", at.lock().unwrap()),
                };
                let mut w = wants.into_iter();
                let before = states.clone();
                states.retain(|_| w.next().unwrap().as_ref() == Some(&got));
                if states.is_empty() {
                    let e: Vec<String> = before
                        .iter()
                        .map(|(n, m)| format!("after step {n}: {}", shown(&expected(plan, m, a).unwrap())))
                        .collect();
                    fail!(
                        "state",
                        "opened during steps {start}..{opened} of {}, {a:?} asked at step {}: got {}, expected one of (also for {told:?}) {e:?}",
                        steps.len(),
                        at.lock().unwrap(),
                        shown(&got)
                    );
                }
                told.push(a.clone());
            }
            Ok(())
        })();
        b.before_requests(None);
        let n = b.requests();
        b.close();
        r?;
        let end = *at.lock().unwrap();
        info.nontrivial = n > 1 && steps[start..end].iter().any(|d| d.effective);
        info.label_if(steps[start..opened].iter().any(|d| d.effective), "completed while being opened");
        info.label_if(steps[opened..end].iter().any(|d| d.effective), "completed while being read");
        labels(&mut info, &c.w);
        Ok(info)
    }
}
