//! Snapshot, time-travel and incremental reads against the reference model.

use crate::gen::{self, Opts};
use crate::pbt::Source;
use crate::q::*;
use crate::runner::*;
use crate::sim::*;
use serde::{Deserialize, Serialize};

pub fn plan_labels(i: &mut Info, plan: &Plan, m: &Model) {
    i.label(if plan.cfg.mor { "mor" } else { "cow" });
    i.label_if(plan.cfg.partitioned(), "partitioned");
    i.label_if(plan.cfg.parts.len() > 1, "multi-field partitions");
    i.label_if(plan.partitions.len() > 10, "many partitions");
    i.label_if(plan.partitions.iter().any(|p| p.contains(&Val::N)), "null partition");
    i.label_if(plan.ops.len() > 30, "many operations");
    i.label_if(!plan.cfg.meta, "no meta fields");
    i.label_if(plan.cfg.append_only(), "append-only");
    i.label_if(plan.cfg.mor && plan.cfg.fmt == BlockFmt::Avro, "avro blocks");
    i.label_if(plan.cfg.mor && plan.cfg.append_logs, "log append");
    let mut seen: Vec<String> = vec![];
    for o in &plan.ops {
        let l = match o {
            Op::Commit { op_type, fate: Fate::Inflight, .. } if op_type == "COMPACT" => {
                "op: failed compaction".to_string()
            }
            Op::Commit { op_type, fate: Fate::Requested, .. } if op_type == "COMPACT" => {
                "op: requested compaction".to_string()
            }
            Op::Commit { fate: Fate::Inflight, .. } => "op: failed (inflight)".to_string(),
            Op::Commit { fate: Fate::Requested, .. } => "op: failed (requested)".to_string(),
            Op::Commit { op_type, writes, .. } if writes.is_empty() => format!("op: {op_type} without writes"),
            Op::Commit { op_type, .. } => format!("op: {op_type}"),
            Op::Rollback { .. } => "op: rollback".to_string(),
            Op::Clean { .. } => "op: clean".to_string(),
            Op::Other { .. } => "op: other action".to_string(),
        };
        if !seen.contains(&l) {
            seen.push(l);
        }
    }
    for l in seen {
        i.label(l);
    }
    i.label_if(m.instants.iter().any(|i| i.baseless), "logs upon a pending compaction");
    i.label_if(m.fgs.iter().any(|f| f.slices.len() > 1), "several slices");
    i.label_if(m.fgs.iter().any(|f| f.slices.iter().any(|s| s.logs.len() > 1)), "several log files");
    i.label_if(m.fgs.iter().any(|f| f.slices.iter().any(|s| s.logs.iter().any(|l| l.version > 9))), "log version over 9");
}

pub struct Snapshot {
    pub name: &'static str,
    pub o: Opts,
    pub n: (usize, usize),
}

impl Part for Snapshot {
    type Case = Plan;
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        "a random table history is written to disk; after every operation the table is opened afresh and its snapshot compared, as a multiset of rows and a schema, with the reference model; non-trivial: at least two data-changing operations and a visible file group"
    }
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { self.n.0 } else { self.n.1 }
    }
    fn generate(&self, s: &mut Source) -> Plan {
        gen::plan(s, &self.o)
    }
    fn run(&self, plan: &Plan) -> R<Info> {
        let d = Scratch::new();
        let mut info = Info::default();
        let empty = Plan { ops: vec![], ..plan.clone() };
        let mut m = materialize(&empty, d.path());
        for (k, op) in plan.ops.iter().enumerate() {
            apply_files(plan, &mut m, op, d.path());
            let want = match m.latest_completed() {
                Some(t) => all_rows(&m.snapshot(&plan.cfg, &t.ts.clone())),
                None => vec![],
            };
            let t = open(&d.uri())?;
            let got = err(&format!("snapshot after op {k}"), block(t.read_snapshot(&[])))?;
            same_batches(&format!("snapshot after op {k}"), &plan.cfg, &got, &want)?;
            info.compared += 1;
        }
        let writes = plan.ops.iter().filter(|o| matches!(o, Op::Commit { .. } | Op::Rollback { .. })).count();
        info.nontrivial = writes >= 2 && !m.fgs.is_empty();
        plan_labels(&mut info, plan, &m);
        Ok(info)
    }
}

#[derive(Serialize, Deserialize)]
pub struct TravelCase {
    pub plan: Plan,
    pub at: Vec<String>,
}

pub struct Travel {
    pub o: Opts,
    pub n: (usize, usize),
}

impl Part for Travel {
    type Case = TravelCase;
    fn name(&self) -> &'static str {
        "as-of"
    }
    fn rule(&self) -> &'static str {
        "a random history, then reads as of its instants, of times between them, before the first and after the last; non-trivial: at least two different answers"
    }
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { self.n.0 } else { self.n.1 }
    }
    fn generate(&self, s: &mut Source) -> TravelCase {
        let plan = gen::plan(s, &self.o);
        let m = Model::of(&plan);
        let n = s.usize(1, 5);
        let at = (0..n).map(|_| gen::as_of(s, &plan, &m)).collect();
        TravelCase { plan, at }
    }
    fn run(&self, c: &TravelCase) -> R<Info> {
        let d = Scratch::new();
        let mut info = Info::default();
        let m = materialize(&c.plan, d.path());
        let t = open(&d.uri())?;
        let mut answers = vec![];
        if m.latest_completed().is_none() {
            info.label("empty table");
            return Ok(info);
        }
        for at in &c.at {
            let want = all_rows(&m.snapshot(&c.plan.cfg, at));
            let got = err(&format!("as of {at}"), block(t.read_snapshot_as_of(at, &[])))?;
            same_batches(&format!("as of {at}"), &c.plan.cfg, &got, &want)?;
            info.compared += 1;
            let a = expect_rows(&c.plan.cfg, &want);
            if !answers.contains(&a) {
                answers.push(a);
            }
        }
        info.nontrivial = answers.len() > 1;
        plan_labels(&mut info, &c.plan, &m);
        Ok(info)
    }
}

pub struct Incremental {
    pub o: Opts,
    pub n: (usize, usize),
}

#[derive(Serialize, Deserialize)]
pub struct IncCase {
    pub plan: Plan,
    pub windows: Vec<(String, Option<String>)>,
}

impl Part for Incremental {
    type Case = IncCase;
    fn name(&self) -> &'static str {
        "incremental"
    }
    fn rule(&self) -> &'static str {
        "a random history, then incremental reads over windows with and without an end; non-trivial: a window that returns some but not all rows"
    }
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick { self.n.0 } else { self.n.1 }
    }
    fn generate(&self, s: &mut Source) -> IncCase {
        let plan = gen::plan(s, &self.o);
        let m = Model::of(&plan);
        let n = s.usize(1, 5);
        let mut windows = vec![];
        let ts: Vec<String> = plan.ops.iter().map(|o| o.ts().to_string()).collect();
        for _ in 0..n {
            let end = if s.chance(1, 2) { Some(gen::as_of(s, &plan, &m)) } else { None };
            let start = match s.weighted(&[4, 2, 2]) {
                0 => s.pick(&ts).clone().min(s.pick(&ts).clone()),
                1 => {
                    let t = s.pick(&ts).clone();
                    if s.chance(1, 3) { gen::other_precision(s, &t) } else { gen::shift(&t, -1) }
                }
                _ => if plan.cfg.ts14 { "19700101000000".into() } else { "19700101000000000".into() },
            };
            windows.push((start, end));
        }
        IncCase { plan, windows }
    }
    fn run(&self, c: &IncCase) -> R<Info> {
        let d = Scratch::new();
        let mut info = Info::default();
        let m = materialize(&c.plan, d.path());
        let t = open(&d.uri())?;
        let Some(latest) = m.latest_completed().map(|i| i.ts.clone()) else {
            let got = err("incremental", block(t.read_incremental_records("19700101000000000", None)))?;
            same_batches("incremental on an empty table", &c.plan.cfg, &got, &[])?;
            return Ok(info);
        };
        for (st, end) in &c.windows {
            let e = end.clone().unwrap_or(latest.clone());
            if st.as_str() >= e.as_str() || e < m.keep_from {
                info.label("empty window");
            }
            let want = all_rows(&m.seen(&c.plan.cfg, Some(st), &e));
            let what = format!("incremental ({st}, {end:?}]");
            let got = block(t.read_incremental_records(st, end.as_deref()));
            if got.is_err() && m.baseless_in(st, &e) {
                info.label("refused: logs upon a pending compaction");
                continue;
            }
            let got = err(&what, got)?;
            same_batches(&what, &c.plan.cfg, &got, &want)?;
            info.compared += 1;
            let all = all_rows(&m.snapshot(&c.plan.cfg, &e)).len();
            if !want.is_empty() && want.len() < all {
                info.nontrivial = true;
            }
        }
        plan_labels(&mut info, &c.plan, &m);
        Ok(info)
    }
}
