//! Direct scans of the provider with filters as a planner may hand them over.

use crate::sql::{model_rows, on};
use arrow_array::{Array, BooleanArray, RecordBatch};
use datafusion::catalog::TableProvider;
use datafusion::common::{DFSchema, ScalarValue};
use datafusion::logical_expr::{binary_expr, lit, Expr, Operator, TableProviderFilterPushDown};
use datafusion::physical_plan::collect;
use datafusion::prelude::SessionContext;
use hudi_datafusion::HudiDataSource;
use hv_core::fail;
use hv_core::gen::{self, Opts};
use hv_core::pbt::Source;
use hv_core::q::*;
use hv_core::runner::*;
use hv_core::sim::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone)]
pub enum P {
    /// Column, operator, value; the value on the left side.
    Cmp(String, Ty, u8, Val, bool),
    Cols(String, u8, String),
    Not(Box<P>),
    And(Box<P>, Box<P>),
    Or(Box<P>, Box<P>),
    In(String, Ty, Vec<Val>, bool),
    Null(String, bool),
}

fn scalar(v: &Val, ty: Ty) -> ScalarValue {
    let a = build_array(ty, &[v]);
    ScalarValue::try_from_array(&a, 0).expect("HARNESS: scalar")
}

fn oper(i: u8) -> Operator {
    [Operator::Eq, Operator::NotEq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq][i as usize % 6]
}

fn name(c: &str) -> Expr {
    Expr::Column(datafusion::common::Column::from_name(c))
}

pub fn expr(p: &P) -> Expr {
    match p {
        P::Cmp(c, ty, op, v, flip) => {
            let l = lit(scalar(v, *ty));
            if *flip {
                binary_expr(l, oper(*op), name(c))
            } else {
                binary_expr(name(c), oper(*op), l)
            }
        }
        P::Cols(a, op, b) => binary_expr(name(a), oper(*op), name(b)),
        P::Not(p) => Expr::Not(Box::new(expr(p))),
        P::And(a, b) => expr(a).and(expr(b)),
        P::Or(a, b) => expr(a).or(expr(b)),
        P::In(c, ty, vs, neg) => name(c).in_list(vs.iter().map(|v| lit(scalar(v, *ty))).collect(), *neg),
        P::Null(c, true) => name(c).is_null(),
        P::Null(c, false) => name(c).is_not_null(),
    }
}

#[derive(Serialize, Deserialize)]
pub struct ScanCase {
    pub plan: Plan,
    pub splits: Option<u32>,
    pub filters: Vec<P>,
    /// Columns left out of the projection; none: no projection.
    pub drop: Option<Vec<usize>>,
    pub limit: Option<usize>,
    pub pushdown: bool,
}

pub struct Scans {
    pub n: (usize, usize),
}

fn pred(s: &mut Source, plan: &Plan, rows: &[Row], depth: u32) -> P {
    let cols: Vec<usize> = (0..plan.cfg.cols.len())
        .filter(|i| !matches!(plan.cfg.cols[*i].ty, Ty::ListI64 | Ty::StructIS))
        .collect();
    let pick = |s: &mut Source| {
        if !plan.cfg.parts.is_empty() && s.chance(3, 4) {
            *s.pick(&plan.cfg.parts)
        } else {
            *s.pick(&cols)
        }
    };
    let value = |s: &mut Source, i: usize| -> Val {
        let ty = plan.cfg.cols[i].ty;
        if s.chance(1, 12) {
            Val::N
        } else if !rows.is_empty() && s.chance(3, 4) {
            s.pick(rows).vals[i].clone()
        } else if plan.cfg.parts.contains(&i) {
            gen::part_val(s, ty, true)
        } else {
            gen::val(s, ty, true)
        }
    };
    if depth > 0 {
        match s.weighted(&[6, 3, 1, 1]) {
            1 => return P::Not(Box::new(pred(s, plan, rows, depth - 1))),
            2 => return P::And(Box::new(pred(s, plan, rows, depth - 1)), Box::new(pred(s, plan, rows, depth - 1))),
            3 => return P::Or(Box::new(pred(s, plan, rows, depth - 1)), Box::new(pred(s, plan, rows, depth - 1))),
            _ => {}
        }
    }
    let i = pick(s);
    let c = &plan.cfg.cols[i];
    match s.weighted(&[12, 2, 2, 1]) {
        1 => {
            let same: Vec<usize> = cols.iter().copied().filter(|j| plan.cfg.cols[*j].ty == c.ty).collect();
            P::Cols(c.name.clone(), s.below(6) as u8, plan.cfg.cols[*s.pick(&same)].name.clone())
        }
        2 => {
            let n = s.usize(1, 3);
            P::In(c.name.clone(), c.ty, (0..n).map(|_| value(s, i)).collect(), s.chance(1, 3))
        }
        3 => P::Null(c.name.clone(), s.chance(1, 2)),
        _ => P::Cmp(c.name.clone(), c.ty, s.below(6) as u8, value(s, i), s.chance(1, 2)),
    }
}

/// The rows of a batch that meet all the filters.
fn matching(b: &RecordBatch, filters: &[Expr]) -> R<RecordBatch> {
    let Some(f) = filters.iter().cloned().reduce(|a, b| a.and(b)) else { return Ok(b.clone()) };
    let ctx = SessionContext::new();
    let schema = DFSchema::try_from(b.schema()).expect("HARNESS: schema");
    let e = ctx.create_physical_expr(f, &schema).expect("HARNESS: expression");
    let m = e.evaluate(b).and_then(|m| m.into_array(b.num_rows())).expect("HARNESS: evaluation");
    let m = m.as_any().downcast_ref::<BooleanArray>().expect("HARNESS: mask").clone();
    let m: BooleanArray = (0..m.len()).map(|i| Some(m.is_valid(i) && m.value(i))).collect();
    Ok(arrow_select::filter::filter_record_batch(b, &m).expect("HARNESS: filter"))
}

impl Part for Scans {
    type Case = ScanCase;
    fn name(&self) -> &'static str {
        "scans"
    }
    fn rule(&self) -> &'static str {
        "a history and a direct scan of the provider with a projection, a limit and those of the generated filters (operands on either side, nulls, negations, columns on both sides) whose pushdown it accepts: every row of the model's base files that meets the filters must be returned, once, and none that is not in the table; a filter declared exact must leave only rows that meet it; non-trivial: some but not all rows meet the filters"
    }
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            self.n.0
        } else {
            self.n.1
        }
    }
    fn generate(&self, s: &mut Source) -> ScanCase {
        let o = Opts { partitioned: Some(s.chance(7, 8)), min_parts: 2, many_groups: s.chance(1, 3), big: false, ..Opts::all() };
        let plan = gen::plan(s, &o);
        let rows = model_rows(&plan, &Model::of(&plan));
        let n = s.weighted(&[1, 5, 3, 1]);
        let filters: Vec<P> = (0..n).map(|_| pred(s, &plan, &rows, 2)).collect();
        let drop = if s.chance(1, 2) {
            let all = plan.cfg.schema().fields().len();
            Some((0..s.usize(0, 4)).map(|_| s.idx(all)).collect())
        } else {
            None
        };
        let limit = if filters.is_empty() && s.chance(2, 3) { Some(s.usize(0, 6)) } else { None };
        ScanCase {
            plan,
            splits: if s.chance(2, 3) { Some(s.below(6) as u32) } else { None },
            filters,
            drop,
            limit,
            pushdown: s.chance(1, 2),
        }
    }
    fn run(&self, c: &ScanCase) -> R<Info> {
        let plan = &c.plan;
        let d = Scratch::new();
        let mut info = Info::default();
        let m = materialize(plan, d.path());
        if m.latest_completed().is_none() {
            return Ok(info);
        }
        on(c.pushdown, async {
            let mut conf = datafusion::prelude::SessionConfig::new();
            conf.options_mut().execution.parquet.pushdown_filters = c.pushdown;
            let ctx = SessionContext::new_with_config(conf);
            let o: Vec<(String, String)> =
                c.splits.iter().map(|n| ("hoodie.read.input.partitions".to_string(), n.to_string())).collect();
            let p = err("creating the provider", HudiDataSource::new_with_options(&d.uri(), o).await)?;
            let all: Vec<Expr> = c.filters.iter().map(expr).collect();
            let refs: Vec<&Expr> = all.iter().collect();
            let support = err("supports_filters_pushdown", p.supports_filters_pushdown(&refs))?;
            if support.len() != all.len() {
                fail!("pushdown", "{} answers for {} filters", support.len(), all.len());
            }
            let mut filters = vec![];
            let mut exact = vec![];
            for (e, s) in all.iter().zip(&support) {
                if *s != TableProviderFilterPushDown::Unsupported {
                    filters.push(e.clone());
                }
                if *s == TableProviderFilterPushDown::Exact {
                    exact.push(e.clone());
                }
            }
            // The columns the filters use stay, for the filters to be applied again.
            let schema = plan.cfg.schema();
            let projection: Option<Vec<usize>> = c.drop.as_ref().map(|drop| {
                (0..schema.fields().len())
                    .filter(|i| {
                        !drop.contains(i)
                            || filters.iter().any(|f| f.column_refs().iter().any(|r| r.name() == schema.field(*i).name()))
                    })
                    .collect()
            });
            let what = format!("scanning with {filters:?}, projection {projection:?}, limit {:?}", c.limit);
            let scan = err(&what, p.scan(&ctx.state(), projection.as_ref(), &filters, c.limit).await)?;
            let want_schema = match &projection {
                Some(p) => Arc::new(schema.project(p).expect("HARNESS: projection")),
                None => schema.clone(),
            };
            same_schema("the scan", &scan.schema(), &want_schema)?;
            let got = err(&what, collect(scan, ctx.task_ctx()).await)?;
            let rows = batch(&plan.cfg, &model_rows(plan, &m));
            let project = |b: &RecordBatch| match &projection {
                Some(p) => b.project(p).expect("HARNESS: projection"),
                None => b.clone(),
            };
            let meets = matching(&rows, &filters)?;
            let want = rows_of(&[project(&meets)]);
            let every = rows_of(&[project(&rows)]);
            let seen = rows_of(&got);
            let (extra, _) = diff(&seen, &every);
            if !extra.is_empty() {
                fail!("rows", "{what}: {extra:?} not in the table");
            }
            let mut left = vec![];
            for b in &got {
                left.push(matching(b, &filters)?);
                let met = matching(b, &exact)?;
                if met.num_rows() != b.num_rows() {
                    fail!("exact", "{what}: rows that do not meet an exact filter");
                }
            }
            match c.limit {
                Some(n) if filters.is_empty() => {
                    if seen.len() < n.min(every.len()) {
                        fail!("limit", "{what}: {} of {} rows", seen.len(), every.len());
                    }
                }
                _ => same(&what, &rows_of(&left), &want)?,
            }
            info.compared += 1;
            info.nontrivial = !want.is_empty() && want.len() < every.len() || c.limit.is_some_and(|n| n > 0 && n < every.len());
            info.label_if(filters.len() > 1, "several filters");
            info.label_if(seen.len() < every.len(), "rows pruned");
            Ok(info)
        })
    }
}
