//! SQL over a registered table against the same SQL over an in-memory copy of its base file rows.

use datafusion::catalog::TableProviderFactory;
use datafusion::datasource::MemTable;
use datafusion::execution::session_state::SessionStateBuilder;
use datafusion::prelude::{SessionConfig, SessionContext};
use hudi_datafusion::{HudiDataSource, HudiTableFactory};
use hv_core::fail;
use hv_core::gen::{self, Opts};
use hv_core::pbt::Source;
use hv_core::props_read::plan_labels;
use hv_core::q::*;
use hv_core::runner::*;
use hv_core::sim::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq)]
pub enum Shape {
    /// The same rows in any order.
    Rows,
    /// The same rows in the same order.
    Ordered,
    /// `LIMIT l OFFSET o` of the query without them: any so many of its rows.
    Some { limit: usize, offset: usize },
}

#[derive(Serialize, Deserialize)]
pub struct Query {
    pub sql: String,
    pub shape: Shape,
}

#[derive(Serialize, Deserialize)]
pub struct SqlCase {
    pub plan: Plan,
    pub options: Vec<(String, String)>,
    pub session: Vec<(String, String)>,
    pub ddl: bool,
    /// The base path without the file scheme.
    pub plain_path: bool,
    pub queries: Vec<Query>,
}

pub struct Sql {
    pub n: (usize, usize),
}

fn quote(n: &str) -> String {
    format!("\"{}\"", n.replace('"', "\"\""))
}

fn str_lit(s: &str) -> String {
    format!("'{}'", s.replace('\'', "''"))
}

fn comparable(t: Ty) -> bool {
    !matches!(t, Ty::ListI64 | Ty::StructIS | Ty::TsUs)
}

fn lit(v: &Val, ty: Ty) -> String {
    match (v, ty) {
        (Val::N, _) => "NULL".into(),
        (Val::I(d), Ty::Date) => format!("DATE '{}'", date_str(*d)),
        (Val::I(i), Ty::Dec) => {
            let a = i.unsigned_abs();
            format!("{}{}.{:03}", if *i < 0 { "-" } else { "" }, a / 1000, a % 1000)
        }
        (Val::I(i), _) => {
            // The parser reads the sign and the digits apart.
            format!("{}", (*i).max(-i64::MAX))
        }
        (Val::F(f), Ty::F32) => format!("arrow_cast({:?}, 'Float32')", *f),
        (Val::F(f), _) => format!("{f:?}"),
        (Val::S(s), _) => str_lit(s),
        (Val::B(b), _) => b.to_string(),
        (Val::Y(y), _) => format!("X'{}'", y.iter().map(|b| format!("{b:02x}")).collect::<String>()),
        _ => "NULL".into(),
    }
}

/// Makes queries over a table and the rows it holds.
struct G<'a> {
    cols: Vec<(String, Ty)>,
    rows: &'a [Row],
    meta: bool,
    parts: Vec<usize>,
    prefix: String,
}

impl G<'_> {
    fn name(&self, i: usize) -> String {
        format!("{}{}", self.prefix, quote(&self.cols[i].0))
    }
    /// A value of the column: mostly one that occurs.
    fn value(&self, s: &mut Source, i: usize) -> Val {
        if s.chance(1, 25) {
            return Val::N;
        }
        let ty = self.cols[i].1;
        if !self.rows.is_empty() && s.chance(3, 4) {
            let r = s.pick(self.rows);
            let k = if self.meta { 5 } else { 0 };
            let v = if i < k {
                match i {
                    0 => Val::S(r.ct.clone()),
                    2 => r.vals[0].clone(),
                    _ => Val::S(s.pick(&["", "p0=a", "a", "x"]).to_string()),
                }
            } else {
                r.vals[i - k].clone()
            };
            // An int near it, or the same.
            return match v {
                Val::I(x) if s.chance(1, 4) => Val::I(x.saturating_add(s.range(-1, 1)).clamp(-i64::MAX, i64::MAX)),
                v => v,
            };
        }
        if self.parts.contains(&i) {
            gen::part_val(s, ty, true)
        } else {
            gen::val(s, ty, true)
        }
    }
    fn pick_col(&self, s: &mut Source) -> usize {
        if !self.parts.is_empty() && s.chance(3, 5) {
            return *s.pick(&self.parts);
        }
        s.idx(self.cols.len())
    }
    fn literal(&self, s: &mut Source, i: usize) -> String {
        let v = self.value(s, i);
        let ty = self.cols[i].1;
        // Other spellings of a value of the type, which get coerced.
        match (&v, ty) {
            (Val::I(x), Ty::I32 | Ty::I64) if s.chance(1, 6) => match s.idx(4) {
                0 => format!("'{x}'"),
                1 => format!("{x}.0"),
                2 => format!("{x}.5"),
                _ => format!("CAST({x} AS SMALLINT)").replace("SMALLINT", "BIGINT"),
            },
            (Val::I(x), Ty::Date) if s.chance(1, 3) => match s.idx(2) {
                0 => str_lit(&date_str(*x)),
                _ => format!("TIMESTAMP '{} 00:00:00'", date_str(*x)),
            },
            (Val::B(x), Ty::Bool) if s.chance(1, 6) => format!("'{x}'"),
            (Val::S(x), Ty::Str) if s.chance(1, 8) => match (s.idx(3), x.parse::<i64>()) {
                (0, Ok(n)) if n.to_string() == *x => x.clone(),
                (1, _) => format!("arrow_cast({}, 'Utf8View')", str_lit(x)),
                _ => format!("arrow_cast({}, 'LargeUtf8')", str_lit(x)),
            },
            _ => lit(&v, ty),
        }
    }
    fn op(&self, s: &mut Source) -> &'static str {
        *s.pick(&["=", "<>", "<", "<=", ">", ">=", "!="])
    }
    fn atom(&self, s: &mut Source) -> String {
        let i = self.pick_col(s);
        let (n, ty) = (self.name(i), self.cols[i].1);
        if !comparable(ty) {
            return match ty {
                Ty::StructIS if s.chance(1, 2) => format!("get_field({n}, 'a') {} {}", self.op(s), s.range(-3, 3)),
                Ty::ListI64 if s.chance(1, 2) => format!("array_length({n}) {} {}", self.op(s), s.range(0, 3)),
                Ty::TsUs if s.chance(2, 3) => {
                    format!("arrow_cast({n}, 'Int64') {} {}", self.op(s), s.range(0, 1_800_000_000_000_000))
                }
                _ => format!("{n} IS {}NULL", if s.chance(1, 2) { "NOT " } else { "" }),
            };
        }
        match s.weighted(&[10, 6, 3, 2, 3, 3, 2, 2, 1, 1, 2, 1]) {
            0 => format!("{n} {} {}", self.op(s), self.literal(s, i)),
            1 => format!("{} {} {n}", self.literal(s, i), self.op(s)),
            2 => {
                let same: Vec<usize> = (0..self.cols.len()).filter(|j| self.cols[*j].1 == ty).collect();
                format!("{n} {} {}", self.op(s), self.name(*s.pick(&same)))
            }
            3 => format!("{n} IS {}NULL", if s.chance(1, 2) { "NOT " } else { "" }),
            4 => {
                let k = s.usize(1, 4);
                let l: Vec<String> = (0..k).map(|_| lit(&self.value(s, i), ty)).collect();
                format!("{n} {}IN ({})", if s.chance(1, 3) { "NOT " } else { "" }, l.join(", "))
            }
            5 => {
                let (a, b) = (lit(&self.value(s, i), ty), lit(&self.value(s, i), ty));
                format!("{n} {}BETWEEN {a} AND {b}", if s.chance(1, 3) { "NOT " } else { "" })
            }
            6 if ty == Ty::Str => {
                let p = *s.pick(&["%", "a%", "%a%", "_", "1_", "%\\_%", "s%"]);
                format!("{n} {}LIKE '{p}'", if s.chance(1, 3) { "NOT " } else { "" })
            }
            7 if ty == Ty::Bool => match s.idx(4) {
                0 => n,
                1 => format!("{n} IS TRUE"),
                2 => format!("{n} IS NOT FALSE"),
                _ => format!("{n} IS UNKNOWN"),
            },
            8 => format!(
                "{n} IS {}DISTINCT FROM {}",
                if s.chance(1, 2) { "NOT " } else { "" },
                lit(&self.value(s, i), ty)
            ),
            9 => format!("COALESCE({n}, {0}) {1} {0}", lit(&self.value(s, i), ty), self.op(s)),
            10 if ty != Ty::Bin => format!("CAST({n} AS VARCHAR) {} {}", self.op(s), {
                match part_str_ty(&match self.value(s, i) {
                    v @ (Val::S(_) | Val::B(_) | Val::I(_)) => v,
                    _ => Val::S("1".into()),
                }, ty) {
                    Some(x) => str_lit(&x),
                    None => "''".into(),
                }
            }),
            11 => format!(
                "CASE WHEN {n} {} {} THEN true ELSE {n} IS NULL END",
                self.op(s),
                lit(&self.value(s, i), ty)
            ),
            _ => format!("{n} {} {}", self.op(s), lit(&self.value(s, i), ty)),
        }
    }
    fn pred(&self, s: &mut Source, depth: u32) -> String {
        match if depth == 0 { 0 } else { s.weighted(&[5, 5, 3, 3]) } {
            1 => format!("{} AND {}", self.paren(s, depth), self.paren(s, depth)),
            2 => format!("{} OR {}", self.paren(s, depth), self.paren(s, depth)),
            3 => format!("NOT {}", self.paren(s, depth)),
            _ => self.atom(s),
        }
    }
    fn paren(&self, s: &mut Source, depth: u32) -> String {
        format!("({})", self.pred(s, depth - 1))
    }
    fn filter(&self, s: &mut Source) -> String {
        if s.chance(1, 8) {
            return String::new();
        }
        format!(" WHERE {}", self.pred(s, 2))
    }
    /// Distinct columns whose values can be sorted and grouped.
    fn some_cols(&self, s: &mut Source, sortable: bool) -> Vec<usize> {
        let mut all: Vec<usize> =
            (0..self.cols.len()).filter(|i| !sortable || comparable(self.cols[*i].1)).collect();
        let n = s.usize(1, all.len().min(4));
        let mut v = vec![];
        for _ in 0..n {
            v.push(all.remove(s.idx(all.len())));
        }
        v
    }
    fn list(&self, c: &[usize]) -> String {
        c.iter().map(|i| self.name(*i)).collect::<Vec<_>>().join(", ")
    }
    fn query(&self, s: &mut Source) -> Query {
        let f = self.filter(s);
        let rows = |sql: String| Query { sql, shape: Shape::Rows };
        match s.weighted(&[6, 3, 3, 4, 2, 2, 2, 1, 1]) {
            0 => rows(if s.chance(1, 2) {
                format!("SELECT * FROM t{f}")
            } else {
                format!("SELECT {} FROM t{f}", self.list(&self.some_cols(s, false)))
            }),
            1 => {
                let (limit, offset) = (s.usize(0, 8), if s.chance(1, 4) { s.usize(0, 4) } else { 0 });
                let c = self.some_cols(s, false);
                Query { sql: format!("SELECT {} FROM t{f}", self.list(&c)), shape: Shape::Some { limit, offset } }
            }
            2 => {
                let c = self.some_cols(s, true);
                let o: Vec<String> = c
                    .iter()
                    .map(|i| {
                        let d = *s.pick(&["", " DESC", " ASC NULLS FIRST", " DESC NULLS LAST"]);
                        format!("{}{d}", self.name(*i))
                    })
                    .collect();
                let l = if s.chance(2, 3) { format!(" LIMIT {}", s.usize(0, 8)) } else { String::new() };
                let l = if s.chance(1, 5) { format!("{l} OFFSET {}", s.usize(0, 3)) } else { l };
                Query {
                    sql: format!("SELECT {} FROM t{f} ORDER BY {}{l}", self.list(&c), o.join(", ")),
                    shape: Shape::Ordered,
                }
            }
            3 => {
                let g = self.some_cols(s, true);
                let mut a = vec!["count(*)".to_string()];
                for i in self.some_cols(s, true) {
                    let n = self.name(i);
                    match s.idx(4) {
                        0 => a.push(format!("count({n})")),
                        1 if self.cols[i].1 != Ty::Bin => a.push(format!("min({n})")),
                        2 if self.cols[i].1 != Ty::Bin => a.push(format!("max({n})")),
                        _ => a.push(format!("count(DISTINCT {n})")),
                    }
                }
                let a: Vec<String> = a.iter().enumerate().map(|(i, x)| format!("{x} AS a{i}")).collect();
                if s.chance(1, 2) {
                    rows(format!("SELECT {} FROM t{f}", a.join(", ")))
                } else {
                    let h = if s.chance(1, 3) { format!(" HAVING count(*) > {}", s.range(0, 2)) } else { String::new() };
                    rows(format!("SELECT {}, {} FROM t{f} GROUP BY {}{h}", self.list(&g), a.join(", "), self.list(&g)))
                }
            }
            4 => rows(format!("SELECT DISTINCT {} FROM t{f}", self.list(&self.some_cols(s, true)))),
            5 => {
                let (a, b) = (self.with("a."), self.with("b."));
                let i = s.idx(self.cols.len());
                let j = if comparable(self.cols[i].1) { i } else { self.cols.iter().position(|c| c.0 == "key").unwrap() };
                let kind = *s.pick(&["JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN"]);
                let w = match s.idx(3) {
                    0 => String::new(),
                    1 => format!(" WHERE {}", a.pred(s, 1)),
                    _ => format!(" WHERE ({}) AND ({})", a.pred(s, 1), b.pred(s, 1)),
                };
                let on = if s.chance(1, 3) { format!(" AND {}", b.atom(s)) } else { String::new() };
                rows(format!(
                    "SELECT a.key AS k1, b.key AS k2 FROM t a {kind} t b ON {} = {}{on}{w}",
                    a.name(j),
                    b.name(j)
                ))
            }
            6 => {
                let i = self.pick_col(s);
                let i = if comparable(self.cols[i].1) { i } else { self.cols.iter().position(|c| c.0 == "key").unwrap() };
                let n = self.name(i);
                rows(format!("SELECT key FROM t WHERE {n} {}IN (SELECT {n} FROM t{f})", if s.chance(1, 4) { "NOT " } else { "" }))
            }
            7 => rows(format!(
                "SELECT key, 1 AS w FROM t{f} UNION ALL SELECT key, 2 AS w FROM t{}",
                self.filter(s)
            )),
            _ => rows(format!(
                "SELECT key FROM (SELECT * FROM t{f}) x{}",
                self.filter(s)
            )),
        }
    }
    fn with(&self, prefix: &str) -> G<'_> {
        G { cols: self.cols.clone(), rows: self.rows, meta: self.meta, parts: self.parts.clone(), prefix: prefix.into() }
    }
}

pub fn model_rows(plan: &Plan, m: &Model) -> Vec<Row> {
    match m.latest_completed() {
        Some(i) => m.snapshot(&plan.cfg, &i.ts).iter().flat_map(|s| s.base_only_rows.clone()).collect(),
        None => vec![],
    }
}

thread_local! {
    static SINGLE: tokio::runtime::Runtime =
        tokio::runtime::Builder::new_current_thread().enable_all().build().expect("HARNESS: runtime");
}
fn multi() -> &'static tokio::runtime::Runtime {
    static M: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    M.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().expect("HARNESS: runtime"))
}

pub fn on<F: std::future::Future>(many: bool, f: F) -> F::Output {
    if many {
        multi().block_on(f)
    } else {
        SINGLE.with(|r| r.block_on(f))
    }
}

/// A session with these settings.
pub fn session(settings: &[(String, String)]) -> SessionContext {
    let mut conf = SessionConfig::new();
    for (k, v) in settings {
        conf.options_mut().set(k, v).unwrap_or_else(|e| panic!("HARNESS: {k}: {e}"));
    }
    let factory: Arc<dyn TableProviderFactory> = Arc::new(HudiTableFactory::new());
    let state = SessionStateBuilder::new()
        .with_default_features()
        .with_config(conf)
        .with_table_factories(HashMap::from([("HUDI".to_string(), factory)]))
        .build();
    SessionContext::new_with_state(state)
}

/// Registers the table through its provider or a statement.
pub async fn register(
    ctx: &SessionContext,
    name: &str,
    uri: &str,
    options: &[(String, String)],
    ddl: bool,
) -> datafusion::error::Result<()> {
    if ddl {
        let o: Vec<String> = options.iter().map(|(k, v)| format!("'{k}' '{v}'")).collect();
        let o = if o.is_empty() { String::new() } else { format!(" OPTIONS ({})", o.join(", ")) };
        let sql = format!("CREATE EXTERNAL TABLE {name} STORED AS HUDI LOCATION {}{o}", str_lit(uri));
        ctx.sql(&sql).await?;
    } else {
        let o: Vec<(String, String)> = options.to_vec();
        ctx.register_table(name, Arc::new(HudiDataSource::new_with_options(uri, o).await?))?;
    }
    Ok(())
}

/// Whether these are rows that the query returns: `want` is what it does without the limit.
pub fn compare(sql: &str, shape: Shape, got: &[arrow_array::RecordBatch], want: &[arrow_array::RecordBatch]) -> R<()> {
    let list = |bs: &[arrow_array::RecordBatch]| -> Vec<String> { bs.iter().flat_map(fmt_rows).collect() };
    let (mut g, mut w) = (list(got), list(want));
    match shape {
        Shape::Ordered => {
            if g != w {
                fail!("order", "{sql}: {g:?}, expected {w:?}");
            }
        }
        Shape::Rows => {
            g.sort();
            w.sort();
            same(sql, &g, &w)?;
        }
        Shape::Some { limit, offset } => {
            let n = w.len().saturating_sub(offset).min(limit);
            if g.len() != n {
                fail!("limit", "{sql}: {} rows, expected {n}", g.len());
            }
            g.sort();
            w.sort();
            let (extra, _) = diff(&g, &w);
            if !extra.is_empty() {
                fail!("rows", "{sql}: {extra:?} not in the table");
            }
        }
    }
    Ok(())
}

impl Part for Sql {
    type Case = SqlCase;
    fn name(&self) -> &'static str {
        "sql"
    }
    fn rule(&self) -> &'static str {
        "a history registered as a table (through the provider or CREATE EXTERNAL TABLE, with generated input partitions and session settings), and generated queries (predicates over any columns, projections, limits, orderings, aggregates, joins, subqueries), each compared with the same query over an in-memory table of the model's base file rows; non-trivial: a query with a predicate returns some rows but fewer than all, or prunes by a partition column"
    }
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            self.n.0
        } else {
            self.n.1
        }
    }
    fn generate(&self, s: &mut Source) -> SqlCase {
        let o = Opts { partitioned: Some(s.chance(4, 5)), many_groups: s.chance(1, 3), big: false, ..Opts::all() };
        let plan = gen::plan(s, &o);
        let m = Model::of(&plan);
        let rows = model_rows(&plan, &m);
        let mut cols: Vec<(String, Ty)> = vec![];
        if plan.cfg.meta {
            cols.extend(META.iter().map(|n| (n.to_string(), Ty::Str)));
        }
        let k = cols.len();
        cols.extend(plan.cfg.cols.iter().map(|c| (c.name.clone(), c.ty)));
        let g = G {
            cols,
            rows: &rows,
            meta: plan.cfg.meta,
            parts: plan.cfg.parts.iter().map(|p| p + k).collect(),
            prefix: String::new(),
        };
        let n = s.usize(3, 8);
        let queries = (0..n).map(|_| g.query(s)).collect();
        let mut options = vec![];
        if s.chance(3, 4) {
            options.push(("hoodie.read.input.partitions".to_string(), s.pick(&["0", "1", "2", "3", "5", "100"]).to_string()));
        }
        if s.chance(1, 4) {
            options.push(("hoodie.read.listing.parallelism".to_string(), s.pick(&["1", "2", "20"]).to_string()));
        }
        let mut session = vec![];
        for (k, vs) in [
            ("datafusion.execution.target_partitions", &["1", "2", "3", "8"][..]),
            ("datafusion.execution.batch_size", &["1", "2", "7", "8192"]),
            ("datafusion.execution.parquet.pushdown_filters", &["true", "false"]),
            ("datafusion.execution.parquet.reorder_filters", &["true", "false"]),
            ("datafusion.execution.parquet.pruning", &["true", "false"]),
            ("datafusion.execution.parquet.enable_page_index", &["true", "false"]),
            ("datafusion.execution.parquet.bloom_filter_on_read", &["true", "false"]),
            ("datafusion.execution.parquet.schema_force_view_types", &["true", "false"]),
            ("datafusion.execution.parquet.skip_metadata", &["true", "false"]),
            ("datafusion.execution.parquet.metadata_size_hint", &["8", "1000", "100000"]),
            ("datafusion.execution.collect_statistics", &["true", "false"]),
            ("datafusion.execution.coalesce_batches", &["true", "false"]),
            ("datafusion.optimizer.repartition_file_scans", &["true", "false"]),
            ("datafusion.optimizer.repartition_file_min_size", &["0", "1", "100"]),
            ("datafusion.optimizer.enable_round_robin_repartition", &["true", "false"]),
        ] {
            if s.chance(1, 3) {
                session.push((k.to_string(), s.pick(vs).to_string()));
            }
        }
        SqlCase { plan, options, session, ddl: s.chance(1, 3), plain_path: s.chance(1, 3), queries }
    }
    fn run(&self, c: &SqlCase) -> R<Info> {
        let plan = &c.plan;
        let d = Scratch::new();
        let mut info = Info::default();
        let m = materialize(plan, d.path());
        plan_labels(&mut info, plan, &m);
        let many = c.session.len() % 2 == 0;
        on(many, async {
            let ctx = session(&c.session);
            let uri = if c.plain_path { d.path().to_str().unwrap().to_string() } else { d.uri() };
            err("creating the table", register(&ctx, "t", &uri, &c.options, c.ddl).await)?;
            let provider = err("provider", ctx.table_provider("t").await)?;
            if m.latest_completed().is_none() {
                let got = err("count", async { ctx.sql("SELECT count(*) AS n FROM t").await?.collect().await }.await)?;
                let got = rows_of(&got);
                if got != vec!["n=\"0\"".to_string()] {
                    fail!("rows", "an empty table has {got:?} rows");
                }
                return Ok(info);
            }
            same_schema("the provider", &provider.schema(), &plan.cfg.schema())?;
            let rows = model_rows(plan, &m);
            let mem = SessionContext::new();
            let copy = MemTable::try_new(plan.cfg.schema(), vec![vec![batch(&plan.cfg, &rows)]]).expect("HARNESS: rows");
            mem.register_table("t", Arc::new(copy)).expect("HARNESS: register");
            for q in &c.queries {
                let sql = match q.shape {
                    Shape::Some { limit, offset } => format!("{} LIMIT {limit} OFFSET {offset}", q.sql),
                    _ => q.sql.clone(),
                };
                let want = async { mem.sql(&q.sql).await?.collect().await }.await;
                let got = async { ctx.sql(&sql).await?.collect().await }.await;
                let (want, got) = match (want, got) {
                    (Ok(w), Ok(g)) => (w, g),
                    (Err(_), Err(_)) => {
                        info.label("refused by both");
                        continue;
                    }
                    (Ok(_), Err(e)) => fail!("error", "{sql}: {e}"),
                    (Err(e), Ok(g)) => {
                        fail!("no error", "{sql}: {:?}, expected an error: {e}", rows_of(&g))
                    }
                };
                let n: usize = want.iter().map(|b| b.num_rows()).sum();
                if sql.contains(" WHERE ") && n > 0 && n < rows.len() {
                    info.nontrivial = true;
                }
                info.compared += 1;
                info.label_if(q.shape == Shape::Ordered, "ordered");
                info.label_if(matches!(q.shape, Shape::Some { .. }), "limit");
                compare(&sql, q.shape, &got, &want)?;
            }
            Ok(())
                .map(|_| {
                    info.label_if(c.ddl, "external table");
                    info
                })
        })
    }
}
