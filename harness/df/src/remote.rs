//! SQL over tables on a remote store, some requests to which fail.

use crate::sql::*;
use datafusion::datasource::MemTable;
use datafusion::prelude::SessionContext;
use hv_core::fail;
use hv_core::pbt::Source;
use hv_core::props_read::plan_labels;
use hv_core::props_s3::{conf, fault, store_options};
use hv_core::q::*;
use hv_core::runner::*;
use hv_core::s3::*;
use hv_core::sim::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Serialize, Deserialize)]
pub struct RemoteSqlCase {
    pub sql: SqlCase,
    pub base: String,
    pub page: usize,
    pub upper: bool,
    pub faults: Vec<Fault>,
    /// Whether the table is registered before requests start failing.
    pub late: bool,
}

pub struct RemoteSql {
    pub n: (usize, usize),
}

impl Part for RemoteSql {
    type Case = RemoteSqlCase;
    fn name(&self) -> &'static str {
        "remote"
    }
    fn rule(&self) -> &'static str {
        "a table served by an S3 server and registered with the store's options, and generated queries, with or without requests that fail (refused, dropped, cut short or late) from the registration on or after it: each query returns what it does over an in-memory table of the model's base file rows, or, when a request was hit, is an error; non-trivial: a query that returns rows, or a request that was hit"
    }
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            self.n.0
        } else {
            self.n.1
        }
    }
    fn generate(&self, s: &mut Source) -> RemoteSqlCase {
        let mut sql = Sql { n: (0, 0) }.generate(s);
        sql.queries.truncate(s.usize(1, 3));
        if s.chance(1, 4) {
            sql.queries.push(Query { sql: "SELECT * FROM t".into(), shape: Shape::Rows });
        }
        let nf = if s.chance(2, 3) { s.usize(1, 3) } else { 0 };
        RemoteSqlCase {
            sql,
            base: s.pick(&["t", "a/b c/t", "", "x=1/é"]).to_string(),
            page: *s.pick(&[2, 7, 1000]),
            upper: s.chance(1, 2),
            faults: (0..nf).map(|_| fault(s)).collect(),
            late: s.chance(1, 2),
        }
    }
    fn run(&self, c: &RemoteSqlCase) -> R<Info> {
        conf();
        let plan = &c.sql.plan;
        let d = Scratch::new();
        let mut info = Info::default();
        let dir = d.path().join(&c.base);
        std::fs::create_dir_all(&dir).expect("HARNESS: dir");
        let m = materialize(plan, &dir);
        plan_labels(&mut info, plan, &m);
        if m.latest_completed().is_none() {
            return Ok(info);
        }
        let b = Bucket::new(d.path(), c.page);
        let mut uri = format!("s3://{}", b.name);
        for p in c.base.split('/').filter(|p| !p.is_empty()) {
            uri.push('/');
            uri.push_str(&percent_encoding::utf8_percent_encode(p, percent_encoding::NON_ALPHANUMERIC).to_string());
        }
        let mut options = c.sql.options.clone();
        options.extend(store_options(c.upper));
        let rows = model_rows(plan, &m);
        let r = on(c.sql.session.len() % 2 == 0, async {
            let mem = SessionContext::new();
            let copy = MemTable::try_new(plan.cfg.schema(), vec![vec![batch(&plan.cfg, &rows)]]).expect("HARNESS: rows");
            mem.register_table("t", Arc::new(copy)).expect("HARNESS: register");
            let limited = |q: &Query| match q.shape {
                Shape::Some { limit, offset } => format!("{} LIMIT {limit} OFFSET {offset}", q.sql),
                _ => q.sql.clone(),
            };
            if !c.faults.is_empty() {
                // Once to see what is asked for.
                let ctx = session(&c.sql.session);
                err("registering the table", register(&ctx, "t", &uri, &options, c.sql.ddl).await)?;
                if c.late {
                    b.arm(&[]);
                }
                for q in &c.sql.queries {
                    let _ = async { ctx.sql(&limited(q)).await?.collect().await }.await;
                }
            }
            let ctx = session(&c.sql.session);
            // A table whose faults come late is registered first.
            let mut armed = c.faults.is_empty();
            if !armed && !c.late {
                b.arm(&c.faults);
                armed = true;
            }
            let keep = (!armed).then(|| b.asked());
            match register(&ctx, "t", &uri, &options, c.sql.ddl).await {
                Ok(()) => {}
                Err(_) if b.injected() > 0 => {
                    info.label("an error for a fault");
                    return Ok(());
                }
                Err(e) => fail!("registering", "{e}"),
            }
            if let Some(asked) = keep {
                b.arm_on(&c.faults, asked);
            }
            for q in &c.sql.queries {
                let sql = limited(q);
                let want = async { mem.sql(&q.sql).await?.collect().await }.await;
                let got = async { ctx.sql(&sql).await?.collect().await }.await;
                let hit = b.injected();
                let (want, got) = match (want, got) {
                    (Ok(w), Ok(g)) => (w, g),
                    (_, Err(_)) if hit > 0 => {
                        info.label("an error for a fault");
                        continue;
                    }
                    (Err(_), Err(_)) => continue,
                    (Ok(_), Err(e)) => fail!("error", "{sql}: {e}"),
                    (Err(e), Ok(g)) => fail!("no error", "{sql}: {:?}, expected an error: {e}", rows_of(&g)),
                };
                info.compared += 1;
                let n: usize = want.iter().map(|b| b.num_rows()).sum();
                info.nontrivial |= n > 0;
                info.label_if(n > 0 && hit > 0, "an answer despite a fault");
                let columns = |bs: &[arrow_array::RecordBatch]| bs.first().map(|b| b.num_columns());
                if n > 0 && columns(&got).is_some_and(|g| Some(g) != columns(&want)) {
                    fail!("columns", "{sql} ({hit} requests hit): {:?} columns, not {:?}", columns(&got), columns(&want));
                }
                compare(&format!("{sql} ({hit} requests hit)"), q.shape, &got, &want)?;
            }
            Ok(())
        });
        info.nontrivial |= b.injected() > 0;
        info.label_if(b.injected() > 0, "requests hit");
        info.label_if(b.pages() > 0, "listings in pages");
        b.close();
        r.map(|()| info)
    }
}
