//! Queries through the public API, and comparison of what comes back with the model.

use crate::fail;
use crate::runner::*;
use crate::sim::*;
use arrow_array::{Array, RecordBatch};
use arrow_cast::display::{ArrayFormatter, FormatOptions};
use hudi_core::table::Table;
use std::future::Future;

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .expect("HARNESS: runtime");
}

pub fn block<F: Future>(f: F) -> F::Output {
    RT.with(|r| r.block_on(f))
}

pub fn err<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> R<T> {
    r.map_err(|e| Fail::new("error", format!("{what} failed: {e}")))
}

pub fn open(uri: &str) -> R<Table> {
    open_with(uri, &[])
}

pub fn open_with(uri: &str, opts: &[(&str, &str)]) -> R<Table> {
    let o: Vec<(String, String)> = opts.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    err("opening the table", block(Table::new_with_options(uri, o)))
}

pub fn fmt_rows(b: &RecordBatch) -> Vec<String> {
    let opt = FormatOptions::default().with_null("∅").with_display_error(true);
    let schema = b.schema();
    // The formatter has no time zone database: compare instants as integers (types are compared
    // on their own).
    let cols: Vec<arrow_array::ArrayRef> = b
        .columns()
        .iter()
        .map(|c| match c.data_type() {
            arrow_schema::DataType::Timestamp(_, Some(_)) => {
                arrow_cast::cast(c, &arrow_schema::DataType::Int64).expect("HARNESS: cast")
            }
            _ => c.clone(),
        })
        .collect();
    let f: Vec<ArrayFormatter> = cols
        .iter()
        .map(|c| ArrayFormatter::try_new(c.as_ref(), &opt).expect("HARNESS: formatter"))
        .collect();
    (0..b.num_rows())
        .map(|i| {
            f.iter()
                .enumerate()
                .map(|(k, x)| {
                    let v = if b.column(k).is_null(i) {
                        "∅".to_string()
                    } else {
                        format!("{:?}", x.value(i).to_string())
                    };
                    format!("{}={v}", schema.field(k).name())
                })
                .collect::<Vec<_>>()
                .join(" ")
        })
        .collect()
}

pub fn rows_of(bs: &[RecordBatch]) -> Vec<String> {
    let mut v: Vec<String> = bs.iter().flat_map(fmt_rows).collect();
    v.sort();
    v
}

pub fn expect_rows(cfg: &TableCfg, rows: &[Row]) -> Vec<String> {
    let mut v = fmt_rows(&batch(cfg, rows));
    v.sort();
    v
}

/// Multiset difference, both sorted: (in a only, in b only).
pub fn diff(a: &[String], b: &[String]) -> (Vec<String>, Vec<String>) {
    let (mut i, mut j) = (0, 0);
    let (mut x, mut y) = (vec![], vec![]);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) {
            x.push(a[i].clone());
            i += 1;
        } else if i >= a.len() || b[j] < a[i] {
            y.push(b[j].clone());
            j += 1;
        } else {
            i += 1;
            j += 1;
        }
    }
    (x, y)
}

pub fn same(what: &str, got: &[String], want: &[String]) -> R<()> {
    let (extra, missing) = diff(got, want);
    if extra.is_empty() && missing.is_empty() {
        return Ok(());
    }
    let show = |v: &[String]| {
        v.iter().take(4).map(|s| s.chars().take(400).collect::<String>()).collect::<Vec<_>>().join("\n    ")
    };
    fail!(
        "rows",
        "{what}: {} returned, {} expected; {} unexpected:\n    {}\n  {} missing:\n    {}",
        got.len(),
        want.len(),
        extra.len(),
        show(&extra),
        missing.len(),
        show(&missing)
    )
}

/// Column names and types, in order.
pub fn same_schema(what: &str, got: &arrow_schema::Schema, want: &arrow_schema::Schema) -> R<()> {
    let f = |s: &arrow_schema::Schema| -> Vec<String> {
        s.fields().iter().map(|f| format!("{}:{}", f.name(), f.data_type())).collect()
    };
    let (g, w) = (f(got), f(want));
    if g != w {
        fail!("schema", "{what}: schema {g:?}, expected {w:?}");
    }
    Ok(())
}

pub fn same_batches(what: &str, cfg: &TableCfg, got: &[RecordBatch], want: &[Row]) -> R<()> {
    let s = cfg.schema();
    for b in got {
        same_schema(what, &b.schema(), &s)?;
    }
    same(what, &rows_of(got), &expect_rows(cfg, want))
}

pub fn all_rows(seen: &[Seen]) -> Vec<Row> {
    seen.iter().flat_map(|s| s.rows.clone()).collect()
}
