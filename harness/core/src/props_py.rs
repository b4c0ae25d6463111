//! The Python API against the Rust API: the same calls on the same table.

use crate::fail;
use crate::gen::{self, Opts};
use crate::pbt::Source;
use crate::props_read::plan_labels;
use crate::props_table::gen_filters;
use crate::q::*;
use crate::runner::*;
use crate::sim::*;
use arrow_array::RecordBatch;
use hudi_core::file_group::file_slice::FileSlice;
use hudi_core::file_group::reader::FileGroupReader;
use hudi_core::table::builder::TableBuilder;
use hudi_core::table::Table;
use hudi_core::timeline::instant::Instant;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Display;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;

pub type Pairs = Vec<(String, String)>;
pub type Filters = Vec<(String, String, String)>;

#[derive(Serialize, Deserialize, Clone)]
pub enum Call {
    HudiOptions,
    StorageOptions,
    /// table_name, table_type, is_mor, timezone
    Property(String),
    AvroSchema,
    Schema,
    PartitionSchema,
    Slices(Option<Filters>),
    SlicesAsOf(String, Option<Filters>),
    Splits(u32, Option<Filters>),
    SplitsAsOf(u32, String, Option<Filters>),
    Between(Option<String>, Option<String>),
    Read(Option<Filters>),
    ReadAsOf(String, Option<Filters>),
    Incremental(String, Option<String>),
    /// The slices as of a time, with reader options, through a reader of its own or the table's.
    ReadSlices(String, Option<Pairs>, bool),
    ReadBases(String, Option<Pairs>, bool),
    /// The slices changed in a window.
    ReadBetween(Option<String>, Option<String>, Option<Pairs>),
    ReadPath(String),
    /// commits, deltacommits, replacecommits, clustering_commits; descending
    Instants(String, Option<bool>),
    Metadata,
    LatestTimestamp,
    LatestAvroSchema,
    LatestSchema,
    /// Arguments of the wrong kind: the method and its arguments.
    Bad(String, Value),
}

#[derive(Serialize, Deserialize, Clone)]
pub struct PyCase {
    pub plan: Plan,
    /// How the table is opened: 0 the constructor, 1 the build function, 2 the builder.
    pub kind: u8,
    pub style: u8,
    pub hudi: Option<Pairs>,
    pub storage: Option<Pairs>,
    pub options: Option<Pairs>,
    /// 0 the URI, 1 the plain path, 2 a path that does not exist
    pub location: u8,
    pub threads: bool,
    pub calls: Vec<(Call, u8)>,
}

const STYLES: [&str; 3] = ["position", "name", "omit"];
const TIMEOUT_S: u64 = 100;

// ---------------------------------------------------------------- the Python process

struct Py {
    child: Child,
    stdin: ChildStdin,
    lines: Receiver<String>,
}

thread_local! {
    static PY: RefCell<Option<Py>> = const { RefCell::new(None) };
}

fn start() -> Py {
    let home = std::env::var("HV_PYHUDI").expect("HARNESS: HV_PYHUDI");
    let py = std::env::var("HV_PYTHON").unwrap_or("/opt/vp/venv/bin/python".into());
    let mut child = Command::new(py)
        .arg("-u")
        .arg(concat!(env!("CARGO_MANIFEST_DIR"), "/py/worker.py"))
        .env("PYTHONPATH", home)
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("HARNESS: python");
    let stdin = child.stdin.take().unwrap();
    let (tx, lines) = channel();
    let out = BufReader::new(child.stdout.take().unwrap());
    std::thread::spawn(move || {
        for l in out.lines() {
            let Ok(l) = l else { break };
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    Py { child, stdin, lines }
}

fn ask(req: &Value) -> R<Value> {
    let mut p = PY.with(|p| p.borrow_mut().take()).unwrap_or_else(start);
    let sent = writeln!(p.stdin, "{req}").and_then(|_| p.stdin.flush());
    let got = match sent {
        Ok(()) => p.lines.recv_timeout(Duration::from_secs(TIMEOUT_S)),
        Err(_) => Err(RecvTimeoutError::Disconnected),
    };
    match got {
        Ok(l) => {
            PY.with(|c| *c.borrow_mut() = Some(p));
            Ok(serde_json::from_str(&l).unwrap_or_else(|e| panic!("HARNESS: python said {l}: {e}")))
        }
        Err(e) => {
            let hang = matches!(e, RecvTimeoutError::Timeout);
            let _ = p.child.kill();
            let st = p.child.wait().map(|s| s.to_string()).unwrap_or_default();
            if hang {
                fail!("hang", "no answer from Python within {TIMEOUT_S} s");
            }
            if st.contains("exit status") {
                // The worker itself failed, not the interpreter.
                panic!("HARNESS: the Python worker ended: {st}");
            }
            fail!("process ended", "the Python process ended: {st}")
        }
    }
}

// ---------------------------------------------------------------- answers in a common form

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("HARNESS: hex")).collect()
}

fn schema_str(s: &arrow_schema::Schema) -> String {
    let mut m: Vec<_> = s.metadata().iter().collect();
    m.sort();
    let f: Vec<String> = s
        .fields()
        .iter()
        .map(|f| {
            let mut m: Vec<_> = f.metadata().iter().collect();
            m.sort();
            format!("{}: {:?} null={} {m:?}", f.name(), f.data_type(), f.is_nullable())
        })
        .collect();
    format!("{} {m:?}", f.join(", "))
}

fn batches_form(bs: &[RecordBatch]) -> Value {
    let mut sch: Vec<String> = bs.iter().map(|b| schema_str(&b.schema())).collect();
    sch.sort();
    sch.dedup();
    json!({"batches": bs.len(), "schemas": sch, "rows": rows_of(bs)})
}

fn py_batches(v: &Value) -> Vec<RecordBatch> {
    let mut r = vec![];
    for b in v.as_array().expect("HARNESS: batches") {
        let bytes = unhex(b.as_str().unwrap());
        let rd = arrow::ipc::reader::StreamReader::try_new(std::io::Cursor::new(bytes), None).expect("HARNESS: ipc");
        r.extend(rd.map(|b| b.expect("HARNESS: ipc")));
    }
    r
}

fn slice_form(f: &FileSlice) -> Value {
    let m = f.base_file.file_metadata.clone().unwrap_or_default();
    json!({
        "file_id": f.file_id(),
        "partition_path": f.partition_path,
        "creation_instant_time": f.creation_instant_time(),
        "base_file_name": f.base_file.file_name(),
        "base_file_size": m.size,
        "base_file_byte_size": m.byte_size,
        "log_file_names": f.log_files.iter().map(|l| l.file_name()).collect::<Vec<_>>(),
        "num_records": m.num_records,
        "base_file_relative_path": f.base_file_relative_path().unwrap_or_default(),
        "log_files_relative_paths": f.log_files.iter().map(|l| f.log_file_relative_path(l).unwrap_or_default()).collect::<Vec<_>>(),
    })
}

fn sorted(v: Vec<Value>) -> Value {
    let mut v = v;
    v.sort_by_key(|x| x.to_string());
    Value::Array(v)
}

fn slices_form(fs: &[FileSlice]) -> Value {
    sorted(fs.iter().map(slice_form).collect())
}

fn splits_form(fs: &[Vec<Value>]) -> Value {
    // Which slices share a part may differ between two tables.
    let sizes: Vec<usize> = fs.iter().map(|p| p.len()).collect();
    json!([sizes, sorted(fs.concat())])
}

fn instants_form(v: &[Instant]) -> Value {
    json!(v
        .iter()
        .map(|i| json!([i.timestamp, i.action.as_ref(), i.state.as_ref(), i.epoch_millis]))
        .collect::<Vec<_>>())
}

pub type Ans = Result<Value, String>;

fn s<T, E: Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}

fn refs(f: &Option<Filters>) -> Vec<(&str, &str, &str)> {
    f.iter().flatten().map(|(a, b, c)| (a.as_str(), b.as_str(), c.as_str())).collect()
}

fn map(p: &Option<Pairs>) -> HashMap<String, String> {
    p.iter().flatten().cloned().collect()
}

pub fn rust(t: &Table, uri: &str, store: &Pairs, c: &Call) -> Ans {
    let tl = t.get_timeline();
    Ok(match c {
        Call::HudiOptions => json!(t.hudi_options()),
        Call::StorageOptions => json!(t.storage_options()),
        Call::Property(p) => match p.as_str() {
            "table_name" => json!(t.table_name()),
            "table_type" => json!(t.table_type()),
            "is_mor" => json!(t.is_mor()),
            _ => json!(t.timezone()),
        },
        Call::AvroSchema => json!(s(block(t.get_avro_schema()))?),
        Call::Schema => json!(schema_str(&s(block(t.get_schema()))?)),
        Call::PartitionSchema => json!(schema_str(&s(block(t.get_partition_schema()))?)),
        Call::Slices(f) => slices_form(&s(block(t.get_file_slices(&refs(f))))?),
        Call::SlicesAsOf(at, f) => slices_form(&s(block(t.get_file_slices_as_of(at, &refs(f))))?),
        Call::Splits(n, f) => {
            let v = s(block(t.get_file_slices_splits(*n as usize, &refs(f))))?;
            splits_form(&v.iter().map(|p| p.iter().map(slice_form).collect()).collect::<Vec<Vec<Value>>>())
        }
        Call::SplitsAsOf(n, at, f) => {
            let v = s(block(t.get_file_slices_splits_as_of(*n as usize, at, &refs(f))))?;
            splits_form(&v.iter().map(|p| p.iter().map(slice_form).collect()).collect::<Vec<Vec<Value>>>())
        }
        Call::Between(a, b) => slices_form(&s(block(t.get_file_slices_between(a.as_deref(), b.as_deref())))?),
        Call::Read(f) => batches_form(&s(block(t.read_snapshot(&refs(f))))?),
        Call::ReadAsOf(at, f) => batches_form(&s(block(t.read_snapshot_as_of(at, &refs(f))))?),
        Call::Incremental(a, b) => batches_form(&s(block(t.read_incremental_records(a, b.as_deref())))?),
        Call::ReadSlices(at, o, own) | Call::ReadBases(at, o, own) => {
            let r = if *own {
                let mut o = map(o);
                o.extend(store.iter().cloned());
                s(FileGroupReader::new_with_options(uri, o))?
            } else {
                s(t.create_file_group_reader_with_options(map(o)))?
            };
            let mut v = vec![];
            for f in s(block(t.get_file_slices_as_of(at, &[])))? {
                let b = if matches!(c, Call::ReadSlices(..)) {
                    s(block(r.read_file_slice(&f)))?
                } else {
                    s(block(r.read_file_slice_by_base_file_path(&s(f.base_file_relative_path())?)))?
                };
                v.push(batches_form(&[b]));
            }
            sorted(v)
        }
        Call::ReadBetween(a, b, o) => {
            let r = s(t.create_file_group_reader_with_options(map(o)))?;
            let mut v = vec![];
            for f in s(block(t.get_file_slices_between(a.as_deref(), b.as_deref())))? {
                v.push(batches_form(&[s(block(r.read_file_slice(&f)))?]));
            }
            sorted(v)
        }
        Call::ReadPath(p) => {
            let r = s(t.create_file_group_reader_with_options(HashMap::<String, String>::new()))?;
            batches_form(&[s(block(r.read_file_slice_by_base_file_path(p)))?])
        }
        Call::Instants(what, desc) => {
            let d = desc.unwrap_or(false);
            instants_form(&s(match what.as_str() {
                "commits" => block(tl.get_completed_commits(d)),
                "deltacommits" => block(tl.get_completed_deltacommits(d)),
                "replacecommits" => block(tl.get_completed_replacecommits(d)),
                _ => block(tl.get_completed_clustering_commits(d)),
            })?)
        }
        Call::Metadata => {
            let mut v = vec![];
            for i in s(block(tl.get_completed_commits(false)))? {
                v.push(s(block(tl.get_instant_metadata_in_json(&i)))?);
            }
            json!(v)
        }
        Call::LatestTimestamp => json!(s(tl.get_latest_commit_timestamp())?),
        Call::LatestAvroSchema => json!(s(block(tl.get_latest_avro_schema()))?),
        Call::LatestSchema => json!(schema_str(&s(block(tl.get_latest_schema()))?)),
        Call::Bad(..) => return Err("arguments of the wrong kind".into()),
    })
}

/// The request for Python.
fn request(c: &Call, style: u8, uri: &str) -> Value {
    let o = |p: &Option<Pairs>| p.as_ref().map(|_| map(p));
    let own = |own: &bool| own.then_some(uri);
    let mut style = STYLES[style as usize % 3];
    let (m, a) = match c {
        Call::HudiOptions => ("hudi_options".to_string(), json!([])),
        Call::StorageOptions => ("storage_options".into(), json!([])),
        Call::Property(p) => (p.clone(), json!([])),
        Call::AvroSchema => ("get_avro_schema".into(), json!([])),
        Call::Schema => ("get_schema".into(), json!([])),
        Call::PartitionSchema => ("get_partition_schema".into(), json!([])),
        Call::Slices(f) => ("get_file_slices".into(), json!([f])),
        Call::SlicesAsOf(t, f) => ("get_file_slices_as_of".into(), json!([t, f])),
        Call::Splits(n, f) => ("get_file_slices_splits".into(), json!([n, f])),
        Call::SplitsAsOf(n, t, f) => ("get_file_slices_splits_as_of".into(), json!([n, t, f])),
        Call::Between(a, b) => ("get_file_slices_between".into(), json!([a, b])),
        Call::Read(f) => ("read_snapshot".into(), json!([f])),
        Call::ReadAsOf(t, f) => ("read_snapshot_as_of".into(), json!([t, f])),
        Call::Incremental(a, b) => ("read_incremental_records".into(), json!([a, b])),
        Call::ReadSlices(t, p, w) => ("read_file_slices".into(), json!([t, o(p), own(w)])),
        Call::ReadBases(t, p, w) => ("read_base_files".into(), json!([t, o(p), own(w)])),
        Call::ReadBetween(a, b, p) => ("read_file_slices_between".into(), json!([a, b, o(p)])),
        Call::ReadPath(p) => ("read_path".into(), json!([p])),
        Call::Instants(w, d) => {
            if d.is_none() {
                style = "omit";
            }
            (format!("get_completed_{w}"), json!([d]))
        }
        Call::Metadata => ("instant_metadata".into(), json!([])),
        Call::LatestTimestamp => ("get_latest_commit_timestamp".into(), json!([])),
        Call::LatestAvroSchema => ("get_latest_avro_schema".into(), json!([])),
        Call::LatestSchema => ("get_latest_schema".into(), json!([])),
        Call::Bad(m, a) => (m.clone(), a.clone()),
    };
    json!({"m": m, "a": a, "style": style})
}

/// Python's answer in the common form.
fn python(c: &Call, v: &Value) -> Value {
    let slices = |v: &Value| sorted(v.as_array().expect("HARNESS: slices").clone());
    let schema = |v: &Value| {
        let b = unhex(v.as_str().expect("HARNESS: schema"));
        json!(schema_str(&arrow::ipc::convert::try_schema_from_ipc_buffer(&b).expect("HARNESS: schema")))
    };
    match c {
        Call::Schema | Call::PartitionSchema | Call::LatestSchema => schema(v),
        Call::Slices(_) | Call::SlicesAsOf(..) | Call::Between(..) => slices(v),
        Call::Splits(..) | Call::SplitsAsOf(..) => splits_form(
            &v.as_array().expect("HARNESS: splits").iter().map(|p| p.as_array().unwrap().clone()).collect::<Vec<_>>(),
        ),
        Call::Read(_) | Call::ReadAsOf(..) | Call::Incremental(..) | Call::ReadPath(_) => batches_form(&py_batches(v)),
        Call::ReadSlices(..) | Call::ReadBases(..) | Call::ReadBetween(..) => {
            sorted(v.as_array().expect("HARNESS: list").iter().map(|b| batches_form(&py_batches(b))).collect())
        }
        _ => v.clone(),
    }
}

pub struct Python {
    pub n: (usize, usize),
}

fn some_options(s: &mut Source, valid: bool) -> Pairs {
    let mut v: Pairs = vec![];
    let n = s.usize(0, 3);
    for _ in 0..n {
        let (k, x) = *s.pick(&[
            ("hoodie.read.use.read_optimized.mode", "true"),
            ("hoodie.read.use.read_optimized.mode", "false"),
            ("hoodie.read.input.partitions", "3"),
            ("hoodie.read.listing.parallelism", "2"),
            ("hoodie.table.name", "other"),
            ("hoodie.read.listing.parallelism", "1"),
            ("aws_region", "us-west-2"),
            ("AWS_REGION", "eu"),
            ("some.key", "some value"),
            ("é", "日本"),
        ]);
        v.push((k.into(), x.into()));
    }
    if !valid && s.chance(1, 3) {
        v.push(("hoodie.read.input.partitions".into(), s.pick(&["x", "-1", "true"]).to_string()));
    }
    v
}

/// One call with arguments that suit the table, mostly.
pub fn call(s: &mut Source, plan: &Plan, m: &Model) -> Call {
    let at = |s: &mut Source| -> String {
        if s.chance(1, 20) {
            return s.pick(&["", "abc", "2024", "20240101", "99999999999999999"]).to_string();
        }
        gen::as_of(s, plan, m)
    };
    let filters = |s: &mut Source| -> Option<Filters> {
        match s.weighted(&[3, 1, 3]) {
            0 => None,
            1 => Some(vec![]),
            _ if plan.cfg.partitioned() => Some(gen_filters(s, plan, true)),
            _ => Some(vec![("key".into(), "=".into(), "k1".into())]),
        }
    };
    let reader = |s: &mut Source| -> Option<Pairs> {
        if s.chance(1, 3) {
            return None;
        }
        let mut o = some_options(s, false);
        o.retain(|x| !x.0.starts_with("hoodie.table"));
        for k in ["hoodie.read.file_group.start_timestamp", "hoodie.read.file_group.end_timestamp"] {
            if s.chance(1, 3) {
                o.push((k.into(), gen::as_of(s, plan, m)));
            }
        }
        Some(o)
    };
    match s.weighted(&[1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 2, 1, 3, 1, 1, 1, 1, 2, 2]) {
        0 => Call::HudiOptions,
        1 => Call::StorageOptions,
        2 => Call::Property(s.pick(&["table_name", "table_type", "is_mor", "timezone"]).to_string()),
        3 => Call::AvroSchema,
        4 => Call::Schema,
        5 => Call::PartitionSchema,
        6 => Call::Slices(filters(s)),
        7 => Call::SlicesAsOf(at(s), filters(s)),
        8 => Call::Splits(s.below(6) as u32, filters(s)),
        9 => Call::SplitsAsOf(s.below(6) as u32, at(s), filters(s)),
        10 => {
            let a = s.chance(1, 2).then(|| at(s));
            let b = s.chance(1, 2).then(|| at(s));
            Call::Between(a, b)
        }
        11 => Call::Read(filters(s)),
        12 => Call::ReadAsOf(at(s), filters(s)),
        13 => {
            let a = at(s);
            let b = s.chance(1, 2).then(|| at(s));
            Call::Incremental(a, b)
        }
        14 => Call::ReadSlices(gen::as_of(s, plan, m), reader(s), s.chance(1, 3)),
        15 => Call::ReadBases(gen::as_of(s, plan, m), reader(s), s.chance(1, 3)),
        16 => Call::ReadPath(s.pick(&["", "x.parquet", "../x", "a/b/c.parquet", ".hoodie/hoodie.properties"]).to_string()),
        17 => Call::Instants(
            s.pick(&["commits", "deltacommits", "replacecommits", "clustering_commits"]).to_string(),
            *s.pick(&[None, Some(false), Some(true)]),
        ),
        18 => Call::Metadata,
        19 => Call::LatestTimestamp,
        20 => Call::LatestAvroSchema,
        21 => Call::LatestSchema,
        23 => {
            let a = s.chance(1, 2).then(|| at(s));
            let b = s.chance(1, 2).then(|| at(s));
            Call::ReadBetween(a, b, reader(s))
        }
        _ => {
            let (m, a) = s
                .pick(&[
                    ("get_file_slices_splits", json!([-1, null])),
                    ("get_file_slices_splits", json!(["1", null])),
                    ("get_file_slices_splits", json!([null, null])),
                    ("get_file_slices_splits", json!([1.5, null])),
                    ("get_file_slices", json!([[["a", "="]]])),
                    ("get_file_slices", json!([[["a", "=", 1]]])),
                    ("read_snapshot", json!([[["a", "=", "1", "2"]]])),
                    ("read_snapshot_as_of", json!([20240101, null])),
                    ("read_snapshot_as_of", json!([null, null])),
                    ("read_incremental_records", json!([null, null])),
                    ("get_file_slices_between", json!([1, 2])),
                    ("read_path", json!([1])),
                    ("get_completed_commits", json!(["x"])),
                ])
                .clone();
            Call::Bad(m.into(), a)
        }
    }
}

impl Part for Python {
    type Case = PyCase;
    fn name(&self) -> &'static str {
        "python"
    }
    fn rule(&self) -> &'static str {
        "a history, and calls of the Python classes (by position, by name, leaving arguments out; from one thread or several) and of the same methods in Rust: the same rows, schemas, slices, instants and options or a failure on both sides, which in Python is an exception other than a panic; arguments of the wrong kind are exceptions too; non-trivial: at least one call that returns rows, slices or instants"
    }
    fn cases(&self, t: Tier) -> usize {
        if t == Tier::Quick {
            self.n.0
        } else {
            self.n.1
        }
    }
    fn generate(&self, s: &mut Source) -> PyCase {
        let o = Opts { big: false, ..Opts::all() };
        let plan = gen::plan(s, &o);
        let m = Model::of(&plan);
        let n = s.usize(3, 9);
        let calls = (0..n)
            .map(|_| {
                let c = call(s, &plan, &m);
                (c, s.below(3) as u8)
            })
            .collect();
        PyCase {
            kind: s.weighted(&[3, 1, 2]) as u8,
            style: s.below(3) as u8,
            hudi: s.chance(1, 2).then(|| some_options(s, true)),
            storage: s.chance(1, 3).then(|| vec![("aws_region".to_string(), "us".to_string())]),
            options: s.chance(1, 2).then(|| some_options(s, true)),
            location: s.weighted(&[10, 4, 1]) as u8,
            threads: s.chance(1, 4),
            calls,
            plan,
        }
    }
    fn run(&self, c: &PyCase) -> R<Info> {
        let plan = &c.plan;
        let d = Scratch::new();
        let mut info = Info::default();
        let m = materialize(plan, d.path());
        plan_labels(&mut info, plan, &m);
        let uri = match c.location {
            0 => d.uri(),
            1 => d.path().to_str().unwrap().to_string(),
            _ => format!("{}/nothing", d.uri()),
        };
        let o = |p: &Option<Pairs>| p.as_ref().map(|_| map(p));
        let opened = match c.kind {
            0 => s(block(Table::new_with_options(&uri, map(&c.options)))),
            _ => s(block(
                TableBuilder::from_base_uri(&uri)
                    .with_hudi_options(map(&c.hudi))
                    .with_storage_options(map(&c.storage))
                    .with_options(map(&c.options))
                    .build(),
            )),
        };
        let req = json!({
            "open": {
                "uri": uri, "kind": (["ctor", "function", "builder"])[c.kind as usize % 3], "style": STYLES[c.style as usize % 3],
                "hudi_options": o(&c.hudi), "storage_options": o(&c.storage), "options": o(&c.options),
            },
            "threads": c.threads,
            "calls": c.calls.iter().map(|(k, st)| request(k, *st, &uri)).collect::<Vec<_>>(),
        });
        let ans = ask(&req)?;
        let agree = |what: &str, bad: bool, py: &Value, rs: &Ans, form: &dyn Fn(&Value) -> Value| -> R<bool> {
            if let Some(e) = py["err"].as_str() {
                let msg = py["msg"].as_str().unwrap_or("");
                if msg.contains("HARNESS") {
                    panic!("HARNESS: {msg}");
                }
                if e == "PanicException" {
                    fail!("panic", "{what}: a panic in Python: {msg}");
                }
                return match rs {
                    Ok(v) => fail!("error", "{what}: {e}: {msg} in Python, {} in Rust", short(v)),
                    Err(x) if e != "HudiCoreError" && !bad => fail!("exception", "{what}: {e}: {msg} in Python, {x} in Rust"),
                    Err(_) => Ok(false),
                };
            }
            let got = form(&py["ok"]);
            match rs {
                Err(x) => fail!("no error", "{what}: {} in Python, error {x} in Rust", short(&got)),
                Ok(v) if got != *v => fail!("answer", "{what}: {} in Python, {} in Rust", short(&got), short(v)),
                Ok(_) => Ok(true),
            }
        };
        let t = match opened {
            Err(e) => {
                agree("opening", false, &ans["open"], &Err(e), &|v| v.clone())?;
                info.label("not opened");
                return Ok(info);
            }
            Ok(t) => t,
        };
        agree("opening", false, &ans["open"], &Ok(Value::Null), &|v| v.clone())?;
        for (k, (call, _)) in c.calls.iter().enumerate() {
            let want = rust(&t, &uri, &vec![], call);
            let what = format!("{}", req["calls"][k]);
            let ok = agree(&what, matches!(call, Call::Bad(..)), &ans["calls"][k], &want, &|v| python(call, v))?;
            info.compared += 1;
            info.label_if(!ok, "exceptions");
            if let Ok(v) = &want {
                let rows = v["rows"].as_array().is_some_and(|r| !r.is_empty());
                info.nontrivial |= rows || v.as_array().is_some_and(|a| !a.is_empty());
            }
        }
        info.label_if(c.threads, "several threads");
        Ok(info)
    }
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 1500 {
        format!("{}…", s.chars().take(1500).collect::<String>())
    } else {
        s
    }
}
