//! A writer of real Hudi tables (table version 5/6, timeline layout 1, local files) together with
//! the reference model of what a reader must see. A [`Plan`] is plain data: applying it to a
//! [`Model`] gives the expected answers, applying it to a directory gives the table.

use arrow_array::builder::*;
use arrow_array::*;
use arrow_schema::{DataType, Field, Fields, Schema, SchemaRef, TimeUnit};
use parquet::arrow::arrow_writer::ArrowWriterOptions;
use parquet::arrow::ArrowWriter;
use parquet::file::properties::WriterProperties;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as Json};
use std::collections::BTreeMap;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Ty {
    I32,
    I64,
    F32,
    F64,
    Str,
    Bool,
    Bin,
    Date,
    TsUs,
    Dec,
    ListI64,
    StructIS,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Val {
    N,
    I(i64),
    F(f64),
    S(String),
    B(bool),
    Y(Vec<u8>),
    L(Vec<Val>),
    R(Vec<Val>),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
    pub nullable: bool,
}

pub fn col(name: &str, ty: Ty, nullable: bool) -> Col {
    Col { name: name.to_string(), ty, nullable }
}

pub const META: [&str; 5] = [
    "_hoodie_commit_time",
    "_hoodie_commit_seqno",
    "_hoodie_record_key",
    "_hoodie_partition_path",
    "_hoodie_file_name",
];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum BlockFmt {
    Parquet,
    Avro,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct TableCfg {
    pub mor: bool,
    pub version: u32,
    pub meta: bool,
    pub precombine: bool,
    /// All data columns, in table order; `key` and `ts` are always there.
    pub cols: Vec<Col>,
    /// Indices into `cols`, in the order of the partition fields.
    pub parts: Vec<usize>,
    pub hive: bool,
    pub urlenc: bool,
    pub fmt: BlockFmt,
    /// Append to the newest log file instead of opening a new one.
    pub append_logs: bool,
    /// Write stats name the log file written only, not all the log files of the slice.
    #[serde(default)]
    pub own_stats: bool,
    /// 14-digit instants instead of 17.
    pub ts14: bool,
    pub tz: Option<String>,
    pub merge_strategy: Option<String>,
    /// Rows per parquet row group (0: default).
    pub row_group: usize,
    /// Write base files without the embedded arrow schema (as parquet-mr does).
    pub skip_arrow_meta: bool,
    pub crc_files: bool,
    /// Further lines of hoodie.properties.
    pub props: Vec<(String, String)>,
}

impl TableCfg {
    pub fn key_idx(&self) -> usize {
        self.cols.iter().position(|c| c.name == "key").unwrap()
    }
    pub fn ts_idx(&self) -> usize {
        self.cols.iter().position(|c| c.name == "ts").unwrap()
    }
    pub fn partitioned(&self) -> bool {
        !self.parts.is_empty()
    }
    pub fn schema(&self) -> SchemaRef {
        let mut f: Vec<Field> = vec![];
        if self.meta {
            f.extend(META.iter().map(|m| Field::new(*m, DataType::Utf8, true)));
        }
        f.extend(self.cols.iter().map(|c| Field::new(&c.name, arrow_ty(c.ty), c.nullable)));
        Arc::new(Schema::new(f))
    }
    pub fn append_only(&self) -> bool {
        match self.merge_strategy.as_deref() {
            Some(s) => s.eq_ignore_ascii_case("append_only"),
            None => !self.meta || !self.precombine,
        }
    }
    pub fn part_path(&self, vals: &[Val]) -> String {
        self.parts
            .iter()
            .zip(vals)
            .map(|(c, v)| {
                let s = match part_str(v) {
                    Some(s) if s.is_empty() => NULL_PARTITION.to_string(),
                    Some(s) => {
                        if self.urlenc {
                            escape_path(&s)
                        } else {
                            s
                        }
                    }
                    None => NULL_PARTITION.to_string(),
                };
                if self.hive {
                    format!("{}={}", self.cols[*c].name, s)
                } else {
                    s
                }
            })
            .collect::<Vec<_>>()
            .join("/")
    }
    pub fn keygen(&self) -> &'static str {
        match self.parts.len() {
            0 => "org.apache.hudi.keygen.NonpartitionedKeyGenerator",
            1 => "org.apache.hudi.keygen.SimpleKeyGenerator",
            _ => "org.apache.hudi.keygen.ComplexKeyGenerator",
        }
    }
    pub fn properties(&self) -> Vec<(String, String)> {
        let mut p: Vec<(String, String)> = vec![
            ("hoodie.table.name".into(), "t".into()),
            (
                "hoodie.table.type".into(),
                if self.mor { "MERGE_ON_READ" } else { "COPY_ON_WRITE" }.into(),
            ),
            ("hoodie.table.version".into(), self.version.to_string()),
            ("hoodie.timeline.layout.version".into(), "1".into()),
            ("hoodie.table.recordkey.fields".into(), "key".into()),
            ("hoodie.table.keygenerator.class".into(), self.keygen().into()),
            ("hoodie.populate.meta.fields".into(), self.meta.to_string()),
            (
                "hoodie.datasource.write.hive_style_partitioning".into(),
                self.hive.to_string(),
            ),
            (
                "hoodie.datasource.write.partitionpath.urlencode".into(),
                self.urlenc.to_string(),
            ),
            ("hoodie.datasource.write.drop.partition.columns".into(), "false".into()),
            ("hoodie.archivelog.folder".into(), "archived".into()),
            ("hoodie.table.checksum".into(), "2969816715".into()),
            ("hoodie.table.base.file.format".into(), "PARQUET".into()),
        ];
        if self.precombine {
            p.push(("hoodie.table.precombine.field".into(), "ts".into()));
        }
        if self.partitioned() {
            p.push((
                "hoodie.table.partition.fields".into(),
                self.parts
                    .iter()
                    .map(|i| self.cols[*i].name.clone())
                    .collect::<Vec<_>>()
                    .join(","),
            ));
        }
        if let Some(tz) = &self.tz {
            p.push(("hoodie.table.timeline.timezone".into(), tz.clone()));
        }
        if let Some(m) = &self.merge_strategy {
            p.push(("hoodie.table.record.merge.strategy".into(), m.clone()));
        }
        if self.cols.len() % 2 == 0 {
            // The writer of this table leaves out what has its default value.
            p.retain(|(k, v)| match k.as_str() {
                "hoodie.datasource.write.hive_style_partitioning"
                | "hoodie.datasource.write.partitionpath.urlencode"
                | "hoodie.datasource.write.drop.partition.columns" => v != "false",
                "hoodie.populate.meta.fields" => v != "true",
                "hoodie.table.base.file.format"
                | "hoodie.archivelog.folder"
                | "hoodie.table.checksum" => false,
                _ => true,
            });
        }
        p.extend(self.props.iter().cloned());
        p
    }
}

/// Hudi's PartitionPathEncodeUtils.DEFAULT_PARTITION_PATH, for null values and empty text.
pub const NULL_PARTITION: &str = "__HIVE_DEFAULT_PARTITION__";

/// Hudi's PartitionPathEncodeUtils.escapePathName.
pub fn escape_path(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        let esc = (c as u32) < 0x20
            || matches!(
                c,
                '"' | '#' | '%' | '\'' | '*' | '/' | ':' | '=' | '?' | '\\' | '\u{7f}' | '{' | '['
                    | ']'
                    | '^'
            );
        if esc {
            o.push_str(&format!("%{:02X}", c as u32));
        } else {
            o.push(c);
        }
    }
    o
}

pub fn part_str(v: &Val) -> Option<String> {
    match v {
        Val::N => None,
        Val::I(i) => Some(i.to_string()),
        Val::S(s) => Some(s.clone()),
        Val::B(b) => Some(b.to_string()),
        Val::F(f) => Some(format!("{f:?}")),
        _ => panic!("HARNESS: partition value"),
    }
}

pub fn part_str_ty(v: &Val, ty: Ty) -> Option<String> {
    match (v, ty) {
        (Val::I(d), Ty::Date) => Some(date_str(*d)),
        (Val::I(d), Ty::Dec) => {
            Some(format!("{}{}.{:03}", if *d < 0 { "-" } else { "" }, d.abs() / 1000, d.abs() % 1000))
        }
        _ => part_str(v),
    }
}

pub fn date_str(days: i64) -> String {
    (chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + chrono::Duration::days(days))
        .format("%Y-%m-%d")
        .to_string()
}

fn struct_fields() -> Fields {
    Fields::from(vec![
        Field::new("a", DataType::Int64, true),
        Field::new("b", DataType::Utf8, true),
    ])
}

pub fn arrow_ty(t: Ty) -> DataType {
    match t {
        Ty::I32 => DataType::Int32,
        Ty::I64 => DataType::Int64,
        Ty::F32 => DataType::Float32,
        Ty::F64 => DataType::Float64,
        Ty::Str => DataType::Utf8,
        Ty::Bool => DataType::Boolean,
        Ty::Bin => DataType::Binary,
        Ty::Date => DataType::Date32,
        Ty::TsUs => DataType::Timestamp(TimeUnit::Microsecond, Some("UTC".into())),
        Ty::Dec => DataType::Decimal128(12, 3),
        Ty::ListI64 => DataType::List(Arc::new(Field::new("element", DataType::Int64, true))),
        Ty::StructIS => DataType::Struct(struct_fields()),
    }
}

pub fn build_array(ty: Ty, vals: &[&Val]) -> ArrayRef {
    macro_rules! ints {
        ($t:ty, $n:ty) => {
            Arc::new(
                vals.iter()
                    .map(|v| match v {
                        Val::I(i) => Some(*i as $n),
                        Val::N => None,
                        v => panic!("HARNESS: {v:?} for {ty:?}"),
                    })
                    .collect::<PrimitiveArray<$t>>(),
            ) as ArrayRef
        };
    }
    use arrow_array::types::*;
    match ty {
        Ty::I32 => ints!(Int32Type, i32),
        Ty::I64 => ints!(Int64Type, i64),
        Ty::Date => ints!(Date32Type, i32),
        Ty::TsUs => {
            let a = vals
                .iter()
                .map(|v| match v {
                    Val::I(i) => Some(*i),
                    _ => None,
                })
                .collect::<PrimitiveArray<TimestampMicrosecondType>>();
            Arc::new(a.with_timezone("UTC"))
        }
        Ty::Dec => Arc::new(
            vals.iter()
                .map(|v| match v {
                    Val::I(i) => Some(*i as i128),
                    _ => None,
                })
                .collect::<PrimitiveArray<Decimal128Type>>()
                .with_precision_and_scale(12, 3)
                .unwrap(),
        ),
        Ty::F32 => Arc::new(
            vals.iter()
                .map(|v| match v {
                    Val::F(f) => Some(*f as f32),
                    _ => None,
                })
                .collect::<Float32Array>(),
        ),
        Ty::F64 => Arc::new(
            vals.iter()
                .map(|v| match v {
                    Val::F(f) => Some(*f),
                    _ => None,
                })
                .collect::<Float64Array>(),
        ),
        Ty::Str => Arc::new(
            vals.iter()
                .map(|v| match v {
                    Val::S(s) => Some(s.as_str()),
                    Val::N => None,
                    v => panic!("HARNESS: {v:?} for {ty:?}"),
                })
                .collect::<StringArray>(),
        ),
        Ty::Bool => Arc::new(
            vals.iter()
                .map(|v| match v {
                    Val::B(s) => Some(*s),
                    _ => None,
                })
                .collect::<BooleanArray>(),
        ),
        Ty::Bin => Arc::new(
            vals.iter()
                .map(|v| match v {
                    Val::Y(s) => Some(s.as_slice()),
                    _ => None,
                })
                .collect::<BinaryArray>(),
        ),
        Ty::ListI64 => {
            let mut b = ListBuilder::new(Int64Builder::new())
                .with_field(Field::new("element", DataType::Int64, true));
            for v in vals {
                match v {
                    Val::L(xs) => {
                        for x in xs {
                            match x {
                                Val::I(i) => b.values().append_value(*i),
                                _ => b.values().append_null(),
                            }
                        }
                        b.append(true);
                    }
                    _ => b.append(false),
                }
            }
            Arc::new(b.finish())
        }
        Ty::StructIS => {
            let n = Val::N;
            let mut a = vec![];
            let mut s = vec![];
            let mut ok = vec![];
            for v in vals {
                match v {
                    Val::R(xs) => {
                        a.push(&xs[0]);
                        s.push(&xs[1]);
                        ok.push(true);
                    }
                    _ => {
                        a.push(&n);
                        s.push(&n);
                        ok.push(false);
                    }
                }
            }
            Arc::new(StructArray::new(
                struct_fields(),
                vec![build_array(Ty::I64, &a), build_array(Ty::Str, &s)],
                Some(ok.into()),
            ))
        }
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Row {
    pub ct: String,
    pub seq: String,
    pub pp: String,
    pub file: String,
    pub vals: Vec<Val>,
}

impl Row {
    pub fn key<'a>(&'a self, cfg: &TableCfg) -> &'a str {
        match &self.vals[cfg.key_idx()] {
            Val::S(s) => s,
            _ => panic!("HARNESS: key"),
        }
    }
    /// The precombine value.
    pub fn ts<'a>(&'a self, cfg: &TableCfg) -> &'a Val {
        &self.vals[cfg.ts_idx()]
    }
}

pub fn batch(cfg: &TableCfg, rows: &[Row]) -> RecordBatch {
    let mut cols: Vec<ArrayRef> = vec![];
    if cfg.meta {
        let get: [&dyn Fn(&Row) -> String; 5] = [
            &|r| r.ct.clone(),
            &|r| r.seq.clone(),
            &|r| r.key(cfg).to_string(),
            &|r| r.pp.clone(),
            &|r| r.file.clone(),
        ];
        for g in get {
            cols.push(Arc::new(rows.iter().map(|r| Some(g(r))).collect::<StringArray>()));
        }
    }
    for (i, c) in cfg.cols.iter().enumerate() {
        let v: Vec<&Val> = rows.iter().map(|r| &r.vals[i]).collect();
        cols.push(build_array(c.ty, &v));
    }
    RecordBatch::try_new(cfg.schema(), cols).expect("HARNESS: batch")
}

pub fn parquet_bytes(cfg: &TableCfg, rows: &[Row]) -> Vec<u8> {
    let b = batch(cfg, rows);
    parquet_of(&b, cfg.row_group, cfg.skip_arrow_meta)
}

pub fn parquet_of(b: &RecordBatch, row_group: usize, skip_meta: bool) -> Vec<u8> {
    let mut props = WriterProperties::builder();
    if row_group > 0 {
        props = props.set_max_row_group_size(row_group);
    }
    let opts = ArrowWriterOptions::new()
        .with_properties(props.build())
        .with_skip_arrow_metadata(skip_meta);
    let mut out = vec![];
    let mut w = ArrowWriter::try_new_with_options(&mut out, b.schema(), opts).expect("HARNESS: pq");
    w.write(b).expect("HARNESS: pq");
    w.close().expect("HARNESS: pq");
    out
}

pub fn avro_ty(t: Ty, name: &str) -> Json {
    match t {
        Ty::I32 => json!("int"),
        Ty::I64 => json!("long"),
        Ty::F32 => json!("float"),
        Ty::F64 => json!("double"),
        Ty::Str => json!("string"),
        Ty::Bool => json!("boolean"),
        Ty::Bin => json!("bytes"),
        Ty::Date => json!({"type":"int","logicalType":"date"}),
        Ty::TsUs => json!({"type":"long","logicalType":"timestamp-micros"}),
        Ty::Dec => json!({"type":"fixed","name":format!("fixed_{name}"),"size":6,
            "logicalType":"decimal","precision":12,"scale":3}),
        Ty::ListI64 => json!({"type":"array","items":["null","long"]}),
        Ty::StructIS => json!({"type":"record","name":format!("rec_{name}"),"fields":[
            {"name":"a","type":["null","long"],"default":null},
            {"name":"b","type":["null","string"],"default":null}]}),
    }
}

pub fn avro_schema(cfg: &TableCfg, with_meta: bool) -> Json {
    let mut f = vec![];
    if with_meta && cfg.meta {
        for m in META {
            f.push(json!({"name":m,"type":["null","string"],"doc":"","default":null}));
        }
    }
    for c in &cfg.cols {
        if c.nullable {
            f.push(json!({"name":c.name,"type":["null",avro_ty(c.ty,&c.name)],"default":null}));
        } else {
            f.push(json!({"name":c.name,"type":avro_ty(c.ty,&c.name)}));
        }
    }
    json!({"type":"record","name":"t_record","namespace":"hoodie.t","fields":f})
}

fn zigzag(out: &mut Vec<u8>, v: i64) {
    let mut n = ((v << 1) ^ (v >> 63)) as u64;
    loop {
        if n < 0x80 {
            out.push(n as u8);
            return;
        }
        out.push((n as u8) | 0x80);
        n >>= 7;
    }
}

/// Avro binary encoding, written here independently of the library the reader uses.
fn avro_put(out: &mut Vec<u8>, ty: Ty, nullable: bool, v: &Val) {
    if nullable {
        if *v == Val::N {
            zigzag(out, 0);
            return;
        }
        zigzag(out, 1);
    }
    let put_bytes = |out: &mut Vec<u8>, b: &[u8]| {
        zigzag(out, b.len() as i64);
        out.extend_from_slice(b);
    };
    match (ty, v) {
        (Ty::I32 | Ty::I64 | Ty::Date | Ty::TsUs, Val::I(i)) => zigzag(out, *i),
        (Ty::Dec, Val::I(i)) => out.extend_from_slice(&i.to_be_bytes()[2..]),
        (Ty::F32, Val::F(f)) => out.extend_from_slice(&(*f as f32).to_le_bytes()),
        (Ty::F64, Val::F(f)) => out.extend_from_slice(&f.to_le_bytes()),
        (Ty::Str, Val::S(s)) => put_bytes(out, s.as_bytes()),
        (Ty::Bin, Val::Y(s)) => put_bytes(out, s),
        (Ty::Bool, Val::B(b)) => out.push(*b as u8),
        (Ty::ListI64, Val::L(xs)) => {
            if !xs.is_empty() {
                zigzag(out, xs.len() as i64);
                for x in xs {
                    avro_put(out, Ty::I64, true, x);
                }
            }
            zigzag(out, 0);
        }
        (Ty::StructIS, Val::R(xs)) => {
            avro_put(out, Ty::I64, true, &xs[0]);
            avro_put(out, Ty::Str, true, &xs[1]);
        }
        (t, v) => panic!("HARNESS: avro {v:?} as {t:?}"),
    }
}

pub fn avro_content(cfg: &TableCfg, rows: &[Row]) -> Vec<u8> {
    let mut out = vec![];
    out.extend_from_slice(&3u32.to_be_bytes());
    out.extend_from_slice(&(rows.len() as u32).to_be_bytes());
    for r in rows {
        let mut rec = vec![];
        if cfg.meta {
            for s in [&r.ct, &r.seq, r.key(cfg), &r.pp, &r.file] as [&str; 5] {
                avro_put(&mut rec, Ty::Str, true, &Val::S(s.to_string()));
            }
        }
        for (c, v) in cfg.cols.iter().zip(&r.vals) {
            avro_put(&mut rec, c.ty, c.nullable, v);
        }
        out.extend_from_slice(&(rec.len() as u32).to_be_bytes());
        out.extend_from_slice(&rec);
    }
    out
}

/// One block of a log file, log format version 1.
pub fn log_block(block_type: u32, header: &[(u32, String)], content: &[u8]) -> Vec<u8> {
    log_block_v(1, block_type, header, content, &[])
}

pub fn log_block_v(
    version: u32,
    block_type: u32,
    header: &[(u32, String)],
    content: &[u8],
    footer: &[(u32, String)],
) -> Vec<u8> {
    let meta = |out: &mut Vec<u8>, m: &[(u32, String)]| {
        out.extend_from_slice(&(m.len() as u32).to_be_bytes());
        for (k, v) in m {
            out.extend_from_slice(&k.to_be_bytes());
            out.extend_from_slice(&(v.len() as u32).to_be_bytes());
            out.extend_from_slice(v.as_bytes());
        }
    };
    let mut body = vec![];
    body.extend_from_slice(&version.to_be_bytes());
    body.extend_from_slice(&block_type.to_be_bytes());
    meta(&mut body, header);
    body.extend_from_slice(&(content.len() as u64).to_be_bytes());
    body.extend_from_slice(content);
    if version == 1 {
        meta(&mut body, footer);
    }
    let mut out = b"#HUDI#".to_vec();
    let len = body.len() as u64 + if version == 1 { 8 } else { 0 };
    out.extend_from_slice(&len.to_be_bytes());
    out.extend_from_slice(&body);
    if version == 1 {
        // Total length, magic and length field included.
        out.extend_from_slice(&(len + 14).to_be_bytes());
    }
    out
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Put {
    /// A base file, carrying the complete contents of the file group.
    Base { name: String, rows: Vec<Row> },
    /// Data blocks in a log file of the slice with base instant `base_ts`.
    Log { name: String, base_ts: String, blocks: Vec<(BlockFmt, Vec<Row>)> },
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct FgWrite {
    pub fid: String,
    pub part: usize,
    pub put: Put,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Fate {
    Done,
    Inflight,
    Requested,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Op {
    Commit {
        ts: String,
        action: String,
        op_type: String,
        writes: Vec<FgWrite>,
        replaced: Vec<(usize, String)>,
        fate: Fate,
    },
    /// Rolls back `target`; the command blocks go to the named log files.
    Rollback { ts: String, target: String, command_logs: Vec<(usize, String)> },
    /// Removes file versions not needed for reads at or after `keep_from`.
    Clean { ts: String, keep_from: String },
    /// Some other action on the timeline.
    Other { ts: String, action: String, state: String },
}

impl Op {
    pub fn ts(&self) -> &str {
        match self {
            Op::Commit { ts, .. } | Op::Rollback { ts, .. } | Op::Clean { ts, .. } | Op::Other { ts, .. } => ts,
        }
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub cfg: TableCfg,
    /// Partition values; one empty entry for a table without partitions.
    pub partitions: Vec<Vec<Val>>,
    pub ops: Vec<Op>,
}

impl Plan {
    pub fn part_path(&self, i: usize) -> String {
        let vals: Vec<Val> = self
            .cfg
            .parts
            .iter()
            .zip(&self.partitions[i])
            .map(|(c, v)| match part_str_ty(v, self.cfg.cols[*c].ty) {
                Some(s) => Val::S(s),
                None => Val::N,
            })
            .collect();
        self.cfg.part_path(&vals)
    }
}

#[derive(Clone, Debug)]
pub struct MBlock {
    pub instant: String,
    pub rows: Vec<Row>,
}

#[derive(Clone, Debug)]
pub struct MLog {
    pub name: String,
    pub version: u32,
    pub blocks: Vec<MBlock>,
}

#[derive(Clone, Debug)]
pub struct MSlice {
    pub base_ts: String,
    pub base_name: String,
    pub rows: Vec<Row>,
    pub logs: Vec<MLog>,
    pub removed: bool,
}

#[derive(Clone, Debug)]
pub struct MFg {
    pub fid: String,
    pub part: usize,
    pub slices: Vec<MSlice>,
    pub replaced_at: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Completed,
    Pending,
    RolledBack,
}

#[derive(Clone, Debug)]
pub struct MInstant {
    pub ts: String,
    pub action: String,
    pub op_type: String,
    pub st: St,
    pub fids: Vec<(usize, String)>,
    pub had_base: bool,
    /// Wrote log files upon a pending compaction.
    pub baseless: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub fgs: Vec<MFg>,
    pub instants: Vec<MInstant>,
    /// Reads before this are undefined (cleaned).
    pub keep_from: String,
}

/// What one file group shows to a read.
#[derive(Clone, Debug)]
pub struct Seen {
    pub fid: String,
    pub part: usize,
    pub base_ts: String,
    pub base_name: String,
    pub base_rows: usize,
    pub log_names: Vec<String>,
    pub rows: Vec<Row>,
    pub base_only_rows: Vec<Row>,
    pub merged: bool,
}

impl Model {
    pub fn st(&self, ts: &str) -> Option<St> {
        self.instants.iter().find(|i| i.ts == ts).map(|i| i.st)
    }
    pub fn completed(&self, ts: &str) -> bool {
        self.st(ts) == Some(St::Completed)
    }
    pub fn fg(&self, part: usize, fid: &str) -> Option<&MFg> {
        self.fgs.iter().find(|f| f.fid == fid && f.part == part)
    }
    fn fg_mut(&mut self, part: usize, fid: &str) -> &mut MFg {
        if let Some(i) = self.fgs.iter().position(|f| f.fid == fid && f.part == part) {
            return &mut self.fgs[i];
        }
        self.fgs.push(MFg { fid: fid.to_string(), part, slices: vec![], replaced_at: vec![] });
        self.fgs.last_mut().unwrap()
    }
    pub fn latest_completed(&self) -> Option<&MInstant> {
        self.instants.iter().filter(|i| i.st == St::Completed).last()
    }

    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Commit { ts, action, op_type, writes, replaced, fate } => {
                let instant = MInstant {
                    ts: ts.clone(),
                    action: action.clone(),
                    op_type: op_type.clone(),
                    st: if *fate == Fate::Done { St::Completed } else { St::Pending },
                    fids: writes.iter().map(|w| (w.part, w.fid.clone())).collect(),
                    had_base: writes.iter().any(|w| matches!(w.put, Put::Base { .. })),
                    baseless: writes.iter().any(|w| match &w.put {
                        Put::Log { base_ts, .. } => !self.has_base(w.part, &w.fid, base_ts),
                        Put::Base { .. } => false,
                    }),
                };
                // A compaction that was requested before goes on.
                match self.instants.iter_mut().find(|i| &i.ts == ts) {
                    Some(i) => *i = instant,
                    None => self.instants.push(instant),
                }
                if *fate == Fate::Requested {
                    return;
                }
                for w in writes {
                    let fg = self.fg_mut(w.part, &w.fid);
                    match &w.put {
                        Put::Base { name, rows } => {
                            let s = slice_mut(fg, ts);
                            s.base_name = name.clone();
                            s.rows = rows.clone();
                        }
                        Put::Log { name, base_ts, blocks } => {
                            let s = slice_mut(fg, base_ts);
                            if !s.logs.iter().any(|l| &l.name == name) {
                                s.logs.push(MLog {
                                    name: name.clone(),
                                    version: log_version(name),
                                    blocks: vec![],
                                });
                            }
                            let l = s.logs.iter_mut().find(|l| &l.name == name).unwrap();
                            for (_, rows) in blocks {
                                l.blocks.push(MBlock { instant: ts.clone(), rows: rows.clone() });
                            }
                        }
                    }
                }
                if *fate == Fate::Done {
                    for (p, f) in replaced {
                        self.fg_mut(*p, f).replaced_at.push(ts.clone());
                    }
                }
            }
            Op::Rollback { target, command_logs, .. } => {
                let to_plan = self.pending_compaction(target);
                for i in &mut self.instants {
                    if &i.ts == target && !to_plan {
                        i.st = St::RolledBack;
                    }
                }
                for fg in &mut self.fgs {
                    fg.replaced_at.retain(|r| r != target);
                    if to_plan {
                        // The compaction will be tried again; the log files upon it stay.
                        for s in fg.slices.iter_mut().filter(|s| &s.base_ts == target) {
                            s.base_name.clear();
                            s.rows.clear();
                        }
                        fg.slices.retain(|s| !s.base_name.is_empty() || !s.logs.is_empty());
                    } else {
                        fg.slices.retain(|s| &s.base_ts != target);
                    }
                    for s in &mut fg.slices {
                        for (part, name) in command_logs {
                            if *part == fg.part
                                && log_file_of(name, &fg.fid, &s.base_ts)
                                && !s.logs.iter().any(|l| &l.name == name)
                            {
                                s.logs.push(MLog {
                                    name: name.clone(),
                                    version: log_version(name),
                                    blocks: vec![],
                                });
                            }
                        }
                    }
                }
                self.fgs.retain(|f| !f.slices.is_empty());
            }
            Op::Clean { keep_from, .. } => {
                self.keep_from = keep_from.clone();
                let done: Vec<String> = self
                    .instants
                    .iter()
                    .filter(|i| i.st == St::Completed)
                    .map(|i| i.ts.clone())
                    .collect();
                for fg in &mut self.fgs {
                    let replaced = fg.replaced_at.iter().any(|r| r <= keep_from);
                    let latest_before = fg
                        .slices
                        .iter()
                        .filter(|s| &s.base_ts <= keep_from && done.contains(&s.base_ts))
                        .map(|s| s.base_ts.clone())
                        .max();
                    for s in &mut fg.slices {
                        if !done.contains(&s.base_ts) {
                            continue;
                        }
                        if replaced || latest_before.as_ref().is_some_and(|l| &s.base_ts < l) {
                            s.removed = true;
                        }
                    }
                }
            }
            Op::Other { .. } => {}
        }
    }

    pub fn of(plan: &Plan) -> Model {
        let mut m = Model::default();
        for op in &plan.ops {
            m.apply(op);
        }
        m
    }

    /// Whether a slice has a base file that counts: not that of a pending compaction.
    pub fn has_base(&self, part: usize, fid: &str, base_ts: &str) -> bool {
        self.completed(base_ts)
            && self
                .fg(part, fid)
                .is_some_and(|f| f.slices.iter().any(|s| s.base_ts == base_ts && !s.base_name.is_empty()))
    }

    pub fn pending_compaction(&self, ts: &str) -> bool {
        self.instants.iter().any(|i| i.ts == ts && i.op_type == "COMPACT" && i.st == St::Pending)
    }

    /// Whether log files were written upon a pending compaction in a window. The commit metadata of
    /// these name no base file, which reads of changes refuse.
    pub fn baseless_in(&self, start: &str, end: &str) -> bool {
        let (start, end) = (&*in_millis(start), &*in_millis(end));
        self.instants
            .iter()
            .any(|i| i.baseless && i.st == St::Completed && i.ts.as_str() > start && i.ts.as_str() <= end)
    }

    /// The log files that a read of `slice` goes through: its own, and those upon compactions of it
    /// that are pending.
    pub fn logs_of<'a>(&self, fg: &'a MFg, slice: &MSlice) -> Vec<&'a MLog> {
        let next = fg
            .slices
            .iter()
            .filter(|s| s.base_ts > slice.base_ts && !s.removed && self.completed(&s.base_ts))
            .map(|s| &s.base_ts)
            .min();
        fg.slices
            .iter()
            .filter(|s| s.base_ts >= slice.base_ts && next.is_none_or(|n| &s.base_ts < n))
            .flat_map(|s| &s.logs)
            .collect()
    }

    /// The slice of a file group that a read as of `t` uses.
    pub fn slice_at<'a>(&self, fg: &'a MFg, t: &str) -> Option<&'a MSlice> {
        if fg.replaced_at.iter().any(|r| r.as_str() <= t) {
            return None;
        }
        fg.slices
            .iter()
            .filter(|s| s.base_ts.as_str() <= t && !s.removed && self.completed(&s.base_ts))
            .max_by(|a, b| a.base_ts.cmp(&b.base_ts))
    }

    /// Every file group visible as of `t`, with its records.
    pub fn snapshot(&self, cfg: &TableCfg, t: &str) -> Vec<Seen> {
        self.seen(cfg, None, t)
    }

    /// As [`Self::snapshot`], with only what was written after `start`, from the file groups
    /// written in the window.
    pub fn seen(&self, cfg: &TableCfg, start: Option<&str>, t: &str) -> Vec<Seen> {
        let start = start.map(in_millis);
        let (start, t) = (start.as_deref(), &*in_millis(t));
        let mut out = vec![];
        for fg in &self.fgs {
            let Some(s) = self.slice_at(fg, t) else { continue };
            let after = |ct: &str| start.is_none_or(|st| ct > st);
            if let Some(st) = start {
                let touched = self.instants.iter().any(|i| {
                    i.st == St::Completed
                        && i.ts.as_str() > st
                        && i.ts.as_str() <= t
                        && i.fids.iter().any(|(p, f)| *p == fg.part && *f == fg.fid)
                });
                if !touched {
                    continue;
                }
            }
            let base: Vec<Row> = s
                .rows
                .iter()
                .filter(|r| start.is_none() || !cfg.meta || (after(&r.ct) && r.ct.as_str() <= t))
                .cloned()
                .collect();
            let mut cand: Vec<Row> = base.clone();
            let mut merged = false;
            let logs = self.logs_of(fg, s);
            for l in &logs {
                for b in &l.blocks {
                    if self.completed(&b.instant) && b.instant.as_str() <= t && after(&b.instant) {
                        cand.extend(b.rows.iter().cloned());
                        merged = true;
                    }
                }
            }
            let rows = if logs.is_empty() { cand } else { merge_rows(cfg, cand) };
            out.push(Seen {
                fid: fg.fid.clone(),
                part: fg.part,
                base_ts: s.base_ts.clone(),
                base_name: s.base_name.clone(),
                base_rows: s.rows.len(),
                log_names: logs.iter().map(|l| l.name.clone()).collect(),
                rows,
                base_only_rows: base,
                merged,
            });
        }
        out
    }

    pub fn visible_rows(&self, cfg: &TableCfg, part: usize, fid: &str, t: &str) -> Vec<Row> {
        self.snapshot(cfg, t)
            .into_iter()
            .find(|s| s.fid == fid && s.part == part)
            .map(|s| s.rows)
            .unwrap_or_default()
    }
}

/// A requested time as one in milliseconds, which compares with instants of either precision as text.
pub fn in_millis(t: &str) -> String {
    if t.len() == 14 {
        format!("{t}000")
    } else {
        t.to_string()
    }
}

fn slice_mut<'a>(fg: &'a mut MFg, base_ts: &str) -> &'a mut MSlice {
    if let Some(i) = fg.slices.iter().position(|s| s.base_ts == base_ts) {
        return &mut fg.slices[i];
    }
    fg.slices.push(MSlice {
        base_ts: base_ts.to_string(),
        base_name: String::new(),
        rows: vec![],
        logs: vec![],
        removed: false,
    });
    fg.slices.last_mut().unwrap()
}

/// The table's merge rule: append-only keeps everything; otherwise one row per key, the one with
/// the greatest precombine value, the later write winning ties.
pub fn merge_rows(cfg: &TableCfg, rows: Vec<Row>) -> Vec<Row> {
    if cfg.append_only() {
        return rows;
    }
    let mut best: BTreeMap<String, Row> = BTreeMap::new();
    for r in rows {
        let k = r.key(cfg).to_string();
        let wins = match best.get(&k) {
            None => true,
            Some(b) => val_cmp(r.ts(cfg), b.ts(cfg)).then(r.ct.cmp(&b.ct)).is_ge(),
        };
        if wins {
            best.insert(k, r);
        }
    }
    best.into_values().collect()
}

/// Order of precombine values: null lowest.
pub fn val_cmp(a: &Val, b: &Val) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    match (a, b) {
        (Val::N, Val::N) => Equal,
        (Val::N, _) => Less,
        (_, Val::N) => Greater,
        (Val::I(a), Val::I(b)) => a.cmp(b),
        (Val::S(a), Val::S(b)) => a.as_bytes().cmp(b.as_bytes()),
        (Val::F(a), Val::F(b)) => a.partial_cmp(b).expect("HARNESS: NaN precombine"),
        _ => panic!("HARNESS: precombine {a:?} {b:?}"),
    }
}

pub fn log_version(name: &str) -> u32 {
    // .<fid>_<ts>.log.<version>_<token>
    name.split(".log.").nth(1).unwrap().split('_').next().unwrap().parse().unwrap()
}

pub fn log_file_of(name: &str, fid: &str, base_ts: &str) -> bool {
    name.starts_with(&format!(".{fid}_{base_ts}."))
}

static DIR_N: AtomicU64 = AtomicU64::new(0);

/// A scratch directory, removed on drop.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Self {
        let root = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let p = PathBuf::from(format!(
            "{root}/hv-{}-{}",
            std::process::id(),
            DIR_N.fetch_add(1, Ordering::SeqCst)
        ));
        std::fs::create_dir_all(&p).expect("HARNESS: scratch");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn uri(&self) -> String {
        url::Url::from_file_path(&self.0).unwrap().to_string()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        if std::env::var("VERIF_KEEP").is_ok() {
            eprintln!("kept {}", self.0.display());
            return;
        }
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn put_file(p: &Path, b: &[u8]) {
    if let Some(d) = p.parent() {
        std::fs::create_dir_all(d).expect("HARNESS: mkdir");
    }
    std::fs::write(p, b).unwrap_or_else(|e| panic!("HARNESS: write {}: {e}", p.display()));
}

fn stat(plan: &Plan, model: &Model, ts: &str, w: &FgWrite) -> Json {
    let pp = plan.part_path(w.part);
    let join = |n: &str| if pp.is_empty() { n.to_string() } else { format!("{pp}/{n}") };
    let fg = model.fg(w.part, &w.fid).expect("HARNESS: fg");
    let mut m = Map::new();
    m.insert("fileId".into(), json!(w.fid));
    let (name, n) = match &w.put {
        Put::Base { name, rows } => (name, rows.len()),
        Put::Log { name, blocks, .. } => (name, blocks.iter().map(|b| b.1.len()).sum()),
    };
    m.insert("path".into(), json!(join(name)));
    m.insert("cdcStats".into(), Json::Null);
    let prev = fg
        .slices
        .iter()
        .filter(|s| s.base_ts.as_str() < ts)
        .map(|s| s.base_ts.clone())
        .max()
        .unwrap_or("null".into());
    m.insert("prevCommit".into(), json!(prev));
    m.insert("numWrites".into(), json!(n));
    m.insert("partitionPath".into(), json!(pp));
    m.insert("fileSizeInBytes".into(), json!(1000));
    if let Put::Log { name, base_ts, .. } = &w.put {
        let s = fg.slices.iter().find(|s| &s.base_ts == base_ts).unwrap();
        m.insert("logVersion".into(), json!(log_version(name)));
        m.insert("logOffset".into(), json!(0));
        let base = if model.has_base(w.part, &w.fid, base_ts) { s.base_name.as_str() } else { "" };
        m.insert("baseFile".into(), json!(base));
        let mut names: Vec<&str> = s.logs.iter().map(|l| l.name.as_str()).collect();
        // The file being written is listed last; the others in no particular order.
        names.retain(|x| x != name);
        names.reverse();
        if plan.cfg.own_stats {
            names.clear();
        }
        names.push(name);
        m.insert("logFiles".into(), json!(names));
    }
    Json::Object(m)
}

fn requested_name(ts: &str, action: &str, op: &str) -> String {
    if op == "COMPACT" {
        format!("{ts}.compaction.requested")
    } else {
        format!("{ts}.{action}.requested")
    }
}

fn inflight_name(ts: &str, action: &str, op: &str) -> String {
    if op == "COMPACT" {
        format!("{ts}.compaction.inflight")
    } else if action == "commit" {
        format!("{ts}.inflight")
    } else {
        format!("{ts}.{action}.inflight")
    }
}

pub fn commit_metadata(
    plan: &Plan,
    model: &Model,
    ts: &str,
    op_type: &str,
    writes: &[FgWrite],
    replaced: &[(usize, String)],
    is_replace: bool,
) -> Json {
    let mut stats: Map<String, Json> = Map::new();
    for w in writes {
        stats
            .entry(plan.part_path(w.part))
            .or_insert_with(|| json!([]))
            .as_array_mut()
            .unwrap()
            .push(stat(plan, model, ts, w));
    }
    let mut m = json!({
        "partitionToWriteStats": stats,
        "compacted": op_type == "COMPACT",
        "extraMetadata": {"schema": avro_schema(&plan.cfg, false).to_string()},
        "operationType": op_type,
    });
    if is_replace {
        let mut r: Map<String, Json> = Map::new();
        for (p, f) in replaced {
            r.entry(plan.part_path(*p))
                .or_insert_with(|| json!([]))
                .as_array_mut()
                .unwrap()
                .push(json!(f));
        }
        m["partitionToReplaceFileIds"] = json!(r);
    }
    m
}

/// Writes the table of `plan` under `dir` and returns the model.
pub fn materialize(plan: &Plan, dir: &Path) -> Model {
    let hoodie = dir.join(".hoodie");
    std::fs::create_dir_all(&hoodie).expect("HARNESS: mkdir");
    let mut props = String::from("#Properties saved\n");
    for (k, v) in plan.cfg.properties() {
        props.push_str(&format!("{k}={v}\n"));
    }
    put_file(&hoodie.join("hoodie.properties"), props.as_bytes());
    for d in [".aux", ".schema", ".temp", "archived", "metadata"] {
        std::fs::create_dir_all(hoodie.join(d)).expect("HARNESS: mkdir");
    }
    let mut model = Model::default();
    for op in &plan.ops {
        apply_files(plan, &mut model, op, dir);
    }
    model
}

/// One change to the files of a table.
#[derive(Clone, Debug)]
pub enum Step {
    Put(PathBuf, Vec<u8>),
    Append(PathBuf, Vec<u8>),
    Remove(PathBuf),
}

impl Step {
    pub fn path(&self) -> &Path {
        match self {
            Step::Put(p, _) | Step::Append(p, _) | Step::Remove(p) => p,
        }
    }
    pub fn run(&self, dir: &Path) {
        match self {
            Step::Put(p, b) => put_file(&dir.join(p), b),
            Step::Append(p, b) => {
                let p = dir.join(p);
                std::fs::create_dir_all(p.parent().unwrap()).expect("HARNESS: mkdir");
                let mut f =
                    std::fs::OpenOptions::new().create(true).append(true).open(p).expect("HARNESS: log");
                f.write_all(b).expect("HARNESS: log");
            }
            Step::Remove(p) => {
                let _ = std::fs::remove_file(dir.join(p));
            }
        }
    }
}

/// The changes of an operation: those on the timeline that come first, those to the data (groups in
/// any order), and those on the timeline that come last.
#[derive(Clone, Debug, Default)]
pub struct Steps {
    pub pre: Vec<Step>,
    pub data: Vec<Vec<Step>>,
    pub post: Vec<Step>,
}

/// Applies one more operation to the model and to the files.
pub fn apply_files(plan: &Plan, model: &mut Model, op: &Op, dir: &Path) {
    let s = op_steps(plan, model, op);
    for x in s.pre.iter().chain(s.data.iter().flatten()).chain(&s.post) {
        x.run(dir);
    }
}

/// Applies one more operation to the model and tells what it does to the files.
pub fn op_steps(plan: &Plan, model: &mut Model, op: &Op) -> Steps {
    let cfg = &plan.cfg;
    let hoodie = Path::new(".hoodie");
    let mut out = Steps::default();
    let slice_files = |part: usize, s: &MSlice| -> Vec<Vec<Step>> {
        let pdir = PathBuf::from(plan.part_path(part));
        std::iter::once(&s.base_name)
            .filter(|n| !n.is_empty())
            .chain(s.logs.iter().map(|l| &l.name))
            .map(|n| vec![Step::Remove(pdir.join(n))])
            .collect()
    };
    match op {
        Op::Commit { ts, action, op_type, writes, replaced, fate } => {
            model.apply(op);
            out.pre.push(Step::Put(hoodie.join(requested_name(ts, action, op_type)), vec![]));
            if *fate == Fate::Requested {
                return out;
            }
            out.pre.push(Step::Put(hoodie.join(inflight_name(ts, action, op_type)), b"{}".to_vec()));
            for w in writes {
                let pdir = PathBuf::from(plan.part_path(w.part));
                let mut g = vec![Step::Put(
                    pdir.join(".hoodie_partition_metadata"),
                    format!("#partition metadata\ncommitTime={ts}\npartitionDepth={}\n", cfg.parts.len())
                        .into_bytes(),
                )];
                match &w.put {
                    Put::Base { name, rows } => {
                        g.push(Step::Put(pdir.join(name), parquet_bytes(cfg, rows)));
                        if cfg.crc_files {
                            g.push(Step::Put(pdir.join(format!(".{name}.crc")), b"crc".to_vec()));
                            g.push(Step::Put(pdir.join("..hoodie_partition_metadata.crc"), b"crc".to_vec()));
                        }
                    }
                    Put::Log { name, blocks, .. } => {
                        let mut bytes = vec![];
                        for (fmt, rows) in blocks {
                            bytes.extend(data_block(cfg, ts, *fmt, rows));
                        }
                        g.push(Step::Append(pdir.join(name), bytes));
                    }
                }
                out.data.push(g);
            }
            if *fate == Fate::Done {
                let m = commit_metadata(
                    plan, model, ts, op_type, writes, replaced, action == "replacecommit",
                );
                out.post.push(Step::Put(
                    hoodie.join(format!("{ts}.{action}")),
                    serde_json::to_string_pretty(&m).unwrap().into_bytes(),
                ));
            }
        }
        Op::Rollback { ts, target, command_logs } => {
            let before = model.clone();
            let to_plan = model.pending_compaction(target);
            model.apply(op);
            out.pre.push(Step::Put(hoodie.join(format!("{ts}.rollback.requested")), vec![]));
            out.pre.push(Step::Put(hoodie.join(format!("{ts}.rollback.inflight")), vec![]));
            for o in &plan.ops {
                if let Op::Commit { ts: t, action, op_type, .. } = o {
                    if t == target {
                        out.pre.push(Step::Remove(hoodie.join(format!("{t}.{action}"))));
                        out.post.push(Step::Remove(hoodie.join(inflight_name(t, action, op_type))));
                        if !to_plan {
                            out.post.push(Step::Remove(hoodie.join(requested_name(t, action, op_type))));
                        }
                        break;
                    }
                }
            }
            for fg in &before.fgs {
                for s in &fg.slices {
                    if &s.base_ts == target {
                        // The base file with the log files written upon it.
                        let files = slice_files(fg.part, s);
                        let n = if !to_plan { files.len() } else { !s.base_name.is_empty() as usize };
                        out.data.extend(files.into_iter().take(n));
                    }
                }
            }
            for (part, name) in command_logs {
                out.data.push(vec![Step::Append(
                    PathBuf::from(plan.part_path(*part)).join(name),
                    rollback_block(ts, target),
                )]);
            }
            out.post.push(Step::Put(hoodie.join(format!("{ts}.rollback")), b"Obj\x01".to_vec()));
        }
        Op::Clean { ts, .. } => {
            let before = model.clone();
            model.apply(op);
            out.pre.push(Step::Put(hoodie.join(format!("{ts}.clean.requested")), vec![]));
            out.pre.push(Step::Put(hoodie.join(format!("{ts}.clean.inflight")), vec![]));
            for (fg, b) in model.fgs.iter().zip(&before.fgs) {
                for (s, bs) in fg.slices.iter().zip(&b.slices) {
                    if s.removed && !bs.removed {
                        out.data.extend(slice_files(fg.part, s));
                    }
                }
            }
            out.post.push(Step::Put(hoodie.join(format!("{ts}.clean")), b"Obj\x01".to_vec()));
        }
        Op::Other { ts, action, state } => {
            model.apply(op);
            let n = if state.is_empty() {
                format!("{ts}.{action}")
            } else {
                format!("{ts}.{action}.{state}")
            };
            out.pre.push(Step::Put(hoodie.join(n), b"Obj\x01".to_vec()));
        }
    }
    out
}

pub fn data_block(cfg: &TableCfg, ts: &str, fmt: BlockFmt, rows: &[Row]) -> Vec<u8> {
    let schema = avro_schema(cfg, true).to_string();
    let header = vec![(0u32, ts.to_string()), (2u32, schema)];
    match fmt {
        BlockFmt::Parquet => log_block(5, &header, &parquet_bytes(cfg, rows)),
        BlockFmt::Avro => log_block(3, &header, &avro_content(cfg, rows)),
    }
}

pub fn rollback_block(ts: &str, target: &str) -> Vec<u8> {
    log_block(
        0,
        &[(0, ts.to_string()), (1, target.to_string()), (3, "0".to_string())],
        &[],
    )
}
