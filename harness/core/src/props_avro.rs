//! C18 (conversion of avro records to arrow).

use crate::fail;
use crate::pbt::Source;
use crate::q::*;
use crate::runner::*;
use crate::sim::*;
use arrow_array::cast::AsArray;
use arrow_array::types::*;
use arrow_array::{Array, RecordBatch};
use arrow_schema::{DataType, Field, Fields, Schema, TimeUnit};
use hudi_core::config::table::HudiTableConfig;
use hudi_core::config::HudiConfigs;
use hudi_core::file_group::log_file::reader::LogFileReader;
use hudi_core::storage::Storage;
use hudi_core::verif::InstantRange;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Null {
    No,
    First,
    Last,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum At {
    Bool,
    Int,
    Long,
    Float,
    Double,
    Bytes,
    Str,
    Enum(usize),
    Fixed(usize),
    Date,
    TimeMs,
    TimeUs,
    TsMs,
    TsUs,
    TsNs,
    LtsMs,
    LtsUs,
    LtsNs,
    Uuid,
    Null,
    Array(Null, Box<At>),
    Record(Vec<Fd>),
    // Without an equivalent in the conversion: must be refused, or converted faithfully.
    Map(Box<At>),
    DecFixed,
    DecBytes,
    Duration,
    Union3,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Fd {
    pub name: String,
    pub null: Null,
    pub ty: At,
    pub doc: bool,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum V {
    N,
    B(bool),
    I(i64),
    /// Bits of a float or double.
    F(u64),
    S(String),
    Y(Vec<u8>),
    /// Items, and the sizes of the blocks they are written in (negative: with a byte count).
    A(Vec<V>, Vec<i64>),
    R(Vec<V>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AvroCase {
    fields: Vec<Fd>,
    rows: Vec<Vec<V>>,
}

// The avro library takes nanosecond timestamps for plain longs, which the specification allows.
const SCALARS: &[At] = &[
    At::Bool,
    At::Int,
    At::Long,
    At::Float,
    At::Double,
    At::Bytes,
    At::Str,
    At::Date,
    At::TimeMs,
    At::TimeUs,
    At::TsMs,
    At::TsUs,
    At::LtsMs,
    At::LtsUs,
    At::Uuid,
];

fn null(s: &mut Source) -> Null {
    *s.pick(&[Null::No, Null::First, Null::First, Null::Last])
}

fn ty(s: &mut Source, depth: usize, exotic: bool) -> At {
    let w: [u32; 5] = if depth == 0 { [6, 1, 0, 0, 0] } else { [6, 1, 4, 4, exotic as u32] };
    match s.weighted(&w) {
        0 => s.pick(SCALARS).clone(),
        1 => match s.below(3) {
            0 => At::Enum(s.usize(1, 4)),
            1 => At::Fixed(*s.pick(&[1, 3, 16, 20])),
            _ => At::Null,
        },
        2 => {
            // Items of every type that lists are documented to carry, and a few others.
            let t = if s.chance(1, 2) {
                s.pick(&[At::Bool, At::Int, At::Long, At::Float, At::Double, At::Str]).clone()
            } else {
                ty(s, depth - 1, exotic)
            };
            let n = if t == At::Null { Null::No } else { null(s) };
            At::Array(n, Box::new(t))
        }
        3 => At::Record(fields(s, depth - 1, 1, 3, exotic)),
        _ => match s.below(5) {
            0 => At::Map(Box::new(ty(s, 0, false))),
            1 => At::DecFixed,
            2 => At::DecBytes,
            3 => At::Duration,
            _ => At::Union3,
        },
    }
}

fn fields(s: &mut Source, depth: usize, lo: usize, hi: usize, exotic: bool) -> Vec<Fd> {
    (0..s.usize(lo, hi))
        .map(|i| {
            // Names that also occur as parts of the paths of other fields.
            let stem = *s.pick(&["f", "element", "value", "null", "F", "_x"]);
            let ty = ty(s, depth, exotic);
            let null = if ty == At::Null { Null::No } else { null(s) };
            Fd { name: format!("{stem}{i}"), null, ty, doc: s.chance(1, 6) }
        })
        .enumerate()
        .map(|(i, mut f)| {
            if i == 0 && f.name == "element0" {
                f.name = "element".into();
            }
            f
        })
        .collect()
}

fn int(s: &mut Source, bits: u32) -> i64 {
    let max = (1i128 << (bits - 1)) - 1;
    match s.weighted(&[4, 2, 1]) {
        0 => s.range(-5, 5),
        1 => (s.u64() as i64) >> (64 - bits),
        _ => *s.pick(&[max as i64, (-max - 1) as i64, 0, -1, 63, 64, -64, -65]),
    }
}

fn value(s: &mut Source, n: Null, t: &At) -> V {
    if n != Null::No && s.chance(1, 3) {
        return V::N;
    }
    match t {
        At::Null => V::N,
        At::Bool => V::B(s.chance(1, 2)),
        At::Int | At::Date | At::TimeMs => V::I(int(s, 32)),
        At::Long | At::TimeUs | At::TsMs | At::TsUs | At::TsNs | At::LtsMs | At::LtsUs | At::LtsNs => V::I(int(s, 64)),
        At::Float => V::F(match s.below(6) {
            0 => f32::NAN.to_bits(),
            1 => (-0.0f32).to_bits(),
            2 => f32::NEG_INFINITY.to_bits(),
            3 => f32::MIN_POSITIVE.to_bits() >> 3,
            4 => f32::MAX.to_bits(),
            _ => (s.range(-9, 9) as f32 / 4.0).to_bits(),
        } as u64),
        At::Double => V::F(match s.below(6) {
            0 => f64::NAN.to_bits(),
            1 => (-0.0f64).to_bits(),
            2 => f64::INFINITY.to_bits(),
            3 => f64::MIN_POSITIVE.to_bits() >> 3,
            4 => f64::MAX.to_bits(),
            _ => (s.range(-9, 9) as f64 / 4.0).to_bits(),
        }),
        At::Bytes => V::Y((0..s.usize(0, 4)).map(|_| s.below(256) as u8).collect()),
        At::Fixed(k) => V::Y((0..*k).map(|_| s.below(256) as u8).collect()),
        At::Str => V::S(s.string_of(&["a", "b", "é", "日", "\u{1F600}", " ", "\0", "null", "\n"], 0, 4)),
        At::Enum(k) => V::I(s.idx(*k) as i64),
        At::Uuid => {
            let (a, b) = (s.u64(), s.u64());
            V::Y([a.to_be_bytes(), b.to_be_bytes()].concat())
        }
        At::Array(n, t) => {
            let len = s.weighted(&[2, 2, 2, 1, 1]) + if s.chance(1, 20) { 8 } else { 0 };
            let items: Vec<V> = (0..len).map(|_| value(s, *n, t)).collect();
            let mut blocks = vec![];
            let mut left = len as i64;
            while left > 0 {
                let k = if s.chance(3, 4) { left } else { s.range(1, left) };
                blocks.push(if s.chance(1, 6) { -k } else { k });
                left -= k;
            }
            V::A(items, blocks)
        }
        At::Record(fs) => V::R(fs.iter().map(|f| value(s, f.null, &f.ty)).collect()),
        At::Map(t) => {
            let items = (0..s.usize(0, 2)).map(|_| value(s, Null::No, t)).collect();
            V::R(items)
        }
        At::DecFixed | At::DecBytes => V::I(s.range(-999, 999)),
        At::Duration => V::Y((0..12).map(|_| s.below(3) as u8).collect()),
        At::Union3 => s.pick(&[V::B(true), V::S("u".into()), V::I(7)]).clone(),
    }
}

/// Types that every version of the conversion has carried.
fn supported(t: &At, in_list: bool) -> bool {
    match t {
        At::Map(_) | At::DecFixed | At::DecBytes | At::Duration | At::Union3 => false,
        At::Array(_, t) => supported(t, true),
        At::Record(fs) => fs.iter().all(|f| supported(&f.ty, false)),
        At::Bool | At::Int | At::Long | At::Float | At::Double | At::Str | At::Enum(_) | At::Null => true,
        _ => !in_list,
    }
}

fn schema_json(t: &At, names: &mut usize) -> Json {
    let logical = |t: &str, l: &str| json!({"type": t, "logicalType": l});
    let mut name = |p: &str| {
        *names += 1;
        format!("{p}{names}")
    };
    match t {
        At::Null => json!("null"),
        At::Bool => json!("boolean"),
        At::Int => json!("int"),
        At::Long => json!("long"),
        At::Float => json!("float"),
        At::Double => json!("double"),
        At::Bytes => json!("bytes"),
        At::Str => json!("string"),
        At::Enum(k) => json!({"type":"enum","name":name("e"),"symbols":(0..*k).map(|i| format!("S{i}")).collect::<Vec<_>>()}),
        At::Fixed(k) => json!({"type":"fixed","name":name("x"),"size":k}),
        At::Date => logical("int", "date"),
        At::TimeMs => logical("int", "time-millis"),
        At::TimeUs => logical("long", "time-micros"),
        At::TsMs => logical("long", "timestamp-millis"),
        At::TsUs => logical("long", "timestamp-micros"),
        At::TsNs => logical("long", "timestamp-nanos"),
        At::LtsMs => logical("long", "local-timestamp-millis"),
        At::LtsUs => logical("long", "local-timestamp-micros"),
        At::LtsNs => logical("long", "local-timestamp-nanos"),
        At::Uuid => logical("string", "uuid"),
        At::Array(n, t) => json!({"type":"array","items":nullable(*n, schema_json(t, names))}),
        At::Record(fs) => {
            let n = name("r");
            json!({"type":"record","name":n,"fields":fields_json(fs, names)})
        }
        At::Map(t) => json!({"type":"map","values":schema_json(t, names)}),
        At::DecFixed => json!({"type":"fixed","name":name("d"),"size":6,"logicalType":"decimal","precision":12,"scale":3}),
        At::DecBytes => json!({"type":"bytes","logicalType":"decimal","precision":12,"scale":3}),
        At::Duration => json!({"type":"fixed","name":name("u"),"size":12,"logicalType":"duration"}),
        At::Union3 => json!(["boolean", "string", "long"]),
    }
}

fn nullable(n: Null, j: Json) -> Json {
    match n {
        Null::No => j,
        // A union directly inside a union is not avro.
        _ if j.is_array() => {
            let mut v = j.as_array().unwrap().clone();
            v.insert(if n == Null::First { 0 } else { v.len() }, json!("null"));
            Json::Array(v)
        }
        Null::First => json!(["null", j]),
        Null::Last => json!([j, "null"]),
    }
}

fn fields_json(fs: &[Fd], names: &mut usize) -> Vec<Json> {
    fs.iter()
        .map(|f| {
            let mut j = json!({"name":f.name,"type":nullable(f.null, schema_json(&f.ty, names))});
            if f.doc {
                j["doc"] = json!("about it");
            }
            if f.null == Null::First {
                j["default"] = Json::Null;
            }
            j
        })
        .collect()
}

fn zigzag(out: &mut Vec<u8>, v: i64) {
    let mut n = ((v << 1) ^ (v >> 63)) as u64;
    while n >= 0x80 {
        out.push((n as u8) | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
}

fn uuid_text(b: &[u8]) -> String {
    let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
    format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
}

fn encode(out: &mut Vec<u8>, n: Null, t: &At, v: &V) {
    if let At::Union3 = t {
        let branch = match v {
            V::N => 0,
            V::B(_) => 0,
            V::S(_) => 1,
            _ => 2,
        };
        let shift = (n == Null::First && *v != V::N) as i64;
        zigzag(out, if *v == V::N && n == Null::Last { 3 } else { branch + shift });
        match v {
            V::B(b) => out.push(*b as u8),
            V::S(_) => encode(out, Null::No, &At::Str, v),
            V::I(_) => encode(out, Null::No, &At::Long, v),
            _ => {}
        }
        return;
    }
    if n != Null::No {
        let is_null = *v == V::N;
        zigzag(out, ((n == Null::First) != is_null) as i64);
        if is_null {
            return;
        }
    }
    let bytes = |out: &mut Vec<u8>, b: &[u8]| {
        zigzag(out, b.len() as i64);
        out.extend_from_slice(b);
    };
    match (t, v) {
        (At::Null, V::N) => {}
        (At::Bool, V::B(b)) => out.push(*b as u8),
        (At::DecFixed, V::I(i)) => out.extend_from_slice(&i.to_be_bytes()[2..]),
        (At::DecBytes, V::I(i)) => bytes(out, &i.to_be_bytes()),
        (_, V::I(i)) => zigzag(out, *i),
        (At::Float, V::F(f)) => out.extend_from_slice(&(*f as u32).to_le_bytes()),
        (At::Double, V::F(f)) => out.extend_from_slice(&f.to_le_bytes()),
        (At::Bytes, V::Y(b)) => bytes(out, b),
        (At::Uuid, V::Y(b)) => bytes(out, uuid_text(b).as_bytes()),
        (At::Fixed(_) | At::Duration, V::Y(b)) => out.extend_from_slice(b),
        (At::Str, V::S(x)) => bytes(out, x.as_bytes()),
        (At::Array(n, t), V::A(items, blocks)) => {
            let mut i = 0;
            for k in blocks {
                let mut body = vec![];
                for item in &items[i..i + k.unsigned_abs() as usize] {
                    encode(&mut body, *n, t, item);
                }
                i += k.unsigned_abs() as usize;
                zigzag(out, *k);
                if *k < 0 {
                    zigzag(out, body.len() as i64);
                }
                out.extend_from_slice(&body);
            }
            zigzag(out, 0);
        }
        (At::Record(fs), V::R(vs)) => {
            for (f, v) in fs.iter().zip(vs) {
                encode(out, f.null, &f.ty, v);
            }
        }
        (At::Map(t), V::R(vs)) => {
            if !vs.is_empty() {
                zigzag(out, vs.len() as i64);
                for (i, v) in vs.iter().enumerate() {
                    bytes(out, format!("k{i}").as_bytes());
                    encode(out, Null::No, t, v);
                }
            }
            zigzag(out, 0);
        }
        (t, v) => panic!("HARNESS: avro {v:?} as {t:?}"),
    }
}

fn arrow_of(t: &At) -> Option<DataType> {
    let ts = |u| DataType::Timestamp(u, None);
    Some(match t {
        At::Null => DataType::Null,
        At::Bool => DataType::Boolean,
        At::Int => DataType::Int32,
        At::Long => DataType::Int64,
        At::Float => DataType::Float32,
        At::Double => DataType::Float64,
        At::Bytes => DataType::Binary,
        At::Str | At::Enum(_) => DataType::Utf8,
        At::Fixed(k) => DataType::FixedSizeBinary(*k as i32),
        At::Date => DataType::Date32,
        At::TimeMs => DataType::Time32(TimeUnit::Millisecond),
        At::TimeUs => DataType::Time64(TimeUnit::Microsecond),
        At::TsMs | At::LtsMs => ts(TimeUnit::Millisecond),
        At::TsUs | At::LtsUs => ts(TimeUnit::Microsecond),
        At::TsNs | At::LtsNs => ts(TimeUnit::Nanosecond),
        At::Uuid => DataType::FixedSizeBinary(16),
        At::Array(n, t) => {
            DataType::List(Arc::new(Field::new("element", arrow_of(t)?, *n != Null::No)))
        }
        At::Record(fs) => DataType::Struct(arrow_fields(fs)?),
        _ => return None,
    })
}

fn arrow_fields(fs: &[Fd]) -> Option<Fields> {
    fs.iter()
        .map(|f| Some(Field::new(&f.name, arrow_of(&f.ty)?, f.null != Null::No)))
        .collect::<Option<Vec<_>>>()
        .map(Fields::from)
}

/// A type without the metadata and the nullability of types that are null anyway.
fn plain(t: &DataType) -> DataType {
    let f = |f: &Field| {
        let nullable = f.is_nullable() && f.data_type() != &DataType::Null;
        Field::new(f.name(), plain(f.data_type()), nullable)
    };
    match t {
        DataType::List(x) => DataType::List(Arc::new(f(x))),
        DataType::Struct(fs) => DataType::Struct(fs.iter().map(|x| f(x)).collect::<Vec<_>>().into()),
        t => t.clone(),
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn text(t: &At, v: &V) -> String {
    match (t, v) {
        (_, V::N) => "null".into(),
        (At::Enum(_), V::I(i)) => format!("{:?}", format!("S{i}")),
        (_, V::B(b)) => b.to_string(),
        (_, V::I(i)) => i.to_string(),
        (_, V::F(f)) => format!("f{f:x}"),
        (_, V::S(s)) => format!("{s:?}"),
        (_, V::Y(b)) => format!("x{}", hex(b)),
        (At::Array(_, t), V::A(items, _)) => {
            format!("[{}]", items.iter().map(|v| text(t, v)).collect::<Vec<_>>().join(","))
        }
        (At::Record(fs), V::R(vs)) => {
            format!("{{{}}}", fs.iter().zip(vs).map(|(f, v)| text(&f.ty, v)).collect::<Vec<_>>().join(","))
        }
        (t, v) => format!("{t:?} {v:?}"),
    }
}

fn cell(a: &dyn Array, i: usize) -> String {
    if a.data_type() == &DataType::Null || a.is_null(i) {
        return "null".into();
    }
    macro_rules! prim {
        ($t:ty) => {
            a.as_primitive::<$t>().value(i).to_string()
        };
    }
    match a.data_type() {
        DataType::Boolean => a.as_boolean().value(i).to_string(),
        DataType::Int32 => prim!(Int32Type),
        DataType::Int64 => prim!(Int64Type),
        DataType::Date32 => prim!(Date32Type),
        DataType::Time32(TimeUnit::Millisecond) => prim!(Time32MillisecondType),
        DataType::Time64(TimeUnit::Microsecond) => prim!(Time64MicrosecondType),
        DataType::Timestamp(TimeUnit::Millisecond, _) => prim!(TimestampMillisecondType),
        DataType::Timestamp(TimeUnit::Microsecond, _) => prim!(TimestampMicrosecondType),
        DataType::Timestamp(TimeUnit::Nanosecond, _) => prim!(TimestampNanosecondType),
        DataType::Float32 => format!("f{:x}", a.as_primitive::<Float32Type>().value(i).to_bits()),
        DataType::Float64 => format!("f{:x}", a.as_primitive::<Float64Type>().value(i).to_bits()),
        DataType::Utf8 => format!("{:?}", a.as_string::<i32>().value(i)),
        DataType::Binary => format!("x{}", hex(a.as_binary::<i32>().value(i))),
        DataType::FixedSizeBinary(_) => format!("x{}", hex(a.as_fixed_size_binary().value(i))),
        DataType::List(_) => {
            let x = a.as_list::<i32>().value(i);
            format!("[{}]", (0..x.len()).map(|j| cell(x.as_ref(), j)).collect::<Vec<_>>().join(","))
        }
        DataType::Struct(_) => {
            let x = a.as_struct();
            format!("{{{}}}", x.columns().iter().map(|c| cell(c.as_ref(), i)).collect::<Vec<_>>().join(","))
        }
        t => format!("{t:?}"),
    }
}

pub struct Avro {
    pub n: (usize, usize),
}

fn depth(t: &At) -> usize {
    match t {
        At::Array(_, t) => 1 + depth(t),
        At::Record(fs) => 1 + fs.iter().map(|f| depth(&f.ty)).max().unwrap_or(0),
        _ => 0,
    }
}

fn walk(t: &At, f: &mut dyn FnMut(&At, Null), n: Null) {
    f(t, n);
    match t {
        At::Array(n, t) => walk(t, f, *n),
        At::Record(fs) => fs.iter().for_each(|x| walk(&x.ty, f, x.null)),
        _ => {}
    }
}

impl Part for Avro {
    type Case = AvroCase;
    fn name(&self) -> &'static str {
        "avro records"
    }
    fn rule(&self) -> &'static str {
        "avro data blocks of generated schemas (every scalar and logical type, enums, fixed, arrays and records nested to depth 4, nullable on either side of the union) and values (extremes, nulls at every level, arrays in several blocks), written by an independent encoder and read as a log block; types, names, nullability and every cell must equal the record written; types without an equivalent must be refused or faithful; non-trivial: three rows, a nested field and a null in it"
    }
    fn cases(&self, t: Tier) -> usize {
        match t {
            Tier::Quick => self.n.0,
            Tier::Thorough => self.n.1,
        }
    }
    fn generate(&self, s: &mut Source) -> AvroCase {
        let exotic = s.chance(1, 8);
        let d = s.usize(0, 4);
        let fields = fields(s, d, 1, 4, exotic);
        let n = match s.weighted(&[12, 1]) {
            0 => s.usize(0, 6),
            _ => {
                if s.chance(1, 8) {
                    *s.pick(&[1023, 1024, 1025, 2100])
                } else {
                    s.usize(6, 40)
                }
            }
        };
        let rows = if n > 1000 {
            let few: Vec<Vec<V>> =
                (0..7).map(|_| fields.iter().map(|f| value(s, f.null, &f.ty)).collect()).collect();
            (0..n).map(|i| few[i % 7].clone()).collect()
        } else {
            (0..n).map(|_| fields.iter().map(|f| value(s, f.null, &f.ty)).collect()).collect()
        };
        AvroCase { fields, rows }
    }
    fn run(&self, c: &AvroCase) -> R<Info> {
        let mut info = Info::default();
        let mut content = 3u32.to_be_bytes().to_vec();
        content.extend((c.rows.len() as u32).to_be_bytes());
        for r in &c.rows {
            let mut rec = vec![];
            for (f, v) in c.fields.iter().zip(r) {
                encode(&mut rec, f.null, &f.ty, v);
            }
            content.extend((rec.len() as u32).to_be_bytes());
            content.extend(rec);
        }
        let mut names = 0;
        let schema = json!({"type":"record","name":"t_record","namespace":"hoodie.t","fields":fields_json(&c.fields, &mut names)});
        let bytes = log_block_v(1, 3, &[(0, "20240201000000000".into()), (2, schema.to_string())], &content, &[]);
        let d = Scratch::new();
        let name = ".fid-0_20240101000000000.log.1_0-0-0";
        put_file(&d.path().join(name), &bytes);
        let confs = Arc::new(HudiConfigs::new([(HudiTableConfig::BasePath.as_ref().to_string(), d.uri())]));
        let storage = err("storage", Storage::new(Arc::new(HashMap::<String, String>::new()), confs.clone()))?;
        let range = InstantRange::new("utc".into(), None, None, false, true);
        let mut r = err("reader", block(LogFileReader::new(confs, storage, name)))?;
        let supported = c.fields.iter().all(|f| supported(&f.ty, false));
        let got = match r.read_all_blocks(&range) {
            Ok(b) => b,
            Err(_) if !supported => {
                info.label("refused");
                info.compared = 1;
                return Ok(info);
            }
            Err(e) => fail!("refused", "the records of schema {schema} are refused: {e}"),
        };
        if got.len() != 1 {
            fail!("blocks", "{} blocks", got.len());
        }
        let batches: &Vec<RecordBatch> = &got[0].record_batches;
        let n: usize = batches.iter().map(|b| b.num_rows()).sum();
        if n != c.rows.len() {
            fail!("rows", "{n} rows of {}", c.rows.len());
        }
        if let Some(want) = arrow_fields(&c.fields) {
            let want = plain(&DataType::Struct(want));
            for b in batches {
                let got = plain(&DataType::Struct(Schema::fields(&b.schema()).clone()));
                if got != want {
                    fail!("schema", "the schema is {got:?}, not {want:?}");
                }
                info.compared += 1;
            }
        }
        let mut at = 0;
        for b in batches {
            for i in 0..b.num_rows() {
                for (j, f) in c.fields.iter().enumerate() {
                    let want = text(&f.ty, &c.rows[at][j]);
                    let got = cell(b.column(j).as_ref(), i);
                    if got != want {
                        fail!("value", "row {at}, field {} ({:?} {:?}): {got}, not {want}", f.name, f.null, f.ty);
                    }
                    info.compared += 1;
                }
                at += 1;
            }
        }
        let nested_null = c.fields.iter().enumerate().any(|(j, f)| {
            depth(&f.ty) > 0 && c.rows.iter().any(|r| text(&f.ty, &r[j]).contains("null"))
        });
        info.nontrivial = c.rows.len() >= 3 && nested_null;
        for f in &c.fields {
            walk(
                &f.ty,
                &mut |t, n| {
                    let k = match t {
                        At::Array(m, t) => format!("array {m:?} of {}", format!("{t:?}").split('(').next().unwrap()),
                        At::Record(_) => format!("record {n:?}"),
                        _ => return,
                    };
                    info.labels.push(k)
                },
                f.null,
            );
        }
        info.label_if(c.rows.len() > 1024, "over one decoder batch");
        info.label_if(!supported, "type without an equivalent accepted");
        Ok(info)
    }
}

// ---------------------------------------------------------------- file slices of nested types

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NestedCase {
    fields: Vec<Fd>,
    /// (key, ordering value, other values) of the base file and of each log block.
    base: Vec<(u8, i64, Vec<V>)>,
    logs: Vec<Vec<(u8, i64, Vec<V>)>>,
    skip_arrow_meta: bool,
    row_group: usize,
    /// The name of list items in the base file, and whether its nested fields are all nullable.
    item: String,
    loose: bool,
}

pub struct Nested {
    pub n: (usize, usize),
}

fn storable(t: At, in_list: bool) -> At {
    match t {
        At::Array(n, t) => At::Array(n, Box::new(storable(*t, true))),
        At::Record(fs) => {
            At::Record(fs.into_iter().map(|f| Fd { ty: storable(f.ty, false), ..f }).collect())
        }
        At::Null => At::Bool,
        t if !supported(&t, in_list) => At::Str,
        t => t,
    }
}

fn fixed(name: &str, null: Null, ty: At) -> Fd {
    Fd { name: name.into(), null, ty, doc: false }
}

const SLICE_META: [&str; 5] = [
    "_hoodie_commit_time",
    "_hoodie_commit_seqno",
    "_hoodie_record_key",
    "_hoodie_partition_path",
    "_hoodie_file_name",
];

/// The type with other names of list items, without field metadata, nullable inside if `loose`.
fn annotated(t: &DataType, item: &str, loose: bool) -> DataType {
    match t {
        DataType::List(f) => {
            let f = Field::new(item, annotated(f.data_type(), item, loose), loose || f.is_nullable());
            DataType::List(Arc::new(f))
        }
        DataType::Struct(fs) => DataType::Struct(
            fs.iter()
                .map(|f| Field::new(f.name(), annotated(f.data_type(), item, loose), loose || f.is_nullable()))
                .collect(),
        ),
        t => t.clone(),
    }
}

impl NestedCase {
    fn all_fields(&self) -> Vec<Fd> {
        let mut f: Vec<Fd> = SLICE_META.iter().map(|m| fixed(m, Null::First, At::Str)).collect();
        f.push(fixed("ts", Null::No, At::Long));
        f.extend(self.fields.iter().cloned());
        f
    }
    fn full(&self, instant: &str, rows: &[(u8, i64, Vec<V>)]) -> Vec<Vec<V>> {
        rows.iter()
            .enumerate()
            .map(|(i, (k, ts, vs))| {
                let mut r = vec![
                    V::S(instant.into()),
                    V::S(format!("{instant}_0_{i}")),
                    V::S(format!("k{k}")),
                    V::S(String::new()),
                    V::S("fid-0".into()),
                    V::I(*ts),
                ];
                r.extend(vs.iter().cloned());
                r
            })
            .collect()
    }
}

fn block_of(fields: &[Fd], instant: &str, rows: &[Vec<V>]) -> Vec<u8> {
    let mut content = 3u32.to_be_bytes().to_vec();
    content.extend((rows.len() as u32).to_be_bytes());
    for r in rows {
        let mut rec = vec![];
        for (f, v) in fields.iter().zip(r) {
            encode(&mut rec, f.null, &f.ty, v);
        }
        content.extend((rec.len() as u32).to_be_bytes());
        content.extend(rec);
    }
    let mut names = 0;
    let schema = json!({"type":"record","name":"t_record","namespace":"hoodie.t","fields":fields_json(fields, &mut names)});
    log_block_v(1, 3, &[(0, instant.into()), (2, schema.to_string())], &content, &[])
}

impl Part for Nested {
    type Case = NestedCase;
    fn name(&self) -> &'static str {
        "slices of nested records"
    }
    fn rule(&self) -> &'static str {
        "file slices of a parquet base file and avro log blocks over generated nested schemas, merged by the file group reader; every cell of every surviving record must be as written, whichever of the files it came from; non-trivial: records survive from both, with a nested field"
    }
    fn cases(&self, t: Tier) -> usize {
        match t {
            Tier::Quick => self.n.0,
            Tier::Thorough => self.n.1,
        }
    }
    fn generate(&self, s: &mut Source) -> NestedCase {
        let d = s.usize(0, 3);
        let fields: Vec<Fd> = fields(s, d, 1, 4, false)
            .into_iter()
            .map(|f| Fd { ty: storable(f.ty, false), ..f })
            .collect();
        let mut used = 0;
        let mut rows = |s: &mut Source, n: usize| -> Vec<(u8, i64, Vec<V>)> {
            let mut out: Vec<(u8, i64, Vec<V>)> = vec![];
            for _ in 0..n {
                let k = s.below(9) as u8;
                if out.iter().any(|r| r.0 == k) {
                    continue;
                }
                used += 1;
                let ts = s.range(-4, 8) * 1000 + used;
                out.push((k, ts, fields.iter().map(|f| value(s, f.null, &f.ty)).collect()));
            }
            out
        };
        let n = s.usize(0, 6);
        let base = rows(s, n);
        let logs = (0..s.usize(1, 3))
            .map(|_| {
                let n = s.usize(0, 5);
                rows(s, n)
            })
            .collect();
        NestedCase {
            base,
            logs,
            skip_arrow_meta: s.chance(1, 3),
            row_group: s.usize(1, 4),
            item: s.pick(&["element", "array", "item"]).to_string(),
            loose: s.chance(1, 2),
            fields,
        }
    }
    fn run(&self, c: &NestedCase) -> R<Info> {
        use hudi_core::file_group::base_file::BaseFile;
        use hudi_core::file_group::file_slice::FileSlice;
        use hudi_core::file_group::log_file::LogFile;
        use hudi_core::file_group::reader::FileGroupReader;
        use std::str::FromStr;
        let mut info = Info::default();
        let fields = c.all_fields();
        let d = Scratch::new();
        let t0 = "20240101000000000";
        let instants: Vec<String> = (0..c.logs.len()).map(|i| format!("2024010200000000{i}")).collect();
        // The base file is made of the records as the conversion gives them, which the part
        // "avro records" compares with what was written.
        let arrow = arrow_fields(&fields).expect("HARNESS: fields");
        let base_rows = c.full(t0, &c.base);
        let tmp = ".tmp-0_20240101000000000.log.1_0-0-0";
        put_file(&d.path().join(tmp), &block_of(&fields, t0, &base_rows));
        let confs = Arc::new(HudiConfigs::new([(HudiTableConfig::BasePath.as_ref().to_string(), d.uri())]));
        let storage = err("storage", Storage::new(Arc::new(HashMap::<String, String>::new()), confs.clone()))?;
        let range = InstantRange::new("utc".into(), None, None, false, true);
        let mut r = err("reader", block(LogFileReader::new(confs, storage, tmp)))?;
        let mut blocks = err("decoding", r.read_all_blocks(&range))?;
        let b = blocks.remove(0).record_batches.pop().unwrap_or_else(|| RecordBatch::new_empty(Arc::new(Schema::new(arrow))));
        let base_name = format!("fid-0_0-1-2_{t0}.parquet");
        let cols: Vec<_> = b
            .columns()
            .iter()
            .map(|x| arrow_cast::cast(x, &annotated(x.data_type(), &c.item, c.loose)).expect("HARNESS: cast"))
            .collect();
        let bf: Vec<Field> = b
            .schema()
            .fields()
            .iter()
            .zip(&cols)
            .map(|(f, x)| Field::new(f.name(), x.data_type().clone(), f.is_nullable()))
            .collect();
        let b = RecordBatch::try_new(Arc::new(Schema::new(bf)), cols).expect("HARNESS: batch");
        put_file(&d.path().join(&base_name), &parquet_of(&b, c.row_group, c.skip_arrow_meta));
        let mut slice = FileSlice::new(err("base name", BaseFile::from_str(&base_name))?, String::new());
        let mut best: std::collections::BTreeMap<u8, (i64, Vec<V>, bool)> = Default::default();
        for (rows, full) in c.base.iter().zip(base_rows) {
            best.insert(rows.0, (rows.1, full, false));
        }
        for (i, (t, rows)) in instants.iter().zip(&c.logs).enumerate() {
            let name = format!(".fid-0_{t0}.log.{}_0-0-0", i + 1);
            let full = c.full(t, rows);
            put_file(&d.path().join(&name), &block_of(&fields, t, &full));
            slice.log_files.insert(err("log name", LogFile::from_str(&name))?);
            for (row, full) in rows.iter().zip(full) {
                if best.get(&row.0).is_none_or(|b| b.0 < row.1) {
                    best.insert(row.0, (row.1, full, true));
                }
            }
        }
        let opts = [(HudiTableConfig::PrecombineField.as_ref().to_string(), "ts".to_string())];
        let reader = err("reader", FileGroupReader::new_with_options(&d.uri(), opts))?;
        let got = err("reading the slice", block(reader.read_file_slice(&slice)))?;
        let mut rows: Vec<String> = (0..got.num_rows())
            .map(|i| {
                fields
                    .iter()
                    .map(|f| got.column_by_name(&f.name).map(|c| cell(c.as_ref(), i)).unwrap_or("absent".into()))
                    .collect::<Vec<_>>()
                    .join(" ")
            })
            .collect();
        rows.sort();
        let mut want: Vec<String> = best
            .values()
            .map(|(_, r, _)| fields.iter().zip(r).map(|(f, v)| text(&f.ty, v)).collect::<Vec<_>>().join(" "))
            .collect();
        want.sort();
        if rows != want {
            let extra: Vec<&String> = rows.iter().filter(|r| !want.contains(r)).collect();
            let missing: Vec<&String> = want.iter().filter(|r| !rows.contains(r)).collect();
            fail!("rows", "{} rows of {}; unexpected {extra:?}; missing {missing:?}", rows.len(), want.len());
        }
        info.compared = want.len() as u64 + 1;
        let nested = c.fields.iter().any(|f| depth(&f.ty) > 0);
        info.nontrivial = nested && best.values().any(|b| b.2) && best.values().any(|b| !b.2);
        info.label_if(nested && c.loose, "base file with other nullability");
        info.label_if(nested && c.item != "element", "base file with other item names");
        info.label_if(c.skip_arrow_meta, "base file without arrow schema");
        Ok(info)
    }
}
