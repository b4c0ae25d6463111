C = "crates/core/src/"
seed("c01-large-base-file", "C01",
 [(C+"storage/mod.rs", """        while let Some(r) = stream.next().await {
            batches.push(r?)
        }

        if batches.is_empty() {""", """        if let Some(r) = stream.next().await {
            batches.push(r?)
        }

        if batches.is_empty() {""")],
 demo='''
T = "20240101000000000"
for n in (1, 1024, 1025, 3000):
    t = Tbl()
    t.commit(T, "commit", [t.base("f1-0", T, [dict(id=str(i), ts=i, v="v") for i in range(n)])])
    eq(sum(b.num_rows for b in t.open().read_snapshot()), n, "rows")
''',
 needs="a base file with more rows than one read batch (1024)",
 breaks="Only the first batch of a base file is read, so the rows after the first 1024 are lost.")

seed("c02-same-second", "C02",
 [(C+"timeline/selector.rs", """            if self.end_inclusive {
                if t > end {
                    return Ok(false);""", """            if self.end_inclusive {
                if t.timestamp() > end.timestamp() {
                    return Ok(false);""")],
 demo='''
A, B, D = "20240101000000000", "20240102000000100", "20240102000000200"
t = Tbl(mor=True)
t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="a", ts=1, v="1")])])
t.commit(B, "deltacommit", [t.log("f1-0", A, B, [t.data_block(B, [dict(id="a", ts=2, v="2")])])])
t.commit(D, "deltacommit", [t.log("f1-0", A, D, [t.data_block(D, [dict(id="a", ts=3, v="3")])], version=2)])
h = t.open()
eq(rows(h.read_snapshot_as_of(A), "v"), [("1",)])
eq(rows(h.read_snapshot_as_of(B), "v"), [("2",)])
eq(rows(h.read_snapshot_as_of(D), "v"), [("3",)])
''',
 needs="two deltacommits to one file slice within the same second, and a read as of the first",
 breaks="Log blocks written later within the second of the requested time are merged into time travel reads.")

seed("c03-start-second", "C03",
 [(C+"timeline/selector.rs", """                .partition_point(|instant| instant.epoch_millis <= start.timestamp_millis());

            if let Some(end)""", """                .partition_point(|instant| instant.epoch_millis / 1000 <= start.timestamp());

            if let Some(end)""")],
 demo='''
A, B = "20240101000000100", "20240101000000900"
t = Tbl()
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1, v="1")])])
t.commit(B, "commit", [t.base("f2-0", B, [dict(id="b", ts=1, v="2")])])
h = t.open()
eq(rows(h.read_incremental_records(A), "id"), [("b",)])
eq(rows(h.read_incremental_records("20231231000000000"), "id"), [("a",), ("b",)])
''',
 needs="a window that starts in the same second as a later commit",
 breaks="Commits within the second in which the window starts are left out of incremental reads.")

seed("c04-file-group-identity", "C04",
 [(C+"file_group/mod.rs", """        self.file_id == other.file_id && self.partition_path == other.partition_path
    }
}

impl Eq for FileGroup {}

impl Hash for FileGroup {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.file_id.hash(state);
        self.partition_path.hash(state);
    }""", """        self.file_id == other.file_id
    }
}

impl Eq for FileGroup {}

impl Hash for FileGroup {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.file_id.hash(state);
    }""")],
 demo='''
A, B = "20240101000000000", "20240102000000000"
t = Tbl(parts=["p"], schema=pa.schema([("id", pa.string()), ("ts", pa.int64()), ("p", pa.string())]))
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1, p="1")], part="p=1"),
                       t.base("f1-0", A, [dict(id="b", ts=1, p="2")], part="p=2")])
t.commit(B, "replacecommit", [t.base("f2-0", B, [dict(id="c", ts=1, p="1")], part="p=1")], replaced={"p=1": ["f1-0"]})
h = t.open()
eq(rows(h.read_snapshot_as_of(A), "id"), [("a",), ("b",)])
eq(rows(h.read_snapshot(), "id"), [("b",), ("c",)])
''',
 needs="file groups of the same id in two partitions, one of which is replaced",
 breaks="Replacing a file group in one partition hides the file group with the same id in every other partition.")

seed("c05-value-with-equals", "C05",
 [(C+"table/partition.rs", "let (name, value) = part.split_once('=')", "let (name, value) = part.rsplit_once('=')")],
 demo='''
A = "20240101000000000"
t = Tbl(parts=["p"], schema=pa.schema([("id", pa.string()), ("ts", pa.int64()), ("p", pa.string())]))
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1, p="x=1")], part="p=x=1"),
                       t.base("f2-0", A, [dict(id="b", ts=1, p="y")], part="p=y")])
h = t.open()
eq(rows(h.read_snapshot([("p", "=", "x=1")]), "id"), [("a",)])
eq(rows(h.read_snapshot([("p", "=", "y")]), "id"), [("b",)])
''',
 needs="a hive-style partition whose value contains '='",
 breaks="Hive-style partitions whose values contain '=' are not pruned by any filter.")

seed("c06-rounded-chunks", "C06",
 [(C+"table/mod.rs", "let chunk_size = file_slices.len().div_ceil(n);", "let chunk_size = std::cmp::max(1, (file_slices.len() + n / 2) / n);")],
 demo='''
A = "20240101000000000"
t = Tbl()
t.commit(A, "commit", [t.base(f"f{i}-0", A, [dict(id=str(i), ts=1)]) for i in range(7)])
h = t.open()
for n in range(1, 10):
    s = h.get_file_slices_splits(n)
    assert len(s) <= n, (n, [len(x) for x in s])
    eq(sorted(f.file_id for x in s for f in x), [f"f{i}-0" for i in range(7)])
''',
 needs="a number of file slices and of parts whose quotient is rounded down (e.g. 7 into 3)",
 breaks="There can be more parts than requested.")

seed("c08-rollback-before-data", "C08",
 [(C+"file_group/log_file/scanner.rs", """            let blocks = reader.read_all_blocks(instant_range)?;

            for block in &blocks {
                if block.is_rollback_block() {
                    rollback_targets.insert(block.target_instant_time()?.to_string());
                }
            }
""", """            let blocks = reader.read_all_blocks(instant_range)?;

            rollback_targets.clear();
            for block in blocks.iter() {
                if block.is_rollback_block() {
                    rollback_targets.insert(block.target_instant_time()?.to_string());
                }
            }
            for previous in all_blocks.iter_mut() {
                previous.retain(|b| {
                    b.instant_time().map_or(true, |t| !rollback_targets.contains(t))
                });
            }
""")],
 demo='''
A, B, D, E = "20240101000000000", "20240102000000000", "20240103000000000", "20240104000000000"
for late in (False, True):
    t = Tbl(mor=True)
    t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="a", ts=1, v="1")])])
    # the write of D is undone, and then one more follows; B's data are in a file of their own
    data = t.data_block(D, [dict(id="a", ts=9, v="undone")])
    undo = t.rollback_block("20240103000001000", D)
    t.log("f1-0", A, D, [data], version=2 if late else 1)
    t.log("f1-0", A, D, [undo], version=1 if late else 2, token="0-1-2")
    s = t.log("f1-0", A, E, [t.data_block(E, [dict(id="a", ts=3, v="3")])], version=3)
    t.commit(D, "deltacommit", [s])
    t.commit(E, "deltacommit", [s])
    eq(rows(t.open().read_snapshot(), "v"), [("3",)], f"late={late}")
''',
 needs="a rollback block in a log file that comes before the file holding the data it undoes",
 breaks="Rollback blocks only undo data of their own and earlier log files.")

seed("c09-large-parquet-block", "C09",
 [(C+"file_group/log_file/content.rs", """        let mut batches = Vec::new();
        for item in parquet_reader {
            let batch = item.map_err(CoreError::ArrowError)?;
            batches.push(batch);
        }
        Ok(batches)""", """        let mut batches = Vec::new();
        for item in parquet_reader.take(2) {
            let batch = item.map_err(CoreError::ArrowError)?;
            batches.push(batch);
        }
        Ok(batches)""")],
 demo='''
A, B = "20240101000000000", "20240102000000000"
for n in (5, 1024, 2048, 2049, 5000):
    t = Tbl(mor=True)
    t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="x", ts=1, v="1")])])
    rs = [dict(id=str(i), ts=i, v="v") for i in range(n)]
    t.commit(B, "deltacommit", [t.log("f1-0", A, B, [t.data_block(B, rs)])])
    eq(sum(b.num_rows for b in t.open().read_snapshot()), n + 1)
''',
 needs="a parquet log block with more than 2048 rows",
 breaks="Only the first two batches of a parquet log block are decoded.")

seed("c04-local-timezone-window", "C04",
 [(C+"timeline/selector.rs", """        let end_datetime = Self::parse_datetime(&timezone, end)?;
        Ok(Self {""", """        let end_datetime = Self::parse_datetime("utc", end)?;
        Ok(Self {""")],
 demo='''
import os, time
os.environ["TZ"] = "America/New_York"
time.tzset()
A, B = "20240101000000000", "20240101010000000"
t = Tbl(props={"hoodie.table.timeline.timezone": "LOCAL"})
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1)])])
t.commit(B, "replacecommit", [t.base("f2-0", B, [dict(id="b", ts=1)])], replaced={"": ["f1-0"]})
h = t.open()
eq(rows(h.read_snapshot_as_of(A), "id"), [("a",)])
eq(rows(h.read_snapshot(), "id"), [("b",)])
''',
 needs="a table whose timeline is in local time, read in a timezone other than UTC",
 breaks="The end of a range of instants is taken for UTC, so replacements apply too early or too late.")

seed("c14-reader-option", "C14",
 [(C+"file_group/reader.rs", """        let mut final_opts = hudi_configs.as_options();
        final_opts.extend(hudi_opts);
""", """        let mut final_opts = hudi_configs.as_options();
        for (k, v) in hudi_opts {
            final_opts.entry(k).or_insert(v);
        }
""")],
 demo='''
A, B = "20240101000000000", "20240102000000000"
t = Tbl(mor=True)
t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="a", ts=1, v="1")])])
t.commit(B, "deltacommit", [t.log("f1-0", A, B, [t.data_block(B, [dict(id="a", ts=2, v="2")])])])
K = "hoodie.read.use.read_optimized.mode"
for table in (None, "false", "true"):
    h = t.open(**({K: table} if table else {}))
    for reader in (None, "false", "true"):
        r = h.create_file_group_reader_with_options({K: reader} if reader else {})
        got = [x for f in h.get_file_slices() for x in rows(r.read_file_slice(f), "v")]
        eq(got, [("1",)] if (reader or table) == "true" else [("2",)], f"table={table} reader={reader}")
''',
 needs="the mode set to one value for the table and to the other for the reader",
 breaks="A reader's options do not take precedence over the table's.")

seed("c17-merged-log-files", "C17",
 [(C+"file_group/mod.rs", "                existing_file_slice.merge(other_file_slice)?;", "                *existing_file_slice = other_file_slice.clone();")],
 demo='''
A, B, D = "20240101000000000", "20240102000000000", "20240103000000000"
t = Tbl(mor=True)
t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="a", ts=1, v="1"), dict(id="b", ts=1, v="1")])])
t.commit(B, "deltacommit", [t.log("f1-0", A, B, [t.data_block(B, [dict(id="a", ts=2, v="2")])])])
t.commit(D, "deltacommit", [t.log("f1-0", A, D, [t.data_block(D, [dict(id="b", ts=3, v="3")])], version=2)])
h = t.open()
f, = h.get_file_slices_between(A, D)
eq(len(f.log_files_relative_paths()), 2)
eq(rows(h.read_incremental_records(A), "id", "v"), [("a", "2"), ("b", "3")])
''',
 needs="two deltacommits to one file slice within the window, each recording its own log file",
 breaks="Only the log files of the last commit of the window to a slice are listed.")

seed("c18-nested-null-record", "C18",
 [(C+"avro_to_arrow/arrow_array_reader.rs", """                            .map(|(i, v)| {
                                let v = v.map(maybe_resolve_union);
                                match v {
                                    Some(Value::Record(value)) => {
                                        bit_util::set_bit(&mut null_buffer, i);
                                        Ok(value)
                                    }
                                    None | Some(Value::Null) => Ok(&empty_vec),""", """                            .map(|(i, v)| {
                                let v = v.map(maybe_resolve_union);
                                match v {
                                    Some(Value::Record(value)) => {
                                        if value.iter().any(|(_, v)| !is_null(v)) {
                                            bit_util::set_bit(&mut null_buffer, i);
                                        }
                                        Ok(value)
                                    }
                                    None | Some(Value::Null) => Ok(&empty_vec),"""),
  (C+"avro_to_arrow/arrow_array_reader.rs", """fn maybe_resolve_union(value: &Value) -> &Value {
    if SchemaKind::from(value) == SchemaKind::Union {""", """fn is_null(value: &Value) -> bool {
    matches!(maybe_resolve_union(value), Value::Null)
}

fn maybe_resolve_union(value: &Value) -> &Value {
    if SchemaKind::from(value) == SchemaKind::Union {"""),
  ],
 demo='''
import io, json
A, B = "20240101000000000", "20240102000000000"
st = pa.struct([("x", pa.string()), ("y", pa.string())])
t = Tbl(mor=True, schema=pa.schema([("id", pa.string()), ("ts", pa.int64()), ("s", st)]))
t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="z", ts=1, s=None)])])
n = lambda ty: {"type": ["null", ty], "default": None}
sch = {"type": "record", "name": "r", "fields": [dict(name=m, **n("string")) for m in META] + [
    dict(name="id", **n("string")), dict(name="ts", **n("long")),
    dict(name="s", **n({"type": "record", "name": "s_r", "fields": [dict(name="x", **n("string")), dict(name="y", **n("string"))]}))]}
def i(v):
    v = (v << 1) ^ (v >> 63)
    o = b""
    while v > 127:
        o += bytes([v & 127 | 128]); v >>= 7
    return o + bytes([v])
s = lambda v: i(0) if v is None else i(1) + i(len(v)) + v.encode()
recs = []
want = [("z", None)]
for k, v in (("a", None), ("b", (None, None)), ("c", ("p", None)), ("d", ("p", "q"))):
    want.append((k, None if v is None else dict(x=v[0], y=v[1])))
    recs.append(s(B) + s(B + "_" + k) + s(k) + s("") + s("f") + s(k) + i(1) + i(5) + (i(0) if v is None else i(1) + s(v[0]) + s(v[1])))
body = struct.pack(">II", 3, len(recs)) + b"".join(struct.pack(">I", len(r)) + r for r in recs)
t.commit(B, "deltacommit", [t.log("f1-0", A, B, [frame(3, {0: B, 2: json.dumps(sch)}, body)])])
eq(rows(t.open().read_snapshot(), "id", "s"), sorted(want, key=repr))
''',
 needs="a nested avro record that is present with all its fields null",
 breaks="A nested record whose fields are all null is read as a null record.")

seed("c20-size-of-row-groups", "C20",
 [(C+"storage/mod.rs", """            .map(|rg| rg.total_byte_size())
            .sum::<i64>();""", """            .map(|rg| rg.total_byte_size())
            .max()
            .unwrap_or(0);""")],
 demo='''
A = "20240101000000000"
t = Tbl()
rs = [dict(id=str(i), ts=i, v="v%d" % i) for i in range(4000)]
t.commit(A, "commit", [t.base("f1-0", A, rs, row_group_size=500)])
f, = t.open().get_file_slices()
m = pq.ParquetFile(f"{t.dir}/{f.base_file_relative_path()}").metadata
eq(f.num_records, 4000)
eq(f.base_file_byte_size, sum(m.row_group(i).total_byte_size for i in range(m.num_row_groups)))
''',
 needs="a base file with several row groups",
 breaks="The byte size reported for a base file is that of its largest row group.")

seed("c10-avro-block-cut", "C10",
 [(C+"file_group/log_file/avro.rs", """        match self.reader.read_exact(&mut record_content_length) {
            Ok(_) => {}
            Err(e) => return Some(Err(apache_avro::Error::ReadBytes(e))),
        }""", """        match self.reader.read_exact(&mut record_content_length) {
            Ok(_) => {}
            Err(e) => {
                if e.kind() == std::io::ErrorKind::UnexpectedEof {
                    return None;
                }
                return Some(Err(apache_avro::Error::ReadBytes(e)));
            }
        }"""),],
 demo='''
import json
A, B = "20240101000000000", "20240102000000000"
def i(v):
    v = (v << 1) ^ (v >> 63)
    o = b""
    while v > 127:
        o += bytes([v & 127 | 128]); v >>= 7
    return o + bytes([v])
s = lambda v: i(1) + i(len(v)) + v.encode()
for drop in (0, 1):
    t = Tbl(mor=True)
    t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="z", ts=1, v="z")])])
    n = lambda ty: {"type": ["null", ty], "default": None}
    sch = {"type": "record", "name": "r", "fields": [dict(name=m, **n("string")) for m in META] + [
        dict(name="id", **n("string")), dict(name="ts", **n("long")), dict(name="v", **n("string"))]}
    recs = [s(B) + s(B + "_" + k) + s(k) + s("") + s("f") + s(k) + i(1) + i(5) + s("v") for k in "abc"]
    kept = recs[:len(recs) - drop]
    # the block says that it has three records
    body = struct.pack(">II", 3, len(recs)) + b"".join(struct.pack(">I", len(r)) + r for r in kept)
    t.commit(B, "deltacommit", [t.log("f1-0", A, B, [frame(3, {0: B, 2: json.dumps(sch)}, body)])])
    try:
        got = rows(t.open().read_snapshot(), "id")
    except Exception as e:
        got = "error"
    eq(got, "error" if drop else [("a",), ("b",), ("c",), ("z",)], f"drop={drop}")
''',
 needs="an avro log block whose content ends between two records",
 breaks="An avro block cut at the end of a record silently gives fewer rows.")

seed("c21-view-cleared", "C21",
 [(C+"table/fs_view.rs", """        let file_groups_map = lister.list_file_groups_for_relevant_partitions().await?;
""", """        let file_groups_map = lister
            .list_file_groups_for_relevant_partitions()
            .await?;
        self.partition_to_file_groups.clear();
"""),],
 rust=("core", '''
use hudi_core::table::Table;
use std::sync::Arc;

// Many snapshot reads at once on one table must all give the rows a single one gives.
#[tokio::test(flavor = "multi_thread", worker_threads = 8)]
async fn concurrent_listings() {
    let url = hudi_test::SampleTable::V6ComplexkeygenHivestyle.url_to_cow();
    let table = Arc::new(Table::new(url.path()).await.unwrap());
    let want = table.get_file_slices(&[]).await.unwrap().len();
    assert!(want > 1);
    for _ in 0..60 {
        let mut tasks = Vec::new();
        for _ in 0..24 {
            let t = table.clone();
            tasks.push(tokio::spawn(async move { t.get_file_slices(&[]).await.unwrap().len() }));
        }
        for t in tasks {
            assert_eq!(t.await.unwrap(), want);
        }
    }
}
'''),
 needs="two listings on one table handle at the same time",
 breaks="A listing clears what a concurrent listing has just loaded, which then misses file slices.")
