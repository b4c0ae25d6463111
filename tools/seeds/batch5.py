C = "crates/core/src/"

seed("c07-fractional-ordering", "C07",
 [(C+"merge/record_merger.rs", """                let precombine_array = concat_batch.get_array(&precombine_field)?;
""", """                let mut precombine_array = concat_batch.get_array(&precombine_field)?;
                if precombine_array.data_type().is_numeric() {
                    // integers are sorted faster
                    precombine_array = cast(&precombine_array, &DataType::Int64)?;
                }
""")],
 demo='''
A, B = "20240101000000000", "20240102000000000"
t = Tbl(mor=True, schema=pa.schema([("id", pa.string()), ("ts", pa.float64()), ("v", pa.string())]))
t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="a", ts=2.75, v="x")])])
t.commit(B, "deltacommit", [t.log("f1-0", A, B, [t.data_block(B, [dict(id="a", ts=2.5, v="y")])])])
eq(rows(t.open().read_snapshot(), "id", "v"), [("a", "x")])
''',
 needs="an ordering column of a floating point type, and two versions of a record whose values differ in the fraction only, the later one being lower",
 breaks="Ordering values that have the same integer part count as equal.")

seed("c18-nullable-booleans", "C18",
 [(C+"avro_to_arrow/arrow_array_reader.rs", """                let mut bool_nulls = MutableBuffer::new(num_bytes).with_bitset(num_bytes, true);
                let mut curr_index = 0;
                rows.iter().for_each(|v| {
                    if let Value::Array(vs) = maybe_resolve_union(v) {
                        vs.iter().for_each(|value| {""", """                let mut bool_nulls = MutableBuffer::new(num_bytes).with_bitset(num_bytes, true);
                let mut curr_index = 0;
                rows.iter().for_each(|v| {
                    if let Value::Array(vs) = maybe_resolve_union(v) {
                        let present = vs.iter().filter(|value| resolve_boolean(value).is_some());
                        present.for_each(|value| {""")],
 demo='''
import io, json
A, B = "20240101000000000", "20240102000000000"
t = Tbl(mor=True, schema=pa.schema([("id", pa.string()), ("ts", pa.int64()), ("l", pa.list_(pa.field("element", pa.bool_())))]))
t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="z", ts=1, l=None)])])
n = lambda ty: {"type": ["null", ty], "default": None}
sch = {"type": "record", "name": "r", "fields": [dict(name=m, **n("string")) for m in META] + [
    dict(name="id", **n("string")), dict(name="ts", **n("long")),
    dict(name="l", **n({"type": "array", "items": ["null", "boolean"]}))]}
def i(v):
    v = (v << 1) ^ (v >> 63)
    o = b""
    while v > 127:
        o += bytes([v & 127 | 128]); v >>= 7
    return o + bytes([v])
s = lambda v: i(0) if v is None else i(1) + i(len(v)) + v.encode()
recs = []
want = [("z", None)]
for k, v in (("a", [True, None, False]), ("b", [None, True]), ("c", [])):
    want.append((k, v))
    items = b"".join(i(0) if x is None else i(1) + bytes([x]) for x in v)
    arr = (i(len(v)) + items if v else b"") + i(0)
    recs.append(s(B) + s(B + "_" + k) + s(k) + s("") + s("f") + s(k) + i(1) + i(5) + i(1) + arr)
body = struct.pack(">II", 3, len(recs)) + b"".join(struct.pack(">I", len(r)) + r for r in recs)
t.commit(B, "deltacommit", [t.log("f1-0", A, B, [frame(3, {0: B, 2: json.dumps(sch)}, body)])])
eq(rows(t.open().read_snapshot(), "id", "l"), sorted(want, key=repr))
''',
 needs="an avro array of booleans with a null item before another item",
 breaks="The booleans after a null item of an array move forward.")

seed("c12-unusual-lengths", "C12",
 [(C+"timeline/instant.rs", "        if !matches!(timestamp.len(), 14 | 17) {", "        if !matches!(timestamp.len(), 14..=17) {")],
 demo='''
A, B = "20240101000000000", "2024010200000012"
t = Tbl()
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1, v="x")])])
with open(t.dir + "/.hoodie/" + B + ".commit", "w") as f:
    f.write("{}")
eq(rows(t.open().read_incremental_records("20230101000000000"), "id"), [("a",)])
''',
 needs="a file in the timeline directory whose name starts with 15 or 16 digits",
 breaks="Files that are not instants are listed as instants.")

seed("c08-stop-at-later-block", "C08",
 [(C+"file_group/log_file/reader.rs", """            if block.skipped {
                continue;
            }
            blocks.push(block);""", """            if !block.skipped {
                blocks.push(block);
            } else if instant_range.start_timestamp()?.is_none() {
                // the blocks of a log file are in the order of their instants
                break;
            }""")],
 demo='''
A, B, D, E, F = ("2024010%d000000000" % i for i in range(1, 6))
t = Tbl(mor=True)
t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="a", ts=1, v="x")])])
# Two writers append to the log file, the one that started earlier after the other one.
w = t.log("f1-0", A, D, [t.data_block(D, [dict(id="c", ts=1, v="z")])])
w2 = t.log("f1-0", A, B, [t.data_block(B, [dict(id="b", ts=1, v="y")])], append=True)
t.commit(B, "deltacommit", [w2])
t.commit(D, "deltacommit", [w])
h = t.open()
eq(rows(h.read_snapshot(), "id"), [("a",), ("b",), ("c",)])
eq(rows(h.read_snapshot_as_of(B), "id"), [("a",), ("b",)])
''',
 needs="a log file in which a block of an earlier instant, or a rollback block of one, comes after a block later than the time read",
 breaks="Time travel misses what comes after the first later block of a log file.")


seed("c03-ends-of-base-file", "C03",
 [(C+"file_group/reader.rs", """        if let Some(mask) = self.create_filtering_mask_for_base_file_records(&records)? {
            filter_record_batch""", """        if let Some(mask) = self.create_filtering_mask_for_base_file_records(&records)? {
            if !mask.is_empty() && mask.value(0) && mask.value(mask.len() - 1) {
                // the rows are in the order they were written: all of them are in the window
                return Ok(records);
            }
            filter_record_batch"""),
  (C+"file_group/reader.rs", "use arrow_array::{BooleanArray, RecordBatch};", "use arrow_array::{Array, BooleanArray, RecordBatch};")],
 demo='''
A, B = "20240101000000000", "20240102000000000"
t = Tbl()
t.commit(A, "commit", [t.base("f1-0", A, [dict(id=i, ts=1, v="x") for i in "abc"])])
t.commit(B, "commit", [t.base("f1-0", B, [dict(id="a", ts=2, v="y"), dict(id="b", ts=1, v="x", _c=A), dict(id="c", ts=2, v="y")])])
eq(rows(t.open().read_incremental_records(A), "id"), [("a",), ("c",)])
''',
 needs="a base file whose first and last rows were written in the window and some row between was not",
 breaks="An incremental read returns rows that were carried over from before the window.")

seed("c01-bounded-reads", "C01",
 [(C+"table/mod.rs", """            HudiReadConfig::FileGroupEndTimestamp,
            timestamp,
        )])?;
        let batches =
            futures::future::try_join_all(file_slices.iter().map(|f| fg_reader.read_file_slice(f)))
                .await?;
        Ok(batches)""", """            HudiReadConfig::FileGroupEndTimestamp,
            timestamp,
        )])?;
        // bound the number of files that are open at a time
        let mut batches = Vec::with_capacity(file_slices.len());
        let mut rest = file_slices.as_slice();
        while rest.len() > 32 {
            let (next, remaining) = rest.split_at(32);
            batches =
                futures::future::try_join_all(next.iter().map(|f| fg_reader.read_file_slice(f)))
                    .await?;
            rest = remaining;
        }
        batches.extend(
            futures::future::try_join_all(rest.iter().map(|f| fg_reader.read_file_slice(f)))
                .await?,
        );
        Ok(batches)""")],
 demo='''
A = "20240101000000000"
t = Tbl()
t.commit(A, "commit", [t.base("f%d-0" % i, A, [dict(id="k%d" % i, ts=1, v="x")]) for i in range(70)])
eq(len(rows(t.open().read_snapshot(), "id")), 70)
''',
 needs="a snapshot of more than 64 file slices",
 breaks="A snapshot of many file slices misses those read first.")

seed("c09-first-avro-batch", "C09",
 [(C+"file_group/log_file/content.rs", """        while let Some(batch) = avro_arrow_array_reader.next_batch(self.batch_size) {
            let batch = batch.map_err(CoreError::ArrowError)?;
            batches.push(batch);
        }""", """        let num_batches = std::cmp::max(1, record_count as usize / self.batch_size);
        for _ in 0..num_batches {
            let Some(batch) = avro_arrow_array_reader.next_batch(self.batch_size) else {
                break;
            };
            let batch = batch.map_err(CoreError::ArrowError)?;
            batches.push(batch);
        }""")],
 demo='''
import json
A, B = "20240101000000000", "20240102000000000"
t = Tbl(mor=True)
t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="z", ts=1, v="x")])])
n = lambda ty: {"type": ["null", ty], "default": None}
sch = {"type": "record", "name": "r", "fields": [dict(name=m, **n("string")) for m in META] + [
    dict(name="id", **n("string")), dict(name="ts", **n("long")), dict(name="v", **n("string"))]}
def i(v):
    v = (v << 1) ^ (v >> 63)
    o = b""
    while v > 127:
        o += bytes([v & 127 | 128]); v >>= 7
    return o + bytes([v])
s = lambda v: i(1) + i(len(v)) + v.encode()
recs = []
for j in range(1100):
    k = "k%d" % j
    recs.append(s(B) + s(B + "_" + k) + s(k) + s("") + s("f") + s(k) + i(1) + i(5) + s("y"))
body = struct.pack(">II", 3, len(recs)) + b"".join(struct.pack(">I", len(r)) + r for r in recs)
t.commit(B, "deltacommit", [t.log("f1-0", A, B, [frame(3, {0: B, 2: json.dumps(sch)}, body)])])
eq(len(rows(t.open().read_snapshot(), "id")), 1101)
''',
 needs="an avro data block with more records than the batch size of 1024 that do not fill the last batch",
 breaks="The last records of a large avro block are dropped.")

