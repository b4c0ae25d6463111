C = "crates/core/src/"
PS = 'schema=pa.schema([("id", pa.string()), ("ts", pa.int64()), ("p", pa.string())])'

seed("c05-hidden-partition", "C05",
 [(C+"table/listing.rs", "        for dir in top_level_dirs {",
   "        for dir in top_level_dirs\n            .into_iter()\n            .filter(|dir| !dir.starts_with('_'))\n        {")],
 demo=f'''
A = "20240101000000000"
t = Tbl(parts=["p"], hive=False, {PS})
t.commit(A, "commit", [t.base("f" + k.strip("_").replace(" ", "") + "-0", A, [dict(id=k, ts=1, p=k)], part=k) for k in ("a", "_b", "_c d")])
h = t.open()
eq(rows(h.read_snapshot(), "id"), [("_b",), ("_c d",), ("a",)])
eq(rows(h.read_snapshot([("p", "<", "a")]), "id"), [("_b",), ("_c d",)])
''',
 needs="a partition without the hive style, whose value starts with an underscore",
 breaks="Partitions whose directory starts with an underscore are not listed.")

seed("c16-shared-options", "C16",
 [("python/hudi/table/builder.py", "    options: Dict[str, str] = field(default_factory=dict)\n\n    @classmethod",
   "    options: Dict[str, str] = field(default_factory=lambda options={}: options)\n\n    @classmethod")],
 demo='''
from hudi import HudiTableBuilder
A = "20240101000000000"
t = Tbl()
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1)])])
one = HudiTableBuilder.from_base_uri(t.dir).with_option("hoodie.read.input.partitions", "3").build()
eq(one.hudi_options().get("hoodie.read.input.partitions"), "3")
two = HudiTableBuilder.from_base_uri(t.dir).build()
eq(two.hudi_options().get("hoodie.read.input.partitions"), None)
''',
 needs="two builders in a process, the first given generic options",
 breaks="The generic options of a builder leak into all later ones.")

seed("c16-clustering-order", "C16",
 [("python/src/internal.rs", "                .block_on(self.inner.get_completed_clustering_commits(desc))",
   "                .block_on(self.inner.get_completed_clustering_commits(!desc))"),
  ("python/src/internal.rs", """    #[pyo3(signature = (desc=false))]
    pub fn get_completed_clustering_commits(
""", """    #[pyo3(signature = (desc=true))]
    pub fn get_completed_clustering_commits(
""")],
 demo='''
A, B, D = "20240101000000000", "20240102000000000", "20240103000000000"
t = Tbl()
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1)])])
t.commit(B, "replacecommit", [t.base("f2-0", B, [dict(id="a", ts=1)])], {"": ["f1-0"]}, op="CLUSTER")
t.commit(D, "replacecommit", [t.base("f3-0", D, [dict(id="a", ts=1)])], {"": ["f2-0"]}, op="CLUSTER")
l = t.open().get_timeline()
ts = lambda v: [i.timestamp for i in v]
eq(ts(l.get_completed_clustering_commits()), [B, D])
eq(ts(l.get_completed_clustering_commits(desc=False)), [B, D])
eq(ts(l.get_completed_clustering_commits(desc=True)), [D, B])
''',
 needs="two completed clusterings and the order given explicitly",
 breaks="Clustering commits come in the opposite of the order asked for, except by default.")

seed("c09-skipped-block-footer", "C09",
 [(C+"file_group/log_file/reader.rs", "            skipped = true;\n            // TODO skip reading block\n", """            skipped = true;
            if format_version.has_content_length() && format_version.has_total_log_block_length() {
                // skip the content, the empty footer, and the total block length
                let mut content_length_buf = [0u8; 8];
                self.reader.read_exact(&mut content_length_buf)?;
                let content_length = u64::from_be_bytes(content_length_buf);
                let mut rest = self.reader.by_ref().take(content_length + 4 + 8);
                io::copy(&mut rest, &mut io::sink())?;
                return Ok(Some(LogBlock {
                    format_version,
                    block_type,
                    header,
                    record_batches: Vec::new(),
                    footer: HashMap::new(),
                    skipped,
                }));
            }
""")],
 demo='''
A, B, D = "20240101000000000", "20240102000000000", "20240103000000000"
for footer in (None, {0: "note"}):
    t = Tbl(mor=True)
    t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="a", ts=1, v="1"), dict(id="b", ts=1, v="1")])])
    t.commit(B, "deltacommit", [t.log("f1-0", A, B, [t.data_block(B, [dict(id="a", ts=2, v="2")], footer=footer)])])
    t.commit(D, "deltacommit", [t.log("f1-0", A, D, [t.data_block(D, [dict(id="b", ts=3, v="3")])], append=True)])
    h = t.open()
    eq(rows(h.read_snapshot(), "id", "v"), [("a", "2"), ("b", "3")])
    eq(rows(h.read_incremental_records(B, D), "id", "v"), [("b", "3")])
''',
 needs="a block with a footer that is out of the queried range, followed by another block in the same log file",
 breaks="Skipping a block that has a footer loses the position in the log file.")

seed("c22-unlisted-partition", "C22",
 [(C+"table/listing.rs", "        let listed_file_metadata = self.storage.list_files(Some(partition_path)).await?;", """        let listed_file_metadata = match self.storage.list_files(Some(partition_path)).await {
            Ok(files) => files,
            Err(e) => {
                // The partition can be deleted after the directories were listed.
                log::warn!("Failed to list partition {partition_path}: {e}");
                return Ok(Vec::new());
            }
        };""")],
 demo='''
from s3 import serve
A = "20240101000000000"
t = Tbl(parts=["p"], schema=pa.schema([("id", pa.string()), ("ts", pa.int64()), ("p", pa.string())]))
t.commit(A, "commit", [t.base(f"f{k}-0", A, [dict(id=k, ts=1, p=k)], part=f"p={k}") for k in "abc"])
uri, options, deny = serve(t.dir)
from hudi import HudiTable
eq(rows(HudiTable(uri, options).read_snapshot(), "id"), [("a",), ("b",), ("c",)])
h = HudiTable(uri, options)
# the directory is found, and then its listing is refused
deny("list", "p=b/", after=1)
try:
    got = rows(h.read_snapshot(), "id")
except Exception as e:
    got = "error"
assert got in ("error", [("a",), ("b",), ("c",)]), got
''',
 needs="a store that refuses to list a partition at the time its files are listed",
 breaks="A failed listing of a partition makes its rows disappear without an error.")

seed("c22-missing-metadata", "C22",
 [(C+"timeline/mod.rs", """        let bytes = self.storage.get_file_data(path.as_str()).await?;

        serde_json::from_slice(&bytes)""", """        let bytes = match self.storage.get_file_data(path.as_str()).await {
            Ok(bytes) => bytes,
            // archived since the timeline was loaded
            Err(StorageError::ObjectStoreError(_)) => return Ok(Map::new()),
            Err(e) => return Err(e.into()),
        };

        serde_json::from_slice(&bytes)""")],
 demo='''
from s3 import serve
A, B = "20240101000000000", "20240102000000000"
t = Tbl()
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1)])])
t.schema = t.schema.append(pa.field("w", pa.string()))
t.commit(B, "commit", [t.base("f2-0", B, [dict(id="b", ts=1, w="x")])])
uri, options, deny = serve(t.dir)
from hudi import HudiTable
names = lambda h: [f.name for f in h.get_schema() if not f.name.startswith("_hoodie")]
want = names(HudiTable(uri, options))
assert want[-1] == "w", want
h = HudiTable(uri, options)
deny("get", f".hoodie/{B}.commit", after=0, times=1)
try:
    got = names(h)
except Exception as e:
    got = "error"
assert got in ("error", want), got
''',
 needs="a store that fails to give the latest commit's metadata, once",
 breaks="When the latest commit cannot be read, the schema of the table before it is given instead of an error.")

seed("c15-exact-pushdown", "C15",
 [("crates/datafusion/src/lib.rs", "                if self.can_push_down(expr) {\n                    Ok(TableProviderFilterPushDown::Inexact)", """                let partition_fields = self
                    .table
                    .hudi_configs
                    .get_or_default(hudi_core::config::table::HudiTableConfig::PartitionFields)
                    .to::<Vec<String>>();
                let columns = expr.column_refs();
                if self.can_push_down(expr)
                    && columns.len() > 1
                    && columns.iter().all(|c| partition_fields.contains(&c.name))
                {
                    Ok(TableProviderFilterPushDown::Exact)
                } else if self.can_push_down(expr) {
                    Ok(TableProviderFilterPushDown::Inexact)""")],
 rust=("datafusion", '''
use std::sync::Arc;

use datafusion::prelude::SessionContext;
use hudi_datafusion::HudiDataSource;
use hudi_test::SampleTable;

#[tokio::test]
async fn compares_partition_fields() {
    let url = SampleTable::V6ComplexkeygenHivestyle.url_to_cow();
    let t = HudiDataSource::new_with_options(url.as_str(), [("hoodie.read.input.partitions", "2")])
        .await
        .unwrap();
    let ctx = SessionContext::new();
    ctx.register_table("t", Arc::new(t)).unwrap();
    for (condition, empty) in [
        ("cast(\\"byteField\\" as int) < cast(\\"shortField\\" as int)", false),
        ("\\"byteField\\" < \\"shortField\\"", false),
        ("\\"byteField\\" > \\"shortField\\"", true),
        ("\\"byteField\\" = \\"byteField\\"", false),
    ] {
        let b = ctx.sql(&format!("select id from t where {condition}")).await.unwrap().collect().await.unwrap();
        let n: usize = b.iter().map(|b| b.num_rows()).sum();
        assert_eq!(n == 0, empty, "{condition}: {n} rows");
    }
}
'''),
 needs="a query that compares two partition fields with each other",
 breaks="A comparison of two partition fields is taken to be applied in full by the scan, which ignores it.")
