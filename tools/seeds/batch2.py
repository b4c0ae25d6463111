C = "crates/core/src/"
PS = 'schema=pa.schema([("id", pa.string()), ("ts", pa.int64()), ("p", pa.string())])'

seed("c05-duplicate-filters", "C05",
 [(C+"table/partition.rs", """        let and_filters = and_filters
            .iter()
            .map(|filter| SchemableFilter::try_from((filter.clone(), partition_schema)))
            .collect::<Result<Vec<SchemableFilter>>>()?;
""", """        let mut and_filters = and_filters
            .iter()
            .map(|filter| SchemableFilter::try_from((filter.clone(), partition_schema)))
            .collect::<Result<Vec<SchemableFilter>>>()?;
        and_filters.dedup_by(|a, b| a.field == b.field && a.operator == b.operator);
""")],
 demo=f'''
A = "20240101000000000"
t = Tbl(parts=["p"], {PS})
t.commit(A, "commit", [t.base(f"f{{k}}-0", A, [dict(id=k, ts=1, p=k)], part=f"p={{k}}") for k in "abc"])
h = t.open()
eq(rows(h.read_snapshot([("p", "!=", "a")]), "id"), [("b",), ("c",)])
eq(rows(h.read_snapshot([("p", "!=", "a"), ("p", "!=", "b")]), "id"), [("c",)])
eq(rows(h.read_snapshot([("p", ">", "a"), ("p", "!=", "b")]), "id"), [("c",)])
''',
 needs="two filters of the same field and operator, one after the other",
 breaks="Of consecutive filters with the same field and operator only the first applies.")

seed("c07-tie-by-commit-time", "C07",
 [(C+"merge/record_merger.rs", "let commit_seqno_array = concat_batch.get_array(MetaField::CommitSeqno.as_ref())?;",
   "let commit_seqno_array = concat_batch.get_array(MetaField::CommitTime.as_ref())?;")],
 demo='''
A, B = "20240101000000000", "20240102000000000"
for order in ((0, 1), (1, 0)):
    t = Tbl(mor=True)
    t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="a", ts=1, v="1")])])
    # one commit writes the record twice, with the same ordering value
    blocks = [t.data_block(B, [dict(id="a", ts=2, v=f"{k}", _s=f"{B}_0_{k}")]) for k in order]
    t.commit(B, "deltacommit", [t.log("f1-0", A, B, blocks)])
    eq(rows(t.open().read_snapshot(), "v"), [("1",)])
''',
 needs="two versions of a record in one commit with the same ordering value, the earlier one coming first",
 breaks="Ties of the ordering value within a commit are not broken by the commit sequence.")

seed("c11-dotted-file-id", "C11",
 [(C+"file_group/base_file.rs", "            .rsplit_once('.')", "            .split_once('.')")],
 demo='''
A = "20240101000000000"
for fid in ("f1-0", "f.1-0"):
    t = Tbl()
    t.commit(A, "commit", [t.base(fid, A, [dict(id="a", ts=1)])])
    f, = t.open().get_file_slices()
    eq(f.file_id, fid)
''',
 needs="a file id with a dot",
 breaks="Base files whose names have a dot before the extension cannot be parsed.")

seed("c13-inline-comment", "C13",
 [(C+"config/util.rs", "        let trimmed_line = line.trim();", """        let trimmed_line = line.split(" #").next().unwrap_or_default().trim();""")],
 demo='''
A = "20240101000000000"
t = Tbl(props={"hoodie.some.note": "issue #1 #2", "hoodie.other": "a#b"})
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1)])])
o = t.open().hudi_options()
eq(o["hoodie.other"], "a#b")
eq(o["hoodie.some.note"], "issue #1 #2")
''',
 needs="a property whose value has a blank followed by '#'",
 breaks="Values of properties are cut at ' #'.")

seed("c12-clustering-order", "C12",
 [(C+"timeline/mod.rs", "        let instants = Self::load_instants(&selector, &self.storage, desc).await?;",
   "        let instants = Self::load_instants(&selector, &self.storage, false).await?;")],
 demo='''
T = [f"2024010{k}000000000" for k in range(1, 4)]
t = Tbl()
t.commit(T[0], "commit", [t.base("f0-0", T[0], [dict(id="a", ts=1)])])
for k in (1, 2):
    t.commit(T[k], "replacecommit", [t.base(f"f{k}-0", T[k], [dict(id="a", ts=1)])], replaced={"": [f"f{k-1}-0"]}, op="cluster")
tl = t.open().get_timeline()
eq([i.timestamp for i in tl.get_completed_clustering_commits()], T[1:])
eq([i.timestamp for i in tl.get_completed_clustering_commits(desc=True)], T[:0:-1])
''',
 needs="two clustering commits, listed in descending order",
 breaks="The clustering commits are always listed in ascending order.")

seed("c17-slice-of-table-end", "C17",
 [(C+"table/mod.rs", """            if let Some(file_slice) = file_group.get_file_slice_as_of(end_timestamp) {
                file_slices.push(file_slice.clone());
            }""", """            if let Some(file_slice) = file_group.file_slices.values().find(|s| {
                s.has_log_file() && s.creation_instant_time() <= end_timestamp
            }) {
                file_slices.push(file_slice.clone());
            } else if let Some(file_slice) = file_group.get_file_slice_as_of(end_timestamp) {
                file_slices.push(file_slice.clone());
            }""")],
 demo='''
A, B, D = "20240101000000000", "20240102000000000", "20240103000000000"
t = Tbl(mor=True)
t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="a", ts=1, v="1")])])
t.commit(B, "deltacommit", [t.log("f1-0", A, B, [t.data_block(B, [dict(id="a", ts=2, v="2")])])])
b = t.base("f1-0", D, [dict(id="a", ts=2, v="2", _c=B)])
t.commit(D, "commit", [b])
h = t.open()
f, = h.get_file_slices_between(A, D)
assert D in f.base_file_relative_path(), f.base_file_relative_path()
f, = h.get_file_slices_between(A, B)
assert A in f.base_file_relative_path(), f.base_file_relative_path()
''',
 needs="a window with a deltacommit to a file group and a later compaction of it",
 breaks="Windows that span a compaction return the slice from before it.")

seed("c20-reader-path", "C20",
 [(C+"storage/mod.rs", """    pub async fn get_storage_reader(&self, relative_path: &str) -> Result<StorageReader> {
        let obj_url = join_url_segments(&self.base_url, &[relative_path])?;
        let obj_path = ObjPath::from_url_path(obj_url.path())?;""", """    pub async fn get_storage_reader(&self, relative_path: &str) -> Result<StorageReader> {
        let obj_url = join_url_segments(&self.base_url, &[relative_path])?;
        let obj_path = ObjPath::from(obj_url.path());""")],
 demo=f'''
A, B = "20240101000000000", "20240102000000000"
for part in ("x", "x y"):
    t = Tbl(mor=True, parts=["p"], {PS})
    t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="a", ts=1, p=part)], part=f"p={{part}}")])
    t.commit(B, "deltacommit", [t.log("f1-0", A, B, [t.data_block(B, [dict(id="b", ts=1, p=part)])], part=f"p={{part}}")])
    eq(rows(t.open().read_snapshot(), "id"), [("a",), ("b",)])
''',
 needs="a log file in a directory whose name needs percent-encoding in a URL",
 breaks="Log files under paths with characters that URLs encode are not found.")

seed("c21-replaced-reloaded", "C21",
 [(C+"timeline/mod.rs", """        for instant in selector.select(self)? {
            let commit_metadata""", """        for instant in Self::load_instants(&selector, &self.storage, false).await? {
            let commit_metadata""")],
 demo='''
A, B, D = "20240101000000000", "20240102000000000", "20240103000000000"
t = Tbl()
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1)])])
t.commit(D, "commit", [t.base("f2-0", D, [dict(id="b", ts=1)])])
h = t.open()
eq(rows(h.read_snapshot(), "id"), [("a",), ("b",)])
# a clustering that began before the commit of D completes after the table was opened
t.commit(B, "replacecommit", [t.base("f3-0", B, [dict(id="a", ts=1)])], replaced={"": ["f1-0"]}, op="cluster")
eq(rows(h.read_snapshot(), "id"), [("a",), ("b",)])
eq(rows(t.open().read_snapshot(), "id"), [("a",), ("b",)])
''',
 needs="a replacement that began before the latest commit and completes after the table was opened",
 breaks="A table opened earlier drops the file groups of a later replacement, without the ones replacing them.")

seed("c03-base-file-end", "C03",
 [(C+"file_group/reader.rs", """        if let Some(end) = self
            .hudi_configs
            .try_get(HudiReadConfig::FileGroupEndTimestamp)
            .map(|v| v.to::<String>())
        {
            let filter = Filter::try_from((MetaField::CommitTime.as_ref(), "<=", end.as_str()))?;
            let filter = SchemableFilter::try_from((filter, schema.as_ref()))?;
            and_filters.push(filter);
        }

        if and_filters.is_empty() {
            return Ok(None);
        }
""", """        let end = self
            .hudi_configs
            .try_get(HudiReadConfig::FileGroupEndTimestamp)
            .map(|v| v.to::<String>());
        if let Some(end) = end {
            // timestamps may come without milliseconds
            let op = if end.len() < 17 { "<" } else { "<=" };
            let filter = Filter::try_from((MetaField::CommitTime.as_ref(), op, end.as_str()))?;
            let filter = SchemableFilter::try_from((filter, schema.as_ref()))?;
            and_filters.push(filter);
        }
""")],
 demo='''
A, B = "20240101000000", "20240102000000"
t = Tbl()
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1)])])
t.commit(B, "commit", [t.base("f2-0", B, [dict(id="b", ts=1)])])
h = t.open()
eq(rows(h.read_incremental_records(A), "id"), [("b",)])
eq(rows(h.read_incremental_records("20231231000000", A), "id"), [("a",)])
''',
 needs="instants without milliseconds and a window that ends at one of them",
 breaks="On timelines with instants of second granularity, records of the commit at the window's end are left out.")

