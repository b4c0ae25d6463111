C = "crates/core/src/"
PS = 'schema=pa.schema([("id", pa.string()), ("ts", pa.int64()), ("p", pa.string())])'

seed("c23-late-replacement", "C23",
 [(C+"timeline/mod.rs", """        for instant in selector.select(self)? {
            let commit_metadata = self.get_instant_metadata(&instant).await?;
            file_groups.extend(build_replaced_file_groups(&commit_metadata)?);
        }

        // TODO""", """        // the loading selector treats the end as exclusive, hence checking the end here
        let end = Instant::parse_datetime(timestamp, &selector_timezone(&self.hudi_configs))?;
        for instant in self.get_completed_replacecommits(false).await? {
            if instant.epoch_millis > end.timestamp_millis() {
                break;
            }
            let commit_metadata = self.get_instant_metadata(&instant).await?;
            file_groups.extend(build_replaced_file_groups(&commit_metadata)?);
        }

        // TODO"""),
  (C+"timeline/mod.rs", """        let selector = TimelineSelector::completed_replacecommits_in_range(
            self.hudi_configs.clone(),
            None,
            Some(timestamp),
        )?;
        // the""", "        // the"),
  (C+"timeline/mod.rs", "impl Timeline {\n    #[cfg(test)]", """fn selector_timezone(hudi_configs: &HudiConfigs) -> String {
    hudi_configs
        .get_or_default(HudiTableConfig::TimelineTimezone)
        .to::<String>()
}

impl Timeline {
    #[cfg(test)]""")],
 demo='''
A, B, D = "20240101000000000", "20240102000000000", "20240103000000000"
t = Tbl()
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1)])])
t.commit(B, "replacecommit", [], completed=False)
t.commit(D, "commit", [t.base("f2-0", D, [dict(id="b", ts=1)])])
h = t.open()
eq(rows(h.read_snapshot(), "id"), [("a",), ("b",)])
t.commit(B, "replacecommit", [t.base("f3-0", B, [dict(id="c", ts=1)])], {"": ["f1-0"]}, requested=False)
eq(rows(h.read_snapshot(), "id"), [("a",), ("b",)])
eq(rows(t.open().read_snapshot(), "id"), [("b",), ("c",)])
''',
 needs="a table opened while a replacement is in progress, which completes later, with a later commit completed before",
 breaks="The opened table loses the replaced file groups as soon as the replacement completes.")

seed("c13-unvalidated-read-options", "C13",
 [(C+"table/builder.rs", """        for conf in HudiReadConfig::iter() {
            hudi_configs.validate(conf)?
        }
""", """        for conf in HudiReadConfig::iter() {
            if !matches!(conf, HudiReadConfig::UseReadOptimizedMode) {
                hudi_configs.validate(conf)?
            }
        }
""")],
 demo='''
A = "20240101000000000"
t = Tbl()
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1)])])
K = "hoodie.read.use.read_optimized.mode"
eq(rows(t.open(**{K: "true"}).read_snapshot(), "id"), [("a",)])
try:
    t.open(**{K: "yes"})
except Exception:
    pass
else:
    raise AssertionError("invalid option accepted")
''',
 needs="an option for the read-optimized mode that is no boolean",
 breaks="An unparsable read-optimized option is accepted, and taken for false.")

seed("c06-single-split-latest", "C06",
 [(C+"table/mod.rs", """        let filters = from_str_tuples(filters)?;
        self.get_file_slices_splits_internal(n, timestamp, &filters)
            .await
    }
""", """        if n > 1 {
            let filters = from_str_tuples(filters)?;
            return self
                .get_file_slices_splits_internal(n, timestamp, &filters)
                .await;
        }
        // no need for chunks
        let file_slices = self.get_file_slices(filters).await?;
        Ok(if file_slices.is_empty() {
            Vec::new()
        } else {
            vec![file_slices]
        })
    }
""")],
 demo='''
A, B = "20240101000000000", "20240102000000000"
t = Tbl()
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1)])])
t.commit(B, "commit", [t.base("f2-0", B, [dict(id="b", ts=1)])])
h = t.open()
ids = lambda s: sorted(f.file_id for c in s for f in c)
eq(ids(h.get_file_slices_splits_as_of(2, A)), ["f1-0"])
eq(ids(h.get_file_slices_splits_as_of(1, B)), ["f1-0", "f2-0"])
eq(ids(h.get_file_slices_splits_as_of(1, A)), ["f1-0"])
''',
 needs="file slices of a past time asked for as a single split",
 breaks="A single split of the file slices as of a time contains the latest ones.")

seed("c20-trimmed-segments", "C20",
 [(C+"storage/util.rs", "seg.split('/').filter(|&s| !s.is_empty()).collect();", "seg.split('/').map(str::trim).filter(|&s| !s.is_empty()).collect();")],
 demo=f'''
A = "20240101000000000"
t = Tbl(parts=["p"], {PS})
t.commit(A, "commit", [t.base("f1-0", A, [dict(id="a", ts=1, p="x ")], part="p=x "), t.base("f2-0", A, [dict(id="b", ts=1, p="y z")], part="p=y z")])
eq(rows(t.open().read_snapshot(), "id"), [("a",), ("b",)])
''',
 needs="a directory or file whose name starts or ends with a space",
 breaks="Files in directories whose names start or end with a space are not found.")

seed("c16-splits-as-of-filters", "C16",
 [("python/src/internal.rs", """                    self.inner
                        .get_file_slices_splits_as_of(n, timestamp, &filters.as_strs()),""", """                    self.inner.get_file_slices_splits_as_of(
                        n,
                        timestamp,
                        &filters.as_strs()[..filters.len().min(1)],
                    ),""")],
 demo=f'''
A = "20240101000000000"
t = Tbl(parts=["p"], {PS})
t.commit(A, "commit", [t.base(f"f{{k}}-0", A, [dict(id=k, ts=1, p=k)], part=f"p={{k}}") for k in "abc"])
h = t.open()
ids = lambda s: sorted(f.file_id for c in s for f in c)
eq(ids(h.get_file_slices_splits_as_of(2, A, [("p", ">", "a")])), ["fb-0", "fc-0"])
eq(ids(h.get_file_slices_splits_as_of(2, A, [("p", ">", "a"), ("p", "<", "c")])), ["fb-0"])
''',
 needs="splits as of a time with two or more filters, from Python",
 breaks="The Python API uses only the first of the filters for splits as of a time.")

seed("c02-replaced-in-log", "C02",
 [(C+"file_group/reader.rs", "            .try_get(HudiReadConfig::FileGroupEndTimestamp)\n            .map(|v| v.to::<String>());\n        InstantRange",
   """            .try_get(HudiReadConfig::FileGroupEndTimestamp)
            .map(|v| {
                // the times of blocks have the granularity of seconds in old tables
                let end_timestamp = v.to::<String>();
                match end_timestamp.strip_suffix("000") {
                    Some(seconds) if end_timestamp.len() == 17 => format!("{seconds}999"),
                    _ => end_timestamp,
                }
            });
        InstantRange""")],
 demo='''
A, B = "20240101000000000", "20240101000000500"
t = Tbl(mor=True)
t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="a", ts=1, v="old")])])
t.commit(B, "deltacommit", [t.log("f1-0", A, B, [t.data_block(B, [dict(id="a", ts=2, v="new")])])])
h = t.open()
eq(rows(h.read_snapshot(), "id", "v"), [("a", "new")])
eq(rows(h.read_snapshot_as_of(A), "id", "v"), [("a", "old")])
''',
 needs="time travel to a whole second, with log data written later in that second",
 breaks="Log data written later in the second of the requested time are visible.")

seed("c14-read-optimized-uncommitted-end", "C14",
 [(C+"file_group/reader.rs", "        let base_file_only = !file_slice.has_log_file()\n            || self", "        let windowed = self\n            .hudi_configs\n            .contains(HudiReadConfig::FileGroupStartTimestamp);\n        let base_file_only = !file_slice.has_log_file()\n            || !windowed && self")],
 demo='''
A, B = "20240101000000000", "20240102000000000"
t = Tbl(mor=True)
t.commit(A, "deltacommit", [t.base("f1-0", A, [dict(id="a", ts=1, v="old")])])
t.commit(B, "deltacommit", [t.log("f1-0", A, B, [t.data_block(B, [dict(id="a", ts=2, v="new")])])])
K = "hoodie.read.use.read_optimized.mode"
h = t.open(**{K: "true"})
eq(rows(h.read_snapshot(), "id", "v"), [("a", "old")])
eq(rows(h.read_incremental_records("20231231000000000"), "id", "v"), [("a", "old")])
''',
 needs="an incremental read of a merge-on-read table in read-optimized mode",
 breaks="Incremental reads in read-optimized mode return log data.")
