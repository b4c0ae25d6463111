#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
T = "crates/core/src/"
prop("C01", "A snapshot read returns exactly the latest committed records",
 "For every table history, a snapshot read returns, for each record key, exactly the row its latest completed write left, with the values, nulls and column types that were written: nothing lost, duplicated, stale or invented. Rows of failed, ongoing or rolled back writes, and of files that later writes replaced or superseded, never show. Copy-on-write and merge-on-read tables with the same history give the same rows.",
 ["histories", "configurations", "inputs"],
 "every sequence of inserts, upserts, deletes, compactions, clusterings, overwrites, rollbacks, cleans and failed writes, over every supported table type, partitioning, key layout and data type",
 "The tests read a handful of fixed sample tables; which slice, log files and row versions are visible depends on the whole history.",
 [T+"table/mod.rs", T+"table/fs_view.rs", T+"table/listing.rs", T+"file_group/mod.rs", T+"file_group/reader.rs", T+"timeline/mod.rs"],
 [("file slices as of the latest commit", T+"table/mod.rs get_file_slices_internal"), ("slice selection", T+"file_group/mod.rs get_file_slice_as_of"), ("slice reading and merging", T+"file_group/reader.rs read_file_slice")],
 ["Table::read_snapshot"])
prop("C02", "Time travel shows the table exactly as it was at the requested time",
 "A read as of a timestamp returns what a snapshot read returned when the last write at or before that timestamp had just completed, whatever was written later. A write made exactly at the timestamp is included, a later one is not, whether it added files, log data, or replaced files.",
 ["histories", "inputs"],
 "every history and every timestamp: that of a commit, between commits, before the first, after the last, with second or millisecond precision",
 "The tests travel to two or three instants of fixed tables; boundaries, compactions and replacements around the instant are not sampled.",
 [T+"table/mod.rs", T+"file_group/mod.rs", T+"timeline/selector.rs", T+"file_group/reader.rs"],
 [("greatest slice not after the timestamp", T+"file_group/mod.rs get_file_slice_as_of"), ("log blocks up to the timestamp", T+"timeline/selector.rs InstantRange::up_to"), ("replaced file groups as of the timestamp", T+"timeline/mod.rs get_replaced_file_groups_as_of")],
 ["Table::read_snapshot_as_of"])
prop("C03", "Incremental reads return exactly the records written in the window",
 "An incremental read over a window (start exclusive, end inclusive, end defaulting to the latest commit) returns, for each record inserted or updated by a completed write inside the window, its latest state within the window, once; and no record whose last write lies outside the window. Rows carried over unchanged into a rewritten file are not returned.",
 ["histories", "inputs"],
 "every history and every window, with bounds on, between, before and after the commits",
 "The tests use a few windows of fixed tables.",
 [T+"table/mod.rs", T+"timeline/mod.rs", T+"file_group/builder.rs", T+"file_group/reader.rs"],
 [("file groups written in the window", T+"timeline/mod.rs get_file_groups_between"), ("commit time filters", T+"file_group/reader.rs create_filtering_mask_for_base_file_records"), ("log blocks in the window", T+"timeline/selector.rs InstantRange::within_open_closed")],
 ["Table::read_incremental_records"])
prop("C04", "Replaced file groups vanish at their replacement and not before",
 "A file group replaced by clustering, insert overwrite or partition deletion is invisible to reads at or after the instant that replaced it and fully visible to reads before it; file groups of the same id in other partitions are untouched. A clustering commit never changes the set of records, and the timeline reports as clustering commits exactly the completed replacements made by clustering.",
 ["histories", "inputs"],
 "every history with any number and kind of replacements, over any partitioning, read at any time",
 "The tests cover one insert-overwrite table.",
 [T+"timeline/mod.rs", T+"file_group/builder.rs", T+"file_group/mod.rs", T+"table/fs_view.rs"],
 [("replaced file groups", T+"file_group/builder.rs build_replaced_file_groups"), ("file group identity", T+"file_group/mod.rs Hash and PartialEq"), ("clustering commits", T+"timeline/mod.rs get_completed_clustering_commits")],
 ["Table::read_snapshot_as_of", "Timeline::get_completed_clustering_commits"])
prop("C05", "Partition filters keep exactly the matching partitions",
 "Reading or listing with partition filters returns exactly the rows and file slices of the partitions whose typed partition values satisfy every filter, for every operator, value type, partitioning style and url encoding; a matching partition is never pruned. Values compare by their type, not as text; a null value (the default partition of a column that is not text) satisfies no filter; an invalid filter is an error rather than a wrong answer.",
 ["inputs", "configurations"],
 "every set of partition fields, types and values (special characters included), hive-style or not, encoded or not, and every list of filters",
 "The tests try a few filters on one or two layouts with plain values.",
 [T+"table/partition.rs", T+"table/listing.rs", T+"expr/filter.rs", T+"expr/mod.rs"],
 [("path to typed values", T+"table/partition.rs parse_segments"), ("comparison", T+"expr/filter.rs apply_comparsion"), ("early pruning", T+"table/listing.rs list_relevant_partition_paths")],
 ["Table::read_snapshot", "Table::get_file_slices", "PartitionPruner::should_include"])
prop("C06", "File slice splits partition the file slices exactly",
 "Splitting the file slices of a table into n parts gives at most n non-empty parts (n of zero counts as one) of balanced bounded size that together contain every file slice of the unsplit listing exactly once, for the same time and filters. Reading all splits yields the same rows as the snapshot read.",
 ["inputs", "histories"],
 "every table, time, filter and n from zero to far more than the number of slices",
 "The tests split fixed tables of a few slices with one or two values of n.",
 [T+"table/mod.rs"], [("chunking", T+"table/mod.rs get_file_slices_splits_internal")],
 ["Table::get_file_slices_splits", "Table::get_file_slices_splits_as_of"])
prop("C07", "Record merging keeps one winner per key, by ordering value then commit",
 "Merging batches of versions of records returns, under the overwrite-with-latest strategy, exactly one row per record key: the complete version with the greatest ordering value, the later commit sequence winning ties; under append-only it returns every row. The result does not depend on how the rows are split into batches or on their order, no column or null is altered, and inputs that cannot be merged give an error.",
 ["inputs", "configurations"],
 "every multiset of row versions, ordering value types with nulls and extremes, batchings and orders, and both strategies",
 "The tests merge two or three tiny batches of integers.",
 [T+"merge/record_merger.rs", T+"util/arrow.rs", T+"file_group/reader.rs"],
 [("sorting and deduplication", T+"merge/record_merger.rs merge_record_batches"), ("indices", T+"util/arrow.rs lexsort_to_indices"), ("key to winner", T+"merge/record_merger.rs")],
 ["RecordMerger::merge_record_batches", "FileGroupReader::read_file_slice_from_paths"])
prop("C08", "Log data is visible exactly when its write is committed, in range, not undone",
 "Reading a file slice merges exactly those log blocks whose instant is a completed write within the requested range and is not targeted by a rollback block of the slice, wherever the rollback block sits among the slice's log files. The order in which the log files are given or listed, the number of log files, and the batch in which a writer split its data do not matter.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of log appends, failed writes and rollbacks, every time range, and every distribution of blocks over log files, beyond nine versions included",
 "The tests read a couple of fixed log files and one with a single rollback.",
 [T+"file_group/log_file/scanner.rs", T+"file_group/log_file/reader.rs", T+"file_group/file_slice.rs", T+"file_group/log_file/mod.rs"],
 [("rollback targets", T+"file_group/log_file/scanner.rs scan"), ("instant range", T+"file_group/log_file/reader.rs read_all_blocks"), ("log order", T+"file_group/log_file/mod.rs Ord")],
 ["Table::read_snapshot_as_of", "FileGroupReader::read_file_slice_from_paths"])
prop("C09", "Log blocks decode to exactly what was written",
 "Any well-formed log file, with any number of data and command blocks in any supported format and version, with any header and footer, decodes to the blocks in order with their exact type, metadata and rows; empty files give no blocks. Parquet and avro data blocks carrying the same rows decode to equal rows.",
 ["inputs"],
 "every sequence of blocks, block types, versions, headers, footers, row counts, schemas and values",
 "The tests decode a few committed log files.",
 [T+"file_group/log_file/reader.rs", T+"file_group/log_file/content.rs", T+"file_group/log_file/log_block.rs", T+"file_group/log_file/log_format.rs", T+"file_group/log_file/avro.rs"],
 [("block framing", T+"file_group/log_file/reader.rs read_next_block"), ("content decoding", T+"file_group/log_file/content.rs Decoder")],
 ["LogFileReader::read_all_blocks"])
prop("C10", "Damaged or hostile input yields an error or data, never a crash or a hang",
 "Opening, listing and reading a table any of whose files (properties, timeline entries, commit metadata, log files, base files, file names) is truncated, corrupted or arbitrary returns either a result or an error in bounded time and memory; it never panics, aborts or loops. A log file cut inside a block's contents is an error and never silently fewer rows.",
 ["inputs", "fault_sequences", "crash_points"],
 "every truncation point and every mutation of every kind of file the reader consumes, and arbitrary user-supplied strings for timestamps, filters and options",
 "The tests have a few malformed literals.",
 [T+"file_group/log_file/reader.rs", T+"file_group/log_file/content.rs", T+"timeline/instant.rs", T+"config/mod.rs", T+"file_group/builder.rs", T+"avro_to_arrow/arrow_array_reader.rs"],
 [("length and magic checks", T+"file_group/log_file/reader.rs"), ("metadata parsing", T+"file_group/builder.rs"), ("option parsing", T+"config/table.rs parse_value")],
 ["Table::new", "Table::read_snapshot", "LogFileReader::read_all_blocks"])
prop("C11", "Data file names parse, print and group consistently",
 "Every well-formed base and log file name parses into the file id, write token, instant, version and suffix it was made from and prints back to the same name; any other name is rejected. Files are grouped into file groups by file id and into slices by base instant whatever order they are listed in, log files are ordered by version numerically, and a slice as of a time is the newest one not after it.",
 ["inputs", "schedules"],
 "every file id, token, instant, version and suffix, every near-miss name, and every listing order of any set of files",
 "The tests parse a handful of names and add files in one order.",
 [T+"file_group/base_file.rs", T+"file_group/log_file/mod.rs", T+"file_group/mod.rs", T+"file_group/file_slice.rs"],
 [("parsing", T+"file_group/base_file.rs parse_file_name, "+T+"file_group/log_file/mod.rs FromStr"), ("grouping", T+"file_group/mod.rs add_base_file, add_log_file"), ("order", T+"file_group/log_file/mod.rs Ord")],
 ["BaseFile", "LogFile", "FileGroup"])
prop("C12", "The timeline lists exactly the right instants, in time order",
 "The timeline of a table consists of exactly the completed write actions present in its metadata directory, each once, in ascending time order, whatever else the directory holds; each getter returns exactly the instants of its action in the requested direction, and the latest commit timestamp is that of the last completed write. An instant parses from and prints to its file name, and its time is its timestamp interpreted in the table's timezone.",
 ["histories", "inputs", "configurations"],
 "every set of timeline files: all actions and states, timestamps of both precisions, stray files, both timezones, and every daylight-saving boundary",
 "The tests list a few fixed timelines, in UTC.",
 [T+"timeline/mod.rs", T+"timeline/instant.rs", T+"timeline/selector.rs"],
 [("instant parsing", T+"timeline/instant.rs"), ("loading and sorting", T+"timeline/mod.rs load_instants"), ("selection", T+"timeline/selector.rs try_create_instant")],
 ["Timeline", "Instant"])
prop("C13", "Configuration resolves by precedence and parses faithfully",
 "Every option takes its value from the table's own properties (hoodie.properties) when it is there, else from the user's explicit options, else from the user's generic options, else from the global configuration, else from the documented default; storage options take explicit over generic over environment values; typed values parse to what the text says and unparsable or unsupported ones are rejected when the table is opened, unless validation is skipped. Every option given by the user reaches the table's configuration or storage options unchanged, whichever way it was supplied.",
 ["configurations", "inputs"],
 "every combination of sources, keys, values, comments, separators, blank and duplicate lines, and environment variables",
 "The tests check a few keys in a few combinations.",
 [T+"table/builder.rs", T+"config/mod.rs", T+"config/table.rs", T+"config/read.rs", T+"config/internal.rs", T+"config/util.rs"],
 [("resolution", T+"table/builder.rs resolve_options"), ("properties parsing", T+"config/util.rs parse_data_for_options"), ("typed parsing", T+"config/table.rs parse_value"), ("validation", T+"table/builder.rs validate_configs")],
 ["Table::hudi_options", "Table::storage_options", "HudiConfigs"])
prop("C14", "A read-optimized read returns exactly the base files' contents",
 "With read-optimized mode on, reading a merge-on-read table returns exactly the rows of the latest completed base file of each live file group and nothing from log files; on tables without log data it equals the normal read. The mode can be given per table or per reader with the same effect.",
 ["histories", "configurations"],
 "every merge-on-read history, at every time",
 "The tests read one table in this mode.",
 [T+"file_group/reader.rs", T+"config/read.rs", T+"table/mod.rs"],
 [("base-file-only decision", T+"file_group/reader.rs read_file_slice")],
 ["Table::read_snapshot", "FileGroupReader::read_file_slice"])
prop("C15", "SQL through DataFusion equals the same query over the table's rows",
 "Any SQL query over a registered table returns what the same query returns over an in-memory copy of the rows the table provider is meant to expose; filter pushdown and partition pruning, splits, projections, limits and session settings never change an answer. That holds for tables registered through the provider or CREATE EXTERNAL TABLE with any options for the store, on local or remote storage; when requests to the store fail, a query is an error or returns the same rows. The provider's schema is the table's schema.",
 ["programs", "histories", "configurations"],
 "every table, predicate (operators, literals on either side, conjunctions, disjunctions, negations, nulls, any column), projection and limit",
 "The tests run two or three queries over sample tables.",
 ["crates/datafusion/src/lib.rs", T+"table/partition.rs", T+"expr/filter.rs"],
 [("filter conversion", "crates/datafusion/src/lib.rs exprs_to_filters, binary_expr_to_filter"), ("scan", "crates/datafusion/src/lib.rs scan"), ("pushdown", "crates/datafusion/src/lib.rs supports_filters_pushdown")],
 ["HudiDataSource", "HudiTableFactory"])
prop("C16", "The Python API gives the same answers as the Rust API",
 "For every table and argument, each Python method returns the same rows, schema, file slices, instants, options and paths as its Rust counterpart, including defaults for omitted arguments; every failure raises a Python exception and never ends the process.",
 ["inputs", "histories", "configurations"],
 "every table and every combination of arguments of the Python classes",
 "The Python tests call each method once or twice on one sample table.",
 ["python/src/internal.rs", "python/src/lib.rs", "python/hudi/table/builder.py"],
 [("bindings", "python/src/internal.rs HudiTable"), ("builder", "python/hudi/table/builder.py")],
 ["hudi.HudiTable", "hudi.HudiTableBuilder", "hudi.HudiFileGroupReader"])
prop("C17", "File slices changed in a window match the files on storage",
 "Listing the file slices changed in a time window returns, exactly once each, the file groups written by a completed commit inside the window, each with the newest base file at or before the end and with the log files recorded for it, and none that was replaced by then. Each returned base file and log file path exists on storage and belongs to that file group and partition.",
 ["histories", "inputs"],
 "every history and window",
 "The tests check a few windows of one table.",
 [T+"table/mod.rs", T+"timeline/mod.rs", T+"file_group/builder.rs", T+"file_group/file_slice.rs"],
 [("from commit metadata", T+"file_group/builder.rs build_file_groups"), ("merging", T+"file_group/builder.rs FileGroupMerger"), ("window", T+"timeline/mod.rs get_file_groups_between")],
 ["Table::get_file_slices_between"])
prop("C18", "Avro records convert to Arrow without changing values or nulls",
 "Rows stored in avro log blocks reach the user with the same values and nulls as if stored in parquet, for every type the conversion accepts, in nullable and required position and at any nesting; a type or value that is not supported is an error, never a wrong value.",
 ["inputs"],
 "every avro schema within the supported types and every sequence of records, with nulls in any place and extreme values",
 "The tests convert one schema and a few arrays.",
 [T+"avro_to_arrow/arrow_array_reader.rs", T+"avro_to_arrow/schema.rs", T+"file_group/log_file/avro.rs", T+"file_group/log_file/content.rs"],
 [("schema conversion", T+"avro_to_arrow/schema.rs"), ("array building", T+"avro_to_arrow/arrow_array_reader.rs"), ("content decoding", T+"file_group/log_file/content.rs")],
 ["LogFileReader", "Table::read_snapshot"])
prop("C19", "The reported table schema describes the table's data",
 "The table schema equals, in names, types and order, that of the rows that reads return, whatever kind of commit came last (deltacommits, replacements, commits without files, compactions), and the avro schema is the latest one committed. The partition schema lists exactly the partition fields in their configured order with their types; a table without partition fields has none.",
 ["histories", "configurations"],
 "every history ending in any kind of commit, every column layout and partitioning",
 "The tests read the schema of a few tables after one kind of commit.",
 [T+"timeline/mod.rs", T+"table/mod.rs", T+"storage/mod.rs", T+"avro_to_arrow/schema.rs"],
 [("schema resolution", T+"timeline/mod.rs get_latest_schema, get_latest_avro_schema"), ("partition schema", T+"table/mod.rs get_partition_schema")],
 ["Table::get_schema", "Table::get_avro_schema", "Table::get_partition_schema"])
prop("C20", "Storage resolves every path under the table base and reports true metadata",
 "Whatever characters the base path, directories and file names contain, storage lists exactly the files and directories present, at the requested level only, reads back their exact bytes, and reports true names, sizes and row counts; the table lists exactly its data files whatever other files and metadata directories lie beside them. Equivalent spellings of a location give the same table.",
 ["inputs", "configurations"],
 "every directory tree and name, trailing slashes, relative and absolute paths and file URIs, and foreign files beside the data",
 "The tests list one fixed tree with plain names.",
 [T+"storage/mod.rs", T+"storage/util.rs", T+"table/listing.rs", T+"storage/file_metadata.rs"],
 [("URI handling", T+"storage/util.rs parse_uri, join_url_segments"), ("listing", T+"storage/mod.rs list_dirs, list_files, get_leaf_dirs"), ("footers", T+"storage/mod.rs get_parquet_file_metadata")],
 ["Storage", "Table::get_file_slices"])
prop("C21", "An opened table is a stable snapshot under concurrent use and writes",
 "A table opened once keeps answering from the timeline it was opened with, while writers add commits, files and log data to the same table; repeated reads give the same rows. Any number of concurrent reads, listings and schema calls on shared handles, on single- and multi-threaded runtimes and at any listing parallelism, terminate with the same answers as when made alone.",
 ["schedules", "histories", "configurations"],
 "every interleaving of reads with each other and with writes of further history, every runtime flavour and listing parallelism",
 "The tests make one call at a time on a quiescent table.",
 [T+"table/fs_view.rs", T+"table/mod.rs", T+"table/listing.rs", T+"timeline/mod.rs", T+"file_group/reader.rs"],
 [("shared file system view", T+"table/fs_view.rs partition_to_file_groups"), ("loaded timeline", T+"timeline/mod.rs completed_commits")],
 ["Table"])
prop("C22", "Remote storage answers like local files; failed requests never give wrong data",
 "A table on object storage reached over the network answers every call (reads, file slices, instants, schemas, options) exactly as the same files on a local file system, wherever in the bucket it is and however the store pages its listings; the options given for the store take effect, in lower or upper case, for a table and for a file group reader, and the global configs come from the machine. When requests to the store fail, are refused, dropped or cut short, once or persistently, at any point, a call returns exactly the answer it would have given, or an error; it never returns fewer or other rows, file slices or instants, never panics and never hangs.",
 ["histories", "configurations", "fault_sequences"],
 "every table history, bucket prefix, page size and way to give options; every fault on every request a call makes",
 "The tests read local files only, and no request of theirs fails.",
 ["crates/core/src/storage/mod.rs", "crates/core/src/table/builder.rs", "crates/core/src/timeline/mod.rs", "crates/core/src/table/fs_view.rs", "crates/core/src/table/listing.rs", "crates/core/src/file_group/reader.rs"],
 [("object store creation and access", "crates/core/src/storage/mod.rs Storage::new, get_file_data, list_files, list_dirs"), ("options", "crates/core/src/table/builder.rs resolve_options")],
 ["Table", "Storage", "TableBuilder"])
prop("C23", "A write in progress or cut off by a crash shows nothing until it is complete",
 "At every point of a write, compaction, clustering, replacement, rollback or clean (between any two of its changes to timeline files, markers, data files and log files, with a data file only partly there, and while other writers complete writes of their own), a table opened then answers as if only the operations complete by then had happened: the same instants, rows, file slices, past states, increments and schema. This holds for good when the writer stops there. A table being opened while operations complete answers, in all its calls, for one single state among those it went through, and a table opened before keeps its state.",
 ["crash_points", "schedules", "histories"],
 "every history and every point in the steps of its last operations, every order of a writer's data files, every interleaving of two writers, and of writers with a reader's requests",
 "The tests read tables on which no write is going on.",
 [T+"timeline/mod.rs", T+"table/fs_view.rs", T+"table/listing.rs", T+"table/builder.rs", T+"file_group/log_file/scanner.rs", T+"timeline/instant.rs"],
 [("completed and pending instants", T+"timeline/mod.rs Timeline::new_from_storage, get_active_commits"), ("hiding of uncommitted files", T+"table/fs_view.rs remove_uncommitted_file_slices"), ("hiding of uncommitted blocks", T+"file_group/log_file/scanner.rs is_committed")],
 ["Table"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
