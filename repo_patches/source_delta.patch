From da6e9e91f468ae7e04b8b93c9f08c4044a12c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:27 +0000
Subject: [PATCH 01/48] fix: recognise clustering commits written by Hudi
 (operationType CLUSTER)

---
 crates/core/src/timeline/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index ac78903..2ece90c 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -188,7 +188,7 @@ impl Timeline {
                 .ok_or_else(|| {
                     CoreError::CommitMetadata("Failed to get operation type".to_string())
                 })?;
-            if op_type == "cluster" {
+            if op_type.eq_ignore_ascii_case("cluster") {
                 clustering_instants.push(instant);
             }
         }
-- 
2.43.0


From 20b7dce04f2b7bdeef18cf8af342e1eaf8123003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 02/48] fix: return an error instead of panicking on malformed
 instant timestamps

---
 crates/core/src/timeline/instant.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index e3e191e..758a431 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -163,6 +163,12 @@ impl Instant {
     }
 
     fn parse_naive_datetime(timestamp: &str) -> Result<NaiveDateTime> {
+        if !timestamp.is_char_boundary(14) {
+            return Err(CoreError::Timeline(format!(
+                "Failed to parse timestamp: {}",
+                timestamp
+            )));
+        }
         let naive_dt = NaiveDateTime::parse_from_str(&timestamp[..14], "%Y%m%d%H%M%S")
             .map_err(|e| CoreError::Timeline(format!("Failed to parse timestamp: {}", e)))?;
 
-- 
2.43.0


From 8d2606f81d0a583536f8d4c35792effa47d7f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 03/48] fix: do not drop instants at ambiguous local times

---
 crates/core/src/timeline/instant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 758a431..ea87ec3 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -189,7 +189,7 @@ impl Instant {
             TimelineTimezoneValue::UTC => Ok(DateTime::from_naive_utc_and_offset(naive_dt, Utc)),
             TimelineTimezoneValue::Local => Ok(Local
                 .from_local_datetime(&naive_dt)
-                .single()
+                .earliest() // resolve ambiguous times, e.g., when daylight saving time ends
                 .ok_or_else(|| CoreError::Timeline("Invalid local datetime".to_string()))?
                 .to_utc()),
         }
-- 
2.43.0


From e13bcd2b03979fe302ad6c798c9b75fd9c23164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 04/48] fix: merge all write stats of a file group within a
 commit

---
 crates/core/src/file_group/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/file_group/builder.rs b/crates/core/src/file_group/builder.rs
index 9f2d0c3..84df606 100644
--- a/crates/core/src/file_group/builder.rs
+++ b/crates/core/src/file_group/builder.rs
@@ -54,7 +54,7 @@ pub fn build_file_groups(commit_metadata: &Map<String, Value>) -> Result<HashSet
             CoreError::CommitMetadata("Invalid or missing partitionToWriteStats object".into())
         })?;
 
-    let mut file_groups = HashSet::new();
+    let mut file_groups: HashSet<FileGroup> = HashSet::new();
 
     for (partition, write_stats_array) in partition_stats {
         let write_stats = write_stats_array
@@ -103,7 +103,7 @@ pub fn build_file_groups(commit_metadata: &Map<String, Value>) -> Result<HashSet
                 file_group.add_base_file_from_name(file_name)?;
             }
 
-            file_groups.insert(file_group);
+            file_groups.merge([file_group])?;
         }
     }
 
-- 
2.43.0


From 8357949be9b8dbcff80576d0c6557bd046f7498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 05/48] fix: apply rollback blocks of log files written after
 the query end time

---
 crates/core/src/file_group/log_file/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 901ebfe..00539c0 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -236,7 +236,8 @@ impl<R: Read + Seek> LogFileReader<R> {
         let block_type = self.read_block_type(&format_version)?;
         let header = self.read_block_metadata(BlockMetadataType::Header, &format_version)?;
         let mut skipped = false;
-        if self.should_skip_block(&header, instant_range)? {
+        // Command blocks always apply: a rollback can be done later than the queried range.
+        if block_type != BlockType::Command && self.should_skip_block(&header, instant_range)? {
             skipped = true;
             // TODO skip reading block
         }
-- 
2.43.0


From 6d667160fbf9729afe89c01ca763c1798dc9a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 06/48] fix: default hive-style and url-encoded partitioning to
 false when not configured

---
 crates/core/src/table/partition.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index 307b428..7b3656c 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -70,11 +70,13 @@ impl PartitionPruner {
 
         let schema = Arc::new(partition_schema.clone());
         let is_hive_style: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsHiveStylePartitioning)
-            .to();
+            .try_get(HudiTableConfig::IsHiveStylePartitioning)
+            .map(|v| v.to())
+            .unwrap_or(false);
         let is_url_encoded: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsPartitionPathUrlencoded)
-            .to();
+            .try_get(HudiTableConfig::IsPartitionPathUrlencoded)
+            .map(|v| v.to())
+            .unwrap_or(false);
         Ok(PartitionPruner {
             schema,
             is_hive_style,
-- 
2.43.0


From 34c7b3220844515a8ca3cd28254cb545d50c97db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 07/48] fix: match partition path segments in the order of the
 partition fields

---
 crates/core/src/table/mod.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index e47ff9b..f28c4c1 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -105,7 +105,7 @@ use crate::Result;
 use crate::config::read::HudiReadConfig;
 use arrow::record_batch::RecordBatch;
 use arrow_schema::{Field, Schema};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
@@ -205,18 +205,16 @@ impl Table {
 
     /// Get the latest partition [arrow_schema::Schema] of the table.
     pub async fn get_partition_schema(&self) -> Result<Schema> {
-        let partition_fields: HashSet<String> = self
+        let partition_fields: Vec<String> = self
             .hudi_configs
             .get_or_default(PartitionFields)
-            .to::<Vec<String>>()
-            .into_iter()
-            .collect();
+            .to::<Vec<String>>();
 
         let schema = self.get_schema().await?;
-        let partition_fields: Vec<Arc<Field>> = schema
-            .fields()
+        // Follow the order of the partition fields, as it is that of the partition path's segments.
+        let partition_fields: Vec<Arc<Field>> = partition_fields
             .iter()
-            .filter(|field| partition_fields.contains(field.name()))
+            .filter_map(|name| schema.fields().find(name).map(|(_, field)| field))
             .cloned()
             .collect();
 
-- 
2.43.0


From bcae28adf8832d5707de2123a177fb68a1510bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 08/48] fix: decode url-encoded partition values after
 splitting the path

---
 crates/core/src/table/partition.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index 7b3656c..a192906 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -121,15 +121,24 @@ impl PartitionPruner {
     }
 
     fn parse_segments(&self, partition_path: &str) -> Result<HashMap<String, Scalar<ArrayRef>>> {
-        let partition_path = if self.is_url_encoded {
-            percent_encoding::percent_decode(partition_path.as_bytes())
-                .decode_utf8()?
-                .into_owned()
-        } else {
-            partition_path.to_string()
+        let decode = |s: &str| -> Result<String> {
+            if self.is_url_encoded {
+                let decoded = percent_encoding::percent_decode(s.as_bytes()).decode_utf8()?;
+                Ok(decoded.into_owned())
+            } else {
+                Ok(s.to_string())
+            }
         };
 
-        let parts: Vec<&str> = partition_path.split('/').collect();
+        let mut parts = partition_path
+            .split('/')
+            .map(decode)
+            .collect::<Result<Vec<String>>>()?;
+        if parts.len() != self.schema.fields().len() {
+            // The separators are encoded too, unlike when they are part of the encoded values.
+            let partition_path = decode(partition_path)?;
+            parts = partition_path.split('/').map(String::from).collect();
+        }
 
         if parts.len() != self.schema.fields().len() {
             return Err(InvalidPartitionPath(format!(
@@ -157,7 +166,7 @@ impl PartitionPruner {
                     }
                     value
                 } else {
-                    part
+                    part.as_str()
                 };
                 let scalar = SchemableFilter::cast_value(&[value], field.data_type())?;
                 Ok((field.name().to_string(), scalar))
-- 
2.43.0


From 922cfc243d0d8e6638f914470df8859bdf49123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 09/48] fix: hide the base files and log data of failed and
 ongoing writes

---
 .../core/src/file_group/log_file/scanner.rs   | 17 ++++++++-
 crates/core/src/file_group/reader.rs          | 11 ++++++
 crates/core/src/table/builder.rs              |  5 +--
 crates/core/src/table/fs_view.rs              | 23 +++++++++++-
 crates/core/src/table/mod.rs                  |  5 +--
 crates/core/src/timeline/mod.rs               | 36 +++++++++++++++++++
 crates/core/src/timeline/selector.rs          | 11 ++++++
 7 files changed, 102 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/file_group/log_file/scanner.rs b/crates/core/src/file_group/log_file/scanner.rs
index d6ef227..0b68dfb 100644
--- a/crates/core/src/file_group/log_file/scanner.rs
+++ b/crates/core/src/file_group/log_file/scanner.rs
@@ -21,6 +21,7 @@ use crate::file_group::log_file::log_block::LogBlock;
 use crate::file_group::log_file::reader::LogFileReader;
 use crate::storage::Storage;
 use crate::timeline::selector::InstantRange;
+use crate::timeline::ActiveCommits;
 use crate::Result;
 use arrow_array::RecordBatch;
 use std::collections::HashSet;
@@ -30,6 +31,7 @@ use std::sync::Arc;
 pub struct LogFileScanner {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
+    active_commits: Option<Arc<ActiveCommits>>,
 }
 
 impl LogFileScanner {
@@ -37,6 +39,19 @@ impl LogFileScanner {
         Self {
             hudi_configs,
             storage,
+            active_commits: None,
+        }
+    }
+
+    pub(crate) fn with_active_commits(mut self, commits: Option<Arc<ActiveCommits>>) -> Self {
+        self.active_commits = commits;
+        self
+    }
+
+    fn is_committed(&self, block: &LogBlock) -> Result<bool> {
+        match &self.active_commits {
+            Some(commits) => Ok(commits.is_committed(block.instant_time()?)),
+            None => Ok(true),
         }
     }
 
@@ -70,7 +85,7 @@ impl LogFileScanner {
         let mut record_batches: Vec<Vec<RecordBatch>> = Vec::new();
         for blocks in all_blocks {
             for block in blocks {
-                if !rollback_targets.contains(block.instant_time()?) {
+                if !rollback_targets.contains(block.instant_time()?) && self.is_committed(&block)? {
                     record_batches.push(block.record_batches);
                 }
             }
diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index 69f9cf4..bc13e78 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -28,6 +28,7 @@ use crate::merge::record_merger::RecordMerger;
 use crate::metadata::meta_field::MetaField;
 use crate::storage::Storage;
 use crate::timeline::selector::InstantRange;
+use crate::timeline::ActiveCommits;
 use crate::Result;
 use arrow::compute::and;
 use arrow::compute::filter_record_batch;
@@ -41,6 +42,7 @@ use std::sync::Arc;
 pub struct FileGroupReader {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
+    active_commits: Option<Arc<ActiveCommits>>,
 }
 
 impl FileGroupReader {
@@ -63,9 +65,17 @@ impl FileGroupReader {
         Ok(Self {
             hudi_configs,
             storage,
+            active_commits: None,
         })
     }
 
+    /// Skip the log data that were not written by any of the completed commits,
+    /// i.e., those of failed or ongoing writes.
+    pub(crate) fn with_active_commits(mut self, commits: Option<Arc<ActiveCommits>>) -> Self {
+        self.active_commits = commits;
+        self
+    }
+
     /// Creates a new reader with the given base URI and options.
     ///
     /// # Arguments
@@ -215,6 +225,7 @@ impl FileGroupReader {
             let instant_range = self.create_instant_range_for_log_file_scan();
             let log_record_batches =
                 LogFileScanner::new(self.hudi_configs.clone(), self.storage.clone())
+                    .with_active_commits(self.active_commits.clone())
                     .scan(log_file_paths, &instant_range)
                     .await?;
             for log_record_batch in log_record_batches {
diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 35e805e..c716916 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -117,8 +117,9 @@ impl TableBuilder {
         let timeline =
             Timeline::new_from_storage(hudi_configs.clone(), storage_options.clone()).await?;
 
-        let file_system_view =
-            FileSystemView::new(hudi_configs.clone(), storage_options.clone()).await?;
+        let file_system_view = FileSystemView::new(hudi_configs.clone(), storage_options.clone())
+            .await?
+            .with_active_commits(timeline.get_active_commits().await?);
 
         Ok(Table {
             hudi_configs,
diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index d25389b..1fc4b27 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -27,6 +27,7 @@ use crate::storage::Storage;
 use crate::file_group::file_slice::FileSlice;
 use crate::table::listing::FileLister;
 use crate::table::partition::PartitionPruner;
+use crate::timeline::ActiveCommits;
 use crate::Result;
 use dashmap::DashMap;
 
@@ -38,6 +39,7 @@ pub struct FileSystemView {
     pub(crate) hudi_configs: Arc<HudiConfigs>,
     pub(crate) storage: Arc<Storage>,
     partition_to_file_groups: Arc<DashMap<String, Vec<FileGroup>>>,
+    pub(crate) active_commits: Option<Arc<ActiveCommits>>,
 }
 
 impl FileSystemView {
@@ -51,9 +53,27 @@ impl FileSystemView {
             hudi_configs,
             storage,
             partition_to_file_groups,
+            active_commits: None,
         })
     }
 
+    /// Hide the base files that were not written by any of the completed commits,
+    /// i.e., those of failed or ongoing writes.
+    pub(crate) fn with_active_commits(mut self, commits: Option<Arc<ActiveCommits>>) -> Self {
+        self.active_commits = commits;
+        self
+    }
+
+    fn remove_uncommitted_file_slices(&self, file_groups: &mut [FileGroup]) {
+        if let Some(commits) = &self.active_commits {
+            for fg in file_groups.iter_mut() {
+                // A base file of a pending compaction is kept if log files were added on top of it.
+                fg.file_slices
+                    .retain(|t, fsl| fsl.has_log_file() || commits.is_committed(t));
+            }
+        }
+    }
+
     async fn load_file_groups(&self, partition_pruner: &PartitionPruner) -> Result<()> {
         let lister = FileLister::new(
             self.hudi_configs.clone(),
@@ -61,7 +81,8 @@ impl FileSystemView {
             partition_pruner.to_owned(),
         );
         let file_groups_map = lister.list_file_groups_for_relevant_partitions().await?;
-        for (partition_path, file_groups) in file_groups_map {
+        for (partition_path, mut file_groups) in file_groups_map {
+            self.remove_uncommitted_file_slices(&mut file_groups);
             self.partition_to_file_groups
                 .insert(partition_path, file_groups);
         }
diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index f28c4c1..87ffc35 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -394,10 +394,11 @@ impl Table {
         for (k, v) in options {
             overwriting_options.insert(k.as_ref().to_string(), v.into());
         }
-        FileGroupReader::new_with_configs_and_options(
+        let reader = FileGroupReader::new_with_configs_and_options(
             self.hudi_configs.clone(),
             overwriting_options,
-        )
+        )?;
+        Ok(reader.with_active_commits(self.file_system_view.active_commits.clone()))
     }
 
     /// Get all the latest records in the table.
diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index 2ece90c..080cdf0 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -51,6 +51,26 @@ pub const EARLIEST_START_TIMESTAMP: &str = "19700101000000000";
 pub const DEFAULT_LOADING_ACTIONS: &[Action] =
     &[Action::Commit, Action::DeltaCommit, Action::ReplaceCommit];
 
+/// The commits found in the active timeline, for telling if some data were committed.
+#[derive(Debug)]
+pub(crate) struct ActiveCommits {
+    earliest_completed: String,
+    completed: HashSet<String>,
+    pending: HashSet<String>,
+}
+
+impl ActiveCommits {
+    /// Commits that are earlier than all the completed ones are archived unless they are pending.
+    pub(crate) fn is_committed(&self, timestamp: &str) -> bool {
+        self.completed.contains(timestamp)
+            || (timestamp < self.earliest_completed.as_str() && !self.pending.contains(timestamp))
+    }
+}
+
+fn timestamps_of(instants: &[Instant]) -> HashSet<String> {
+    instants.iter().map(|i| i.timestamp.clone()).collect()
+}
+
 impl Timeline {
     #[cfg(test)]
     pub(crate) async fn new_from_completed_commits(
@@ -195,6 +215,22 @@ impl Timeline {
         Ok(clustering_instants)
     }
 
+    /// Get the [ActiveCommits], or [None] if no commit was completed.
+    pub(crate) async fn get_active_commits(&self) -> Result<Option<Arc<ActiveCommits>>> {
+        let Some(earliest) = self.completed_commits.first() else {
+            return Ok(None);
+        };
+        let selector =
+            TimelineSelector::pending_actions(DEFAULT_LOADING_ACTIONS, self.hudi_configs.clone());
+        // The pending states also remain in the timeline for the completed commits.
+        let pending = Self::load_instants(&selector, &self.storage, false).await?;
+        Ok(Some(Arc::new(ActiveCommits {
+            earliest_completed: earliest.timestamp.clone(),
+            completed: timestamps_of(&self.completed_commits),
+            pending: timestamps_of(&pending),
+        })))
+    }
+
     async fn get_instant_metadata(&self, instant: &Instant) -> Result<Map<String, Value>> {
         let path = instant.relative_path()?;
         let bytes = self.storage.get_file_data(path.as_str()).await?;
diff --git a/crates/core/src/timeline/selector.rs b/crates/core/src/timeline/selector.rs
index 078ff05..fd20bdc 100644
--- a/crates/core/src/timeline/selector.rs
+++ b/crates/core/src/timeline/selector.rs
@@ -177,6 +177,17 @@ impl TimelineSelector {
         })
     }
 
+    pub fn pending_actions(actions: &[Action], hudi_configs: Arc<HudiConfigs>) -> Self {
+        Self {
+            timezone: Self::get_timezone_from_configs(&hudi_configs),
+            start_datetime: None,
+            end_datetime: None,
+            states: vec![State::Requested, State::Inflight],
+            actions: actions.to_vec(),
+            include_archived: false,
+        }
+    }
+
     pub fn completed_commits_in_range(
         hudi_configs: Arc<HudiConfigs>,
         start: Option<&str>,
-- 
2.43.0


From fa58fa6c6f272e877e00316c30de847f648d12ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 10/48] fix: resolve the table schema when the latest commits
 wrote no data file

---
 crates/core/src/timeline/mod.rs | 89 +++++++++++++++++++++++++--------
 1 file changed, 67 insertions(+), 22 deletions(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index 080cdf0..ce2ca3c 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -19,18 +19,24 @@
 pub mod instant;
 pub(crate) mod selector;
 
+use crate::avro_to_arrow::to_arrow_schema;
+use crate::config::table::HudiTableConfig;
 use crate::config::HudiConfigs;
 use crate::error::CoreError;
 use crate::file_group::builder::{build_file_groups, build_replaced_file_groups, FileGroupMerger};
 use crate::file_group::FileGroup;
+use crate::metadata::meta_field::MetaField;
 use crate::metadata::HUDI_METADATA_DIR;
+use crate::storage::error::StorageError;
 use crate::storage::Storage;
 use crate::timeline::instant::Action;
 use crate::timeline::selector::TimelineSelector;
 use crate::Result;
+use apache_avro::Schema as AvroSchema;
 use arrow_schema::Schema;
 use instant::Instant;
 use log::debug;
+use object_store::Error::NotFound;
 use serde_json::{Map, Value};
 use std::collections::{HashMap, HashSet};
 use std::fmt::Debug;
@@ -247,13 +253,6 @@ impl Timeline {
             .map_err(|e| CoreError::Timeline(format!("Failed to get commit metadata: {}", e)))
     }
 
-    async fn get_latest_commit_metadata(&self) -> Result<Map<String, Value>> {
-        match self.completed_commits.iter().next_back() {
-            Some(instant) => self.get_instant_metadata(instant).await,
-            None => Ok(Map::new()),
-        }
-    }
-
     pub(crate) fn get_latest_commit_timestamp_as_option(&self) -> Option<&str> {
         self.completed_commits
             .iter()
@@ -273,26 +272,72 @@ impl Timeline {
 
     /// Get the latest Avro schema string from the [Timeline].
     pub async fn get_latest_avro_schema(&self) -> Result<String> {
-        let commit_metadata = self.get_latest_commit_metadata().await?;
-        commit_metadata
-            .get("extraMetadata")
-            .and_then(|v| v.as_object())
-            .and_then(|obj| {
-                obj.get("schema")
-                    .and_then(|v| v.as_str())
-                    .map(|s| s.to_string())
-            })
-            .ok_or_else(|| {
-                CoreError::CommitMetadata(
-                    "Failed to resolve the latest schema: no schema found".to_string(),
-                )
-            })
+        // The latest commits may not have recorded the schema.
+        for instant in self.completed_commits.iter().rev() {
+            let commit_metadata = self.get_instant_metadata(instant).await?;
+            let schema = commit_metadata
+                .get("extraMetadata")
+                .and_then(|v| v.as_object())
+                .and_then(|obj| obj.get("schema").and_then(|v| v.as_str()))
+                .filter(|s| !s.is_empty());
+            if let Some(schema) = schema {
+                return Ok(schema.to_string());
+            }
+        }
+        Err(CoreError::CommitMetadata(
+            "Failed to resolve the latest schema: no schema found".to_string(),
+        ))
     }
 
     /// Get the latest [arrow_schema::Schema] from the [Timeline].
     pub async fn get_latest_schema(&self) -> Result<Schema> {
-        let commit_metadata = self.get_latest_commit_metadata().await?;
+        let mut first_error = None;
+        // The latest commits may not have written any data file (e.g., deleting partitions), or
+        // the files may have been cleaned, hence looking for the latest data file that exists.
+        for instant in self.completed_commits.iter().rev() {
+            let commit_metadata = self.get_instant_metadata(instant).await?;
+            match self.resolve_schema_from_data_file(&commit_metadata).await {
+                Err(
+                    e @ (CoreError::CommitMetadata(_)
+                    | CoreError::Storage(StorageError::ObjectStoreError(NotFound { .. }))),
+                ) => {
+                    first_error.get_or_insert(e);
+                }
+                result => return result,
+            }
+        }
+        // No data file is left, e.g., all partitions were deleted and cleaned.
+        if let Ok(schema) = self.resolve_schema_from_commit_metadata().await {
+            return Ok(schema);
+        }
+        Err(first_error.unwrap_or_else(|| {
+            CoreError::CommitMetadata(
+                "Failed to resolve the latest schema: no commit found".to_string(),
+            )
+        }))
+    }
 
+    async fn resolve_schema_from_commit_metadata(&self) -> Result<Schema> {
+        let avro_schema = AvroSchema::parse_str(&self.get_latest_avro_schema().await?)?;
+        let schema = to_arrow_schema(&avro_schema)?;
+        let populates_meta_fields: bool = self
+            .hudi_configs
+            .get_or_default(HudiTableConfig::PopulatesMetaFields)
+            .to();
+        if populates_meta_fields {
+            Ok(Schema::try_merge([
+                MetaField::schema().as_ref().clone(),
+                schema,
+            ])?)
+        } else {
+            Ok(schema)
+        }
+    }
+
+    async fn resolve_schema_from_data_file(
+        &self,
+        commit_metadata: &Map<String, Value>,
+    ) -> Result<Schema> {
         let first_partition = commit_metadata
             .get("partitionToWriteStats")
             .and_then(|v| v.as_object());
-- 
2.43.0


From cc4d1840635c1f532b09d7cbacebd8bb13e69215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 11/48] fix: do not panic on avro schema references and local
 timestamps

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs |  6 +++++-
 crates/core/src/avro_to_arrow/schema.rs             | 12 ++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 4ada3ad..12d36c4 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -959,7 +959,11 @@ where
             Value::Long(l)
             | Value::TimeMicros(l)
             | Value::TimestampMillis(l)
-            | Value::TimestampMicros(l) => NumCast::from(*l),
+            | Value::TimestampMicros(l)
+            | Value::TimestampNanos(l)
+            | Value::LocalTimestampMillis(l)
+            | Value::LocalTimestampMicros(l)
+            | Value::LocalTimestampNanos(l) => NumCast::from(*l),
             Value::Float(f) => NumCast::from(*f),
             Value::Double(f) => NumCast::from(*f),
             Value::Duration(_d) => unimplemented!(), // shenanigans type
diff --git a/crates/core/src/avro_to_arrow/schema.rs b/crates/core/src/avro_to_arrow/schema.rs
index afb0773..a09fa26 100644
--- a/crates/core/src/avro_to_arrow/schema.rs
+++ b/crates/core/src/avro_to_arrow/schema.rs
@@ -61,7 +61,11 @@ fn schema_to_field_with_props(
 ) -> Result<Field> {
     let mut nullable = nullable;
     let field_type: DataType = match schema {
-        AvroSchema::Ref { .. } => todo!("Add support for AvroSchema::Ref"),
+        AvroSchema::Ref { name } => {
+            return Err(CoreError::Unsupported(format!(
+                "Avro schema reference is not supported: {name}"
+            )))
+        }
         AvroSchema::Null => DataType::Null,
         AvroSchema::Boolean => DataType::Boolean,
         AvroSchema::Int => DataType::Int32,
@@ -140,9 +144,9 @@ fn schema_to_field_with_props(
         AvroSchema::TimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
         AvroSchema::TimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
         AvroSchema::TimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
-        AvroSchema::LocalTimestampMillis => todo!(),
-        AvroSchema::LocalTimestampMicros => todo!(),
-        AvroSchema::LocalTimestampNanos => todo!(),
+        AvroSchema::LocalTimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
+        AvroSchema::LocalTimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
+        AvroSchema::LocalTimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
         AvroSchema::Duration => DataType::Duration(TimeUnit::Millisecond),
     };
 
-- 
2.43.0


From e5f3c70d3bce8ad0aaad26360e576074773439a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 12/48] fix: order log files by numeric version

---
 crates/core/src/file_group/log_file/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index 30868c1..d4b4865 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -171,6 +171,8 @@ impl Ord for LogFile {
         // TODO support `.cdc` suffix
         self.base_commit_timestamp
             .cmp(&other.base_commit_timestamp)
+            // versions are numbers: compare the lengths first so that 9 precedes 10
+            .then(self.version.len().cmp(&other.version.len()))
             .then(self.version.cmp(&other.version))
             .then(self.write_token.cmp(&other.write_token))
     }
-- 
2.43.0


From 4b6a41016480b070e53816863126b76596944ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 13/48] fix: return an error instead of panicking on invalid
 table configs

---
 crates/core/src/table/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index c716916..cc7360b 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -109,7 +109,7 @@ impl TableBuilder {
 
         let hudi_configs = HudiConfigs::new(self.hudi_options.iter());
 
-        Self::validate_configs(&hudi_configs).expect("Hudi configs are not valid.");
+        Self::validate_configs(&hudi_configs)?;
 
         let hudi_configs = Arc::from(hudi_configs);
         let storage_options = Arc::from(self.storage_options.clone());
-- 
2.43.0


From 13f0ace1bffb6c8045fc096e6b4c110025eb44a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 14/48] fix: treat tables with blank partition fields as
 non-partitioned

---
 crates/core/src/config/table.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/config/table.rs b/crates/core/src/config/table.rs
index 149938e..0693ed7 100644
--- a/crates/core/src/config/table.rs
+++ b/crates/core/src/config/table.rs
@@ -203,8 +203,10 @@ impl ConfigParser for HudiTableConfig {
                 })
                 .map(HudiConfigValue::Boolean),
             Self::KeyGeneratorClass => get_result.map(|v| HudiConfigValue::String(v.to_string())),
+            // A blank value means the table is not partitioned.
             Self::PartitionFields => get_result
-                .map(|v| HudiConfigValue::List(v.split(',').map(str::to_string).collect())),
+                .map(|v| v.split(',').filter(|s| !s.is_empty()))
+                .map(|fields| HudiConfigValue::List(fields.map(str::to_string).collect())),
             Self::PrecombineField => get_result.map(|v| HudiConfigValue::String(v.to_string())),
             Self::PopulatesMetaFields => get_result
                 .and_then(|v| {
-- 
2.43.0


From d4c81566943f1cc06a5a36a1389a595e5f174ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 15/48] fix: do not hold the file group map's locks across
 await points

---
 crates/core/src/table/fs_view.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index 1fc4b27..9a51a58 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -95,22 +95,24 @@ impl FileSystemView {
         partition_pruner: &PartitionPruner,
         excluding_file_groups: &HashSet<FileGroup>,
     ) -> Result<Vec<FileSlice>> {
+        // The entries of the map are locked while iterating: release them before awaiting.
         let mut file_slices = Vec::new();
-        for mut partition_entry in self.partition_to_file_groups.iter_mut() {
+        for partition_entry in self.partition_to_file_groups.iter() {
             if !partition_pruner.should_include(partition_entry.key()) {
                 continue;
             }
-            let file_groups = partition_entry.value_mut();
-            for fg in file_groups.iter_mut() {
+            for fg in partition_entry.value() {
                 if excluding_file_groups.contains(fg) {
                     continue;
                 }
-                if let Some(fsl) = fg.get_file_slice_mut_as_of(timestamp) {
-                    fsl.load_metadata_if_needed(&self.storage).await?;
+                if let Some(fsl) = fg.get_file_slice_as_of(timestamp) {
                     file_slices.push(fsl.clone());
                 }
             }
         }
+        for fsl in file_slices.iter_mut() {
+            fsl.load_metadata_if_needed(&self.storage).await?;
+        }
         Ok(file_slices)
     }
 
-- 
2.43.0


From 7447216fe182cd70af39dbdb97ed258d546a43b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 16/48] fix: list partitions one at a time when the listing
 parallelism is 0

---
 crates/core/src/table/listing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 08bcac5..a80b937 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -173,7 +173,7 @@ impl FileLister {
                 let file_groups = self.list_file_groups_for_partition(&p).await?;
                 Ok::<_, CoreError>((p, file_groups))
             })
-            .buffer_unordered(parallelism)
+            .buffer_unordered(parallelism.max(1))
             .try_for_each(|(p, file_groups)| {
                 let file_groups_map = file_groups_map.clone();
                 async move {
-- 
2.43.0


From 3cc3e5c09c37ea84c5073ef96bf13c9ea40532e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 17/48] Expose internals to verification builds under --cfg
 hudi_verif

---
 crates/core/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/core/src/lib.rs b/crates/core/src/lib.rs
index 0c34893..7846112 100644
--- a/crates/core/src/lib.rs
+++ b/crates/core/src/lib.rs
@@ -43,6 +43,8 @@
 //! }
 //! ```
 
+#![allow(unexpected_cfgs)]
+
 mod avro_to_arrow;
 pub mod config;
 pub mod error;
@@ -55,4 +57,10 @@ pub mod table;
 pub mod timeline;
 pub mod util;
 
+/// Internals exposed to verification builds only (`--cfg hudi_verif`).
+#[cfg(hudi_verif)]
+pub mod verif {
+    pub use crate::timeline::selector::{InstantRange, TimelineSelector};
+}
+
 use error::Result;
-- 
2.43.0


From e9d61f66988863b06b713dd393f55ab065e854f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:09 +0000
Subject: [PATCH 18/48] fix: match the columns of merged batches by name

---
 crates/core/src/merge/record_merger.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/core/src/merge/record_merger.rs b/crates/core/src/merge/record_merger.rs
index 74fc568..80f1dd0 100644
--- a/crates/core/src/merge/record_merger.rs
+++ b/crates/core/src/merge/record_merger.rs
@@ -79,6 +79,25 @@ impl RecordMerger {
         Self { hudi_configs }
     }
 
+    /// Arrange the columns of each batch by name as in the given schema.
+    fn align_columns(schema: &SchemaRef, batches: &[RecordBatch]) -> Result<Vec<RecordBatch>> {
+        let fields = schema.fields();
+        batches
+            .iter()
+            .map(|batch| {
+                let names = batch.schema_ref().fields().iter().map(|f| f.name());
+                if names.eq(fields.iter().map(|f| f.name())) {
+                    return Ok(batch.clone());
+                }
+                let indices = fields
+                    .iter()
+                    .map(|f| batch.schema_ref().index_of(f.name()))
+                    .collect::<std::result::Result<Vec<_>, _>>()?;
+                Ok(batch.project(&indices)?)
+            })
+            .collect()
+    }
+
     pub fn merge_record_batches(
         &self,
         schema: &SchemaRef,
@@ -93,6 +112,7 @@ impl RecordMerger {
             .get_or_default(RecordMergeStrategy)
             .to::<String>();
         let merge_strategy = RecordMergeStrategyValue::from_str(&merge_strategy)?;
+        let batches = &Self::align_columns(schema, batches)?;
         match merge_strategy {
             RecordMergeStrategyValue::AppendOnly => {
                 let concat_batch = concat_batches(schema, batches)?;
-- 
2.43.0


From 9924d69ad3618c3ff8cf45593fe104cc1ecb2941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:16 +0000
Subject: [PATCH 19/48] fix: reject base file names with missing, empty or
 extra parts

---
 crates/core/src/file_group/base_file.rs | 28 ++++++++++++-------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/crates/core/src/file_group/base_file.rs b/crates/core/src/file_group/base_file.rs
index 4f35b87..8dbde98 100644
--- a/crates/core/src/file_group/base_file.rs
+++ b/crates/core/src/file_group/base_file.rs
@@ -57,22 +57,20 @@ impl BaseFile {
             .rsplit_once('.')
             .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?;
         let parts: Vec<&str> = stem.split('_').collect();
-        let file_id = parts
-            .first()
-            .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-            .to_string();
-        let write_token = parts
-            .get(1)
-            .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-            .to_string();
-        let commit_timestamp = parts
-            .get(2)
-            .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-            .to_string();
+        let [file_id, write_token, commit_timestamp] = parts.as_slice() else {
+            return Err(CoreError::FileGroup(err_msg));
+        };
+        if file_id.is_empty()
+            || write_token.is_empty()
+            || commit_timestamp.is_empty()
+            || extension.is_empty()
+        {
+            return Err(CoreError::FileGroup(err_msg));
+        }
         Ok((
-            file_id,
-            write_token,
-            commit_timestamp,
+            file_id.to_string(),
+            write_token.to_string(),
+            commit_timestamp.to_string(),
             extension.to_string(),
         ))
     }
-- 
2.43.0


From 0e81134968d418fa55575224062b0af76ad07dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 20/48] fix: do not take cdc files for log files

---
 crates/core/src/file_group/log_file/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index d4b4865..24cae22 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -86,6 +86,11 @@ impl LogFile {
             return Err(CoreError::FileGroup(err_msg.clone()));
         }
 
+        // A version is a number, and a write token has no suffix such as `.cdc`.
+        if !log_file_version.bytes().all(|b| b.is_ascii_digit()) || file_write_token.contains('.') {
+            return Err(CoreError::FileGroup(err_msg.clone()));
+        }
+
         Ok((
             file_id.to_string(),
             base_commit_timestamp.to_string(),
-- 
2.43.0


From dfa1f02c4d7b629c21b5201e0bb7ec26bef1af12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:24 +0000
Subject: [PATCH 21/48] fix: do not take files with malformed timestamps or
 states for instants

---
 crates/core/src/timeline/instant.rs  | 9 +++++++--
 crates/core/src/timeline/selector.rs | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index ea87ec3..b993880 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -147,7 +147,7 @@ impl Instant {
         })
     }
 
-    fn validate_timestamp(timestamp: &str) -> Result<()> {
+    pub(crate) fn validate_timestamp(timestamp: &str) -> Result<()> {
         if !matches!(timestamp.len(), 14 | 17) {
             return Err(CoreError::Timeline(format!(
                 "Timestamp must be in format yyyyMMddHHmmss or yyyyMMddHHmmssSSS, but got: {}",
@@ -163,7 +163,7 @@ impl Instant {
     }
 
     fn parse_naive_datetime(timestamp: &str) -> Result<NaiveDateTime> {
-        if !timestamp.is_char_boundary(14) {
+        if timestamp.len() < 14 || !timestamp.bytes().all(|b| b.is_ascii_digit()) {
             return Err(CoreError::Timeline(format!(
                 "Failed to parse timestamp: {}",
                 timestamp
@@ -197,6 +197,11 @@ impl Instant {
 
     pub fn parse_action_and_state(action_suffix: &str) -> Result<(Action, State)> {
         match action_suffix.split_once('.') {
+            // a file name has no suffix for the completed state
+            Some((_, "")) => Err(CoreError::Timeline(format!(
+                "Invalid state suffix: {}",
+                action_suffix
+            ))),
             Some((action_str, state_str)) => {
                 Ok((Action::from_str(action_str)?, State::from_str(state_str)?))
             }
diff --git a/crates/core/src/timeline/selector.rs b/crates/core/src/timeline/selector.rs
index fd20bdc..de98f6b 100644
--- a/crates/core/src/timeline/selector.rs
+++ b/crates/core/src/timeline/selector.rs
@@ -241,6 +241,7 @@ impl TimelineSelector {
             )));
         }
 
+        Instant::validate_timestamp(timestamp)?;
         let dt = Instant::parse_datetime(timestamp, &self.timezone)?;
         if let Some(start) = self.start_datetime {
             if dt < start {
-- 
2.43.0


From 14832dc71673ab7d1e47ec70909ca7779e1ef255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:24 +0000
Subject: [PATCH 22/48] fix: do not drop instants at local times skipped by
 daylight saving

---
 crates/core/src/timeline/instant.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index b993880..08201ac 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -21,7 +21,7 @@ use crate::error::CoreError;
 use crate::metadata::HUDI_METADATA_DIR;
 use crate::storage::error::StorageError;
 use crate::Result;
-use chrono::{DateTime, Local, NaiveDateTime, TimeZone, Timelike, Utc};
+use chrono::{DateTime, Local, NaiveDateTime, TimeDelta, TimeZone, Timelike, Utc};
 use std::cmp::Ordering;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -190,6 +190,11 @@ impl Instant {
             TimelineTimezoneValue::Local => Ok(Local
                 .from_local_datetime(&naive_dt)
                 .earliest() // resolve ambiguous times, e.g., when daylight saving time ends
+                .or_else(|| {
+                    // a time skipped when daylight saving time starts stands for the one later
+                    let shifted = naive_dt.checked_add_signed(TimeDelta::hours(1))?;
+                    Local.from_local_datetime(&shifted).earliest()
+                })
                 .ok_or_else(|| CoreError::Timeline("Invalid local datetime".to_string()))?
                 .to_utc()),
         }
-- 
2.43.0


From 033676715366ee0021e0c514db98abda5903c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:41 +0000
Subject: [PATCH 23/48] fix: parse config lines with spaces around the
 separator

---
 crates/core/src/config/util.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/config/util.rs b/crates/core/src/config/util.rs
index 33921c6..3c0f8f9 100644
--- a/crates/core/src/config/util.rs
+++ b/crates/core/src/config/util.rs
@@ -72,8 +72,16 @@ pub fn parse_data_for_options(data: &Bytes, split_chars: &str) -> Result<HashMap
             )))?
             .trim()
             .to_owned();
-        let value = parts.next().unwrap_or("").trim().to_owned();
-        options.insert(key, value);
+        let mut value = parts.next().unwrap_or("").trim();
+        let separator = trimmed_line.chars().find(|c| split_chars.contains(*c));
+        if separator.is_some_and(char::is_whitespace) {
+            // the spaces may surround another separator
+            value = value
+                .strip_prefix(|c: char| split_chars.contains(c))
+                .unwrap_or(value)
+                .trim_start();
+        }
+        options.insert(key, value.to_owned());
     }
 
     Ok(options)
-- 
2.43.0


From ee69e1e5ef2850a78209bf207dd1c1a0d5fc9939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:41 +0000
Subject: [PATCH 24/48] fix: do not let env vars override storage options given
 in upper case

---
 crates/core/src/table/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index cc7360b..3401567 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -172,7 +172,10 @@ impl TableBuilder {
             if Storage::CLOUD_STORAGE_PREFIXES
                 .iter()
                 .any(|prefix| key.starts_with(prefix))
-                && !self.storage_options.contains_key(&key.to_ascii_lowercase())
+                && !self
+                    .storage_options
+                    .keys()
+                    .any(|k| k.eq_ignore_ascii_case(&key))
             {
                 self.storage_options.insert(key.to_ascii_lowercase(), value);
             }
-- 
2.43.0


From d3f07810e2fc85a81adff94a1c30af59c058aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 25/48] fix: keep the values of nullable boolean lists in avro
 records

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 12d36c4..e7bc049 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -457,11 +457,11 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 let mut bool_nulls = MutableBuffer::new(num_bytes).with_bitset(num_bytes, true);
                 let mut curr_index = 0;
                 rows.iter().for_each(|v| {
-                    if let Value::Array(vs) = v {
+                    if let Value::Array(vs) = maybe_resolve_union(v) {
                         vs.iter().for_each(|value| {
-                            if let Value::Boolean(child) = value {
+                            if let Some(child) = resolve_boolean(value) {
                                 // if valid boolean, append value
-                                if *child {
+                                if child {
                                     bit_util::set_bit(&mut bool_values, curr_index);
                                 }
                             } else {
-- 
2.43.0


From 2c3294716d0c6b4a55f01402dfc4927c612c7ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 26/48] fix: do not give null lists in avro records an item

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index e7bc049..cff6b63 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -529,6 +529,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     .iter()
                     .map(|row| match maybe_resolve_union(row) {
                         Value::Array(values) => values.len(),
+                        Value::Null => 0,
                         _ => 1,
                     })
                     .sum();
@@ -557,6 +558,9 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                                     other => panic!("expected Record, got {other:?}"),
                                 })
                                 .collect::<Vec<&Vec<(String, Value)>>>()
+                        } else if let Value::Null = row {
+                            // a null list has no items
+                            vec![]
                         } else {
                             struct_index += 1;
                             vec![&null_struct_array]
@@ -817,6 +821,9 @@ fn flatten_values<'a>(values: &[&'a Value]) -> Vec<&'a Value> {
             let v = maybe_resolve_union(row);
             if let Value::Array(values) = v {
                 values.iter().collect()
+            } else if let Value::Null = v {
+                // a null list has no items
+                vec![]
             } else {
                 // we interpret a scalar as a single-value list to minimise data loss
                 vec![v]
-- 
2.43.0


From ca6e0fa23e2e4c172b77af9928b21a33e9d51a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 27/48] fix: find the fields of records in nested avro lists

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index cff6b63..dd13e99 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -509,7 +509,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 .into_data(),
             DataType::List(field) => {
                 let child = self.build_nested_list_array::<i32>(
-                    parent_field_name,
+                    &format!("{}.{}", parent_field_name, list_field.name()),
                     &flatten_values(rows),
                     field,
                 )?;
@@ -517,7 +517,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
             }
             DataType::LargeList(field) => {
                 let child = self.build_nested_list_array::<i64>(
-                    parent_field_name,
+                    &format!("{}.{}", parent_field_name, list_field.name()),
                     &flatten_values(rows),
                     field,
                 )?;
-- 
2.43.0


From 91b06916c359e382d8e1e32570e7ec4686c9792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:28 +0000
Subject: [PATCH 28/48] fix: keep the values of uuids in avro records

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index dd13e99..0a20fbb 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -918,6 +918,7 @@ fn resolve_fixed(v: &Value, size: usize) -> Option<Vec<u8>> {
                 None
             }
         }
+        Value::Uuid(uuid) if size == 16 => Some(uuid.as_bytes().to_vec()),
         _ => None,
     }
 }
-- 
2.43.0


From f95128d37816ccb7c4523548e7a2887bda64b2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 29/48] fix: merge nested columns that differ from the base
 file's in annotations only

---
 crates/core/src/merge/record_merger.rs | 51 +++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/merge/record_merger.rs b/crates/core/src/merge/record_merger.rs
index 80f1dd0..7910e2e 100644
--- a/crates/core/src/merge/record_merger.rs
+++ b/crates/core/src/merge/record_merger.rs
@@ -27,9 +27,9 @@ use crate::metadata::meta_field::MetaField;
 use crate::util::arrow::lexsort_to_indices;
 use crate::util::arrow::ColumnAsArray;
 use crate::Result;
-use arrow::compute::take_record_batch;
+use arrow::compute::{cast, take_record_batch};
 use arrow_array::{Array, RecordBatch, UInt32Array};
-use arrow_schema::SchemaRef;
+use arrow_schema::{DataType, Field, Schema, SchemaRef};
 use arrow_select::concat::concat_batches;
 use std::collections::HashMap;
 use std::str::FromStr;
@@ -79,21 +79,54 @@ impl RecordMerger {
         Self { hudi_configs }
     }
 
+    /// Whether two data types differ at most in the names of list items, and in the nullability
+    /// and metadata of nested fields, as those of base files and log files may.
+    fn is_same_nested_type(a: &DataType, b: &DataType) -> bool {
+        match (a, b) {
+            (DataType::List(a), DataType::List(b)) => {
+                Self::is_same_nested_type(a.data_type(), b.data_type())
+            }
+            (DataType::Struct(a), DataType::Struct(b)) => {
+                a.len() == b.len()
+                    && a.iter().zip(b).all(|(a, b)| {
+                        a.name() == b.name()
+                            && Self::is_same_nested_type(a.data_type(), b.data_type())
+                    })
+            }
+            _ => a == b,
+        }
+    }
+
     /// Arrange the columns of each batch by name as in the given schema.
     fn align_columns(schema: &SchemaRef, batches: &[RecordBatch]) -> Result<Vec<RecordBatch>> {
         let fields = schema.fields();
         batches
             .iter()
             .map(|batch| {
-                let names = batch.schema_ref().fields().iter().map(|f| f.name());
-                if names.eq(fields.iter().map(|f| f.name())) {
+                if batch.schema_ref().fields() == fields {
                     return Ok(batch.clone());
                 }
-                let indices = fields
-                    .iter()
-                    .map(|f| batch.schema_ref().index_of(f.name()))
-                    .collect::<std::result::Result<Vec<_>, _>>()?;
-                Ok(batch.project(&indices)?)
+                let mut aligned_fields = Vec::with_capacity(fields.len());
+                let mut columns = Vec::with_capacity(fields.len());
+                for field in fields {
+                    let index = batch.schema_ref().index_of(field.name())?;
+                    let mut column = batch.column(index).clone();
+                    if column.data_type() != field.data_type()
+                        && Self::is_same_nested_type(column.data_type(), field.data_type())
+                    {
+                        column = cast(&column, field.data_type())?;
+                    }
+                    aligned_fields.push(Field::new(
+                        field.name(),
+                        column.data_type().clone(),
+                        true,
+                    ));
+                    columns.push(column);
+                }
+                Ok(RecordBatch::try_new(
+                    Arc::new(Schema::new(aligned_fields)),
+                    columns,
+                )?)
             })
             .collect()
     }
-- 
2.43.0


From 784113472adea451535188065d41975abb807b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:52 +0000
Subject: [PATCH 30/48] fix: Do not allocate what the metadata of a log block
 declares

---
 crates/core/src/file_group/log_file/reader.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 00539c0..44d55c2 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -176,8 +176,8 @@ impl<R: Read + Seek> LogFileReader<R> {
         let mut num_entries_buf = [0u8; 4];
         self.reader.read_exact(&mut num_entries_buf)?;
         let num_entries = u32::from_be_bytes(num_entries_buf);
-        let mut metadata: HashMap<BlockMetadataKey, String> =
-            HashMap::with_capacity(num_entries as usize);
+        // Counts and lengths in a damaged file can be anything: allocate for what is there.
+        let mut metadata: HashMap<BlockMetadataKey, String> = HashMap::new();
         for _ in 0..num_entries {
             let mut key_buf = [0u8; 4];
             self.reader.read_exact(&mut key_buf)?;
@@ -185,8 +185,14 @@ impl<R: Read + Seek> LogFileReader<R> {
             let mut value_len_buf = [0u8; 4];
             self.reader.read_exact(&mut value_len_buf)?;
             let value_len = u32::from_be_bytes(value_len_buf);
-            let mut value_buf = vec![0u8; value_len as usize];
-            self.reader.read_exact(&mut value_buf)?;
+            let mut value_buf = Vec::new();
+            self.reader
+                .by_ref()
+                .take(value_len as u64)
+                .read_to_end(&mut value_buf)?;
+            if value_buf.len() < value_len as usize {
+                return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+            }
             let value =
                 String::from_utf8(value_buf).map_err(|e| CoreError::Utf8Error(e.utf8_error()))?;
             metadata.insert(key, value);
-- 
2.43.0


From 559a0719fbfd0f4e08e4609fcdd927531b1553c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:33 +0000
Subject: [PATCH 31/48] fix: Report unexpected avro values as errors

---
 .../src/avro_to_arrow/arrow_array_reader.rs   | 196 +++++++++---------
 crates/core/src/avro_to_arrow/schema.rs       |   6 +-
 2 files changed, 99 insertions(+), 103 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 0a20fbb..a638b17 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -200,19 +200,19 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
         Arc::new(builder.finish())
     }
 
-    fn build_primitive_array<T>(&self, rows: RecordSlice, col_name: &str) -> ArrayRef
+    fn build_primitive_array<T>(&self, rows: RecordSlice, col_name: &str) -> ArrowResult<ArrayRef>
     where
         T: ArrowNumericType + Resolver,
         T::Native: NumCast,
     {
-        Arc::new(
-            rows.iter()
-                .map(|row| {
-                    self.field_lookup(col_name, row)
-                        .and_then(|value| resolve_item::<T>(value))
-                })
-                .collect::<PrimitiveArray<T>>(),
-        )
+        let values = rows
+            .iter()
+            .map(|row| match self.field_lookup(col_name, row) {
+                Some(value) => resolve_item::<T>(value),
+                None => Ok(None),
+            })
+            .collect::<ArrowResult<Vec<Option<T::Native>>>>()?;
+        Ok(Arc::new(values.into_iter().collect::<PrimitiveArray<T>>()))
     }
 
     #[inline(always)]
@@ -476,20 +476,19 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     .len(valid_len)
                     .add_buffer(bool_values.into())
                     .null_bit_buffer(Some(bool_nulls.into()))
-                    .build()
-                    .unwrap()
+                    .build()?
             }
-            DataType::Int8 => self.read_primitive_list_values::<Int8Type>(rows),
-            DataType::Int16 => self.read_primitive_list_values::<Int16Type>(rows),
-            DataType::Int32 => self.read_primitive_list_values::<Int32Type>(rows),
-            DataType::Int64 => self.read_primitive_list_values::<Int64Type>(rows),
-            DataType::UInt8 => self.read_primitive_list_values::<UInt8Type>(rows),
-            DataType::UInt16 => self.read_primitive_list_values::<UInt16Type>(rows),
-            DataType::UInt32 => self.read_primitive_list_values::<UInt32Type>(rows),
-            DataType::UInt64 => self.read_primitive_list_values::<UInt64Type>(rows),
+            DataType::Int8 => self.read_primitive_list_values::<Int8Type>(rows)?,
+            DataType::Int16 => self.read_primitive_list_values::<Int16Type>(rows)?,
+            DataType::Int32 => self.read_primitive_list_values::<Int32Type>(rows)?,
+            DataType::Int64 => self.read_primitive_list_values::<Int64Type>(rows)?,
+            DataType::UInt8 => self.read_primitive_list_values::<UInt8Type>(rows)?,
+            DataType::UInt16 => self.read_primitive_list_values::<UInt16Type>(rows)?,
+            DataType::UInt32 => self.read_primitive_list_values::<UInt32Type>(rows)?,
+            DataType::UInt64 => self.read_primitive_list_values::<UInt64Type>(rows)?,
             DataType::Float16 => return Err(SchemaError("Float16 not supported".to_string())),
-            DataType::Float32 => self.read_primitive_list_values::<Float32Type>(rows),
-            DataType::Float64 => self.read_primitive_list_values::<Float64Type>(rows),
+            DataType::Float32 => self.read_primitive_list_values::<Float32Type>(rows)?,
+            DataType::Float64 => self.read_primitive_list_values::<Float64Type>(rows)?,
             DataType::Timestamp(_, _)
             | DataType::Date32
             | DataType::Date64
@@ -537,36 +536,32 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 let mut null_buffer = MutableBuffer::from_len_zeroed(num_bytes);
                 let mut struct_index = 0;
                 let null_struct_array = vec![("null".to_string(), Value::Null)];
-                let rows: Vec<&Vec<(String, Value)>> = rows
-                    .iter()
-                    .map(|v| maybe_resolve_union(v))
-                    .flat_map(|row| {
-                        if let Value::Array(values) = row {
-                            values
-                                .iter()
-                                .map(maybe_resolve_union)
-                                .map(|v| match v {
-                                    Value::Record(record) => {
-                                        bit_util::set_bit(&mut null_buffer, struct_index);
-                                        struct_index += 1;
-                                        record
-                                    }
-                                    Value::Null => {
-                                        struct_index += 1;
-                                        &null_struct_array
-                                    }
-                                    other => panic!("expected Record, got {other:?}"),
-                                })
-                                .collect::<Vec<&Vec<(String, Value)>>>()
-                        } else if let Value::Null = row {
-                            // a null list has no items
-                            vec![]
-                        } else {
+                let mut struct_rows: Vec<&Vec<(String, Value)>> = Vec::new();
+                for row in rows.iter().map(|v| maybe_resolve_union(v)) {
+                    if let Value::Array(values) = row {
+                        for value in values.iter().map(maybe_resolve_union) {
+                            match value {
+                                Value::Record(record) => {
+                                    bit_util::set_bit(&mut null_buffer, struct_index);
+                                    struct_rows.push(record);
+                                }
+                                Value::Null => struct_rows.push(&null_struct_array),
+                                other => {
+                                    return Err(SchemaError(format!(
+                                        "expected Record, got {other:?}"
+                                    )))
+                                }
+                            }
                             struct_index += 1;
-                            vec![&null_struct_array]
                         }
-                    })
-                    .collect();
+                    } else if let Value::Null = row {
+                        // a null list has no items
+                    } else {
+                        struct_index += 1;
+                        struct_rows.push(&null_struct_array);
+                    }
+                }
+                let rows = struct_rows;
 
                 let sub_parent_field_name = format!("{}.{}", parent_field_name, list_field.name());
                 let arrays = self.build_struct_array(&rows, &sub_parent_field_name, fields, &[])?;
@@ -575,8 +570,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     .len(rows.len())
                     .null_bit_buffer(Some(null_buffer.into()))
                     .child_data(arrays.into_iter().map(|a| a.to_data()).collect())
-                    .build()
-                    .unwrap()
+                    .build()?
             }
             datatype => {
                 return Err(SchemaError(format!(
@@ -590,8 +584,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
             .add_buffer(Buffer::from_slice_ref(&offsets))
             .add_child_data(array_data)
             .null_bit_buffer(Some(list_nulls.into()))
-            .build()
-            .unwrap();
+            .build()?;
         Ok(Arc::new(GenericListArray::<OffsetSize>::from(list_data)))
     }
 
@@ -623,40 +616,40 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     DataType::Null => Arc::new(NullArray::new(rows.len())) as ArrayRef,
                     DataType::Boolean => self.build_boolean_array(rows, &field_path),
                     DataType::Float64 => {
-                        self.build_primitive_array::<Float64Type>(rows, &field_path)
+                        self.build_primitive_array::<Float64Type>(rows, &field_path)?
                     }
                     DataType::Float32 => {
-                        self.build_primitive_array::<Float32Type>(rows, &field_path)
+                        self.build_primitive_array::<Float32Type>(rows, &field_path)?
                     }
-                    DataType::Int64 => self.build_primitive_array::<Int64Type>(rows, &field_path),
-                    DataType::Int32 => self.build_primitive_array::<Int32Type>(rows, &field_path),
-                    DataType::Int16 => self.build_primitive_array::<Int16Type>(rows, &field_path),
-                    DataType::Int8 => self.build_primitive_array::<Int8Type>(rows, &field_path),
-                    DataType::UInt64 => self.build_primitive_array::<UInt64Type>(rows, &field_path),
-                    DataType::UInt32 => self.build_primitive_array::<UInt32Type>(rows, &field_path),
-                    DataType::UInt16 => self.build_primitive_array::<UInt16Type>(rows, &field_path),
-                    DataType::UInt8 => self.build_primitive_array::<UInt8Type>(rows, &field_path),
+                    DataType::Int64 => self.build_primitive_array::<Int64Type>(rows, &field_path)?,
+                    DataType::Int32 => self.build_primitive_array::<Int32Type>(rows, &field_path)?,
+                    DataType::Int16 => self.build_primitive_array::<Int16Type>(rows, &field_path)?,
+                    DataType::Int8 => self.build_primitive_array::<Int8Type>(rows, &field_path)?,
+                    DataType::UInt64 => self.build_primitive_array::<UInt64Type>(rows, &field_path)?,
+                    DataType::UInt32 => self.build_primitive_array::<UInt32Type>(rows, &field_path)?,
+                    DataType::UInt16 => self.build_primitive_array::<UInt16Type>(rows, &field_path)?,
+                    DataType::UInt8 => self.build_primitive_array::<UInt8Type>(rows, &field_path)?,
                     // TODO: this is incomplete
                     DataType::Timestamp(unit, _) => match unit {
                         TimeUnit::Second => {
-                            self.build_primitive_array::<TimestampSecondType>(rows, &field_path)
+                            self.build_primitive_array::<TimestampSecondType>(rows, &field_path)?
                         }
                         TimeUnit::Microsecond => self
-                            .build_primitive_array::<TimestampMicrosecondType>(rows, &field_path),
+                            .build_primitive_array::<TimestampMicrosecondType>(rows, &field_path)?,
                         TimeUnit::Millisecond => self
-                            .build_primitive_array::<TimestampMillisecondType>(rows, &field_path),
+                            .build_primitive_array::<TimestampMillisecondType>(rows, &field_path)?,
                         TimeUnit::Nanosecond => {
-                            self.build_primitive_array::<TimestampNanosecondType>(rows, &field_path)
+                            self.build_primitive_array::<TimestampNanosecondType>(rows, &field_path)?
                         }
                     },
-                    DataType::Date64 => self.build_primitive_array::<Date64Type>(rows, &field_path),
-                    DataType::Date32 => self.build_primitive_array::<Date32Type>(rows, &field_path),
+                    DataType::Date64 => self.build_primitive_array::<Date64Type>(rows, &field_path)?,
+                    DataType::Date32 => self.build_primitive_array::<Date32Type>(rows, &field_path)?,
                     DataType::Time64(unit) => {
                         match unit {
                             TimeUnit::Microsecond => self
-                                .build_primitive_array::<Time64MicrosecondType>(rows, &field_path),
+                                .build_primitive_array::<Time64MicrosecondType>(rows, &field_path)?,
                             TimeUnit::Nanosecond => self
-                                .build_primitive_array::<Time64NanosecondType>(rows, &field_path),
+                                .build_primitive_array::<Time64NanosecondType>(rows, &field_path)?,
                             t => {
                                 return Err(SchemaError(format!(
                                     "TimeUnit {t:?} not supported with Time64"
@@ -666,10 +659,10 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     }
                     DataType::Time32(unit) => match unit {
                         TimeUnit::Second => {
-                            self.build_primitive_array::<Time32SecondType>(rows, &field_path)
+                            self.build_primitive_array::<Time32SecondType>(rows, &field_path)?
                         }
                         TimeUnit::Millisecond => {
-                            self.build_primitive_array::<Time32MillisecondType>(rows, &field_path)
+                            self.build_primitive_array::<Time32MillisecondType>(rows, &field_path)?
                         }
                         t => {
                             return Err(SchemaError(format!(
@@ -743,15 +736,15 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                                 match v {
                                     Some(Value::Record(value)) => {
                                         bit_util::set_bit(&mut null_buffer, i);
-                                        value
+                                        Ok(value)
                                     }
-                                    None | Some(Value::Null) => &empty_vec,
+                                    None | Some(Value::Null) => Ok(&empty_vec),
                                     other => {
-                                        panic!("expected struct got {other:?}");
+                                        Err(SchemaError(format!("expected struct got {other:?}")))
                                     }
                                 }
                             })
-                            .collect::<Vec<&Vec<(String, Value)>>>();
+                            .collect::<ArrowResult<Vec<&Vec<(String, Value)>>>>()?;
                         let arrays =
                             self.build_struct_array(&struct_rows, &field_path, fields, &[])?;
                         // construct a struct array's data in order to set null buffer
@@ -777,29 +770,24 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
     }
 
     /// Read the primitive list's values into ArrayData
-    fn read_primitive_list_values<T>(&self, rows: &[&Value]) -> ArrayData
+    fn read_primitive_list_values<T>(&self, rows: &[&Value]) -> ArrowResult<ArrayData>
     where
         T: ArrowPrimitiveType + ArrowNumericType,
         T::Native: NumCast,
     {
-        let values = rows
-            .iter()
-            .flat_map(|row| {
-                let row = maybe_resolve_union(row);
-                if let Value::Array(values) = row {
-                    values
-                        .iter()
-                        .map(resolve_item::<T>)
-                        .collect::<Vec<Option<T::Native>>>()
-                } else if let Some(f) = resolve_item::<T>(row) {
-                    vec![Some(f)]
-                } else {
-                    vec![]
+        let mut items: Vec<Option<T::Native>> = Vec::new();
+        for row in rows {
+            let row = maybe_resolve_union(row);
+            if let Value::Array(values) = row {
+                for value in values {
+                    items.push(resolve_item::<T>(value)?);
                 }
-            })
-            .collect::<Vec<Option<T::Native>>>();
-        let array = values.iter().collect::<PrimitiveArray<T>>();
-        array.to_data()
+            } else if let Some(f) = resolve_item::<T>(row)? {
+                items.push(Some(f));
+            }
+        }
+        let array = items.iter().collect::<PrimitiveArray<T>>();
+        Ok(array.to_data())
     }
 
     fn field_lookup<'b>(&self, name: &str, row: &'b [(String, Value)]) -> Option<&'b Value> {
@@ -936,10 +924,10 @@ fn resolve_boolean(value: &Value) -> Option<bool> {
 }
 
 trait Resolver: ArrowPrimitiveType {
-    fn resolve(value: &Value) -> Option<Self::Native>;
+    fn resolve(value: &Value) -> ArrowResult<Option<Self::Native>>;
 }
 
-fn resolve_item<T: Resolver>(value: &Value) -> Option<T::Native> {
+fn resolve_item<T: Resolver>(value: &Value) -> ArrowResult<Option<T::Native>> {
     T::resolve(value)
 }
 
@@ -960,9 +948,9 @@ where
     N: ArrowNumericType,
     N::Native: NumCast,
 {
-    fn resolve(value: &Value) -> Option<Self::Native> {
+    fn resolve(value: &Value) -> ArrowResult<Option<Self::Native>> {
         let value = maybe_resolve_union(value);
-        match value {
+        let resolved = match value {
             Value::Int(i) | Value::TimeMillis(i) | Value::Date(i) => NumCast::from(*i),
             Value::Long(l)
             | Value::TimeMicros(l)
@@ -974,9 +962,13 @@ where
             | Value::LocalTimestampNanos(l) => NumCast::from(*l),
             Value::Float(f) => NumCast::from(*f),
             Value::Double(f) => NumCast::from(*f),
-            Value::Duration(_d) => unimplemented!(), // shenanigans type
             Value::Null => None,
-            _ => unreachable!(),
-        }
+            other => {
+                return Err(SchemaError(format!(
+                    "expected resolvable number, got {other:?}"
+                )))
+            }
+        };
+        Ok(resolved)
     }
 }
diff --git a/crates/core/src/avro_to_arrow/schema.rs b/crates/core/src/avro_to_arrow/schema.rs
index a09fa26..dbfc173 100644
--- a/crates/core/src/avro_to_arrow/schema.rs
+++ b/crates/core/src/avro_to_arrow/schema.rs
@@ -132,7 +132,11 @@ fn schema_to_field_with_props(
             DataType::Struct(fields?)
         }
         AvroSchema::Enum(EnumSchema { .. }) => DataType::Utf8,
-        AvroSchema::Fixed(FixedSchema { size, .. }) => DataType::FixedSizeBinary(*size as i32),
+        AvroSchema::Fixed(FixedSchema { size, .. }) => {
+            DataType::FixedSizeBinary(i32::try_from(*size).map_err(|_| {
+                CoreError::Unsupported(format!("Avro fixed of size {size} is not supported"))
+            })?)
+        }
         AvroSchema::Decimal(DecimalSchema {
             precision, scale, ..
         }) => DataType::Decimal128(*precision as u8, *scale as i8),
-- 
2.43.0


From d2bc44da28e639a88cad2252d2482e1a82b0e507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 32/48] fix: Report avro records that are cut short

---
 crates/core/src/file_group/log_file/avro.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/file_group/log_file/avro.rs b/crates/core/src/file_group/log_file/avro.rs
index 8c1d6f1..73bc1a2 100644
--- a/crates/core/src/file_group/log_file/avro.rs
+++ b/crates/core/src/file_group/log_file/avro.rs
@@ -55,9 +55,21 @@ impl<R: Read> Iterator for AvroDataBlockContentReader<R> {
 
         let record_content_length = u32::from_be_bytes(record_content_length);
 
-        let mut record_reader = (&mut self.reader).take(record_content_length as u64);
+        // Decoding gives nulls for what is missing at the end: check the length beforehand.
+        let mut record_content = Vec::new();
+        match (&mut self.reader)
+            .take(record_content_length as u64)
+            .read_to_end(&mut record_content)
+        {
+            Ok(n) if n < record_content_length as usize => {
+                let e = std::io::Error::from(std::io::ErrorKind::UnexpectedEof);
+                return Some(Err(apache_avro::Error::ReadBytes(e)));
+            }
+            Ok(_) => {}
+            Err(e) => return Some(Err(apache_avro::Error::ReadBytes(e))),
+        }
 
-        let result = from_avro_datum(&self.writer_schema, &mut record_reader, None);
+        let result = from_avro_datum(&self.writer_schema, &mut record_content.as_slice(), None);
 
         Some(result)
     }
-- 
2.43.0


From 54bf138f2fbb2d604a9537447f2430f1a2d9b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 33/48] fix: Prune partitions with filters on partition fields
 only

---
 crates/datafusion/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 9beb612..bbf7ef3 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -175,8 +175,15 @@ impl TableProvider for HudiDataSource {
     ) -> Result<Arc<dyn ExecutionPlan>> {
         self.table.register_storage(state.runtime_env().clone());
 
-        // Convert Datafusion `Expr` to `Filter`
-        let pushdown_filters = exprs_to_filters(filters);
+        // Convert Datafusion `Expr` to `Filter`, keeping those on partition fields,
+        // of which an empty table has none
+        let partition_schema = self
+            .table
+            .get_partition_schema()
+            .await
+            .unwrap_or_else(|_| Schema::empty());
+        let mut pushdown_filters = exprs_to_filters(filters);
+        pushdown_filters.retain(|(field, _, _)| partition_schema.field_with_name(field).is_ok());
         let file_slices = self
             .table
             .get_file_slices_splits(self.get_input_partitions(), &pushdown_filters.as_strs())
-- 
2.43.0


From 44e77ef782bcd94df17de3f9fd2c33d8190b495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 34/48] fix: Convert literals to filter values by their type

---
 crates/datafusion/src/util/expr.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index 7eb0eed..64ff72d 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -17,7 +17,9 @@
  * under the License.
  */
 
+use arrow_schema::DataType;
 use datafusion::logical_expr::Operator;
+use datafusion_common::ScalarValue;
 use datafusion_expr::{BinaryExpr, Expr};
 use hudi_core::expr::filter::{col, Filter as HudiFilter};
 
@@ -49,16 +51,16 @@ pub fn exprs_to_filters(exprs: &[Expr]) -> Vec<(String, String, String)> {
 /// Converts a binary expression [`Expr::BinaryExpr`] into a [`HudiFilter`].
 fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     // extract the column and literal from the binary expression
-    let (column, literal) = match (&*binary_expr.left, &*binary_expr.right) {
-        (Expr::Column(col), Expr::Literal(lit)) => (col, lit),
-        (Expr::Literal(lit), Expr::Column(col)) => (col, lit),
+    let (column, op, literal) = match (&*binary_expr.left, &*binary_expr.right) {
+        (Expr::Column(col), Expr::Literal(lit)) => (col, binary_expr.op, lit),
+        (Expr::Literal(lit), Expr::Column(col)) => (col, binary_expr.op, lit),
         _ => return None,
     };
 
     let field = col(column.name());
-    let lit_str = literal.to_string();
+    let lit_str = literal_to_string(literal)?;
 
-    let filter = match binary_expr.op {
+    let filter = match op {
         Operator::Eq => field.eq(lit_str),
         Operator::NotEq => field.ne(lit_str),
         Operator::Lt => field.lt(lit_str),
@@ -71,6 +73,14 @@ fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     Some(filter)
 }
 
+/// Converts a literal to the string form that a filter value takes, or `None` if it has none.
+fn literal_to_string(literal: &ScalarValue) -> Option<String> {
+    match literal.cast_to(&DataType::Utf8) {
+        Ok(ScalarValue::Utf8(s)) => s,
+        _ => None,
+    }
+}
+
 /// Converts a NOT expression (`Expr::Not`) into a `PartitionFilter`.
 fn not_expr_to_filter(not_expr: &Expr) -> Option<HudiFilter> {
     match not_expr {
-- 
2.43.0


From d819a7171580bd4fbc1c05c9fe7bbac020b1f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 35/48] fix: Swap the operator of a filter whose literal is on
 the left

---
 crates/datafusion/src/util/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index 64ff72d..eb55133 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -53,7 +53,7 @@ fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     // extract the column and literal from the binary expression
     let (column, op, literal) = match (&*binary_expr.left, &*binary_expr.right) {
         (Expr::Column(col), Expr::Literal(lit)) => (col, binary_expr.op, lit),
-        (Expr::Literal(lit), Expr::Column(col)) => (col, binary_expr.op, lit),
+        (Expr::Literal(lit), Expr::Column(col)) => (col, binary_expr.op.swap()?, lit),
         _ => return None,
     };
 
-- 
2.43.0


From b7d4c7cec160645059370bdb967d66cb5dc90dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 36/48] fix: Plan scans without files

---
 crates/datafusion/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index bbf7ef3..ea420d3 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -35,8 +35,10 @@ use datafusion::datasource::physical_plan::FileScanConfig;
 use datafusion::datasource::TableProvider;
 use datafusion::error::Result;
 use datafusion::logical_expr::Operator;
+use datafusion::physical_plan::empty::EmptyExec;
 use datafusion::physical_plan::ExecutionPlan;
 use datafusion_common::config::TableParquetOptions;
+use datafusion_common::project_schema;
 use datafusion_common::DFSchema;
 use datafusion_common::DataFusionError::Execution;
 use datafusion_expr::{CreateExternalTable, Expr, TableProviderFilterPushDown, TableType};
@@ -189,6 +191,10 @@ impl TableProvider for HudiDataSource {
             .get_file_slices_splits(self.get_input_partitions(), &pushdown_filters.as_strs())
             .await
             .map_err(|e| Execution(format!("Failed to get file slices from Hudi table: {}", e)))?;
+        if file_slices.is_empty() {
+            let projected_schema = project_schema(&self.schema(), projection)?;
+            return Ok(Arc::new(EmptyExec::new(projected_schema)));
+        }
         let base_url = self.table.base_url();
         let mut parquet_file_groups: Vec<Vec<PartitionedFile>> = Vec::new();
         for file_slice_vec in file_slices {
-- 
2.43.0


From 232b57609677fc79875e1e2d667e4d068c2fb22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 37/48] fix: Scan files whose path has special characters

---
 crates/core/src/storage/util.rs | 6 ++++++
 crates/datafusion/src/lib.rs    | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/storage/util.rs b/crates/core/src/storage/util.rs
index b26e865..e1b001f 100644
--- a/crates/core/src/storage/util.rs
+++ b/crates/core/src/storage/util.rs
@@ -18,6 +18,7 @@
  */
 
 //! Utility functions for storage.
+use object_store::path::Path as ObjPath;
 use url::Url;
 
 use crate::storage::error::StorageError::{InvalidPath, UrlParseError};
@@ -43,6 +44,11 @@ pub fn get_scheme_authority(url: &Url) -> String {
     format!("{}://{}", url.scheme(), url.authority())
 }
 
+/// Returns the path of the object in its store that a URL points to.
+pub fn get_object_path(url: &Url) -> Result<ObjPath> {
+    Ok(ObjPath::from_url_path(url.path())?)
+}
+
 /// Joins a base URL with a list of segments.
 pub fn join_url_segments(base_url: &Url, segments: &[&str]) -> Result<Url> {
     let mut url = base_url.clone();
diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index ea420d3..1415cdb 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -47,7 +47,7 @@ use datafusion_physical_expr::create_physical_expr;
 use crate::util::expr::exprs_to_filters;
 use hudi_core::config::read::HudiReadConfig::InputPartitions;
 use hudi_core::config::util::empty_options;
-use hudi_core::storage::util::{get_scheme_authority, join_url_segments};
+use hudi_core::storage::util::{get_object_path, get_scheme_authority, join_url_segments};
 use hudi_core::table::Table as HudiTable;
 use hudi_core::util::StrTupleRef;
 
@@ -208,7 +208,10 @@ impl TableProvider for HudiDataSource {
                 let url = join_url_segments(&base_url, &[relative_path.as_str()])
                     .map_err(|e| Execution(format!("Failed to join URL segments: {e:?}")))?;
                 let size = f.base_file.file_metadata.as_ref().map_or(0, |m| m.size);
-                let partitioned_file = PartitionedFile::new(url.path(), size as u64);
+                let mut partitioned_file = PartitionedFile::new(url.path(), size as u64);
+                // A URL's path is percent-encoded, which a new file would encode again.
+                partitioned_file.object_meta.location = get_object_path(&url)
+                    .map_err(|e| Execution(format!("Failed to get object path: {e:?}")))?;
                 parquet_file_group_vec.push(partitioned_file);
             }
             parquet_file_groups.push(parquet_file_group_vec)
-- 
2.43.0


From 3d89b6be10e2a65fca86d78a04177877bba2169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 38/48] fix: pass storage options given in upper case on to the
 object store

---
 crates/core/src/storage/mod.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/storage/mod.rs b/crates/core/src/storage/mod.rs
index ce7695b..2b43007 100644
--- a/crates/core/src/storage/mod.rs
+++ b/crates/core/src/storage/mod.rs
@@ -73,7 +73,7 @@ impl Storage {
             }
         };
 
-        match parse_url_opts(&base_url, options.as_ref()) {
+        match parse_url_opts(&base_url, Self::object_store_options(&options)) {
             Ok((object_store, _)) => Ok(Arc::new(Storage {
                 base_url: Arc::new(base_url),
                 object_store: Arc::new(object_store),
@@ -84,6 +84,24 @@ impl Storage {
         }
     }
 
+    /// Get the options with those for cloud storage in lowercase, as `object_store` only picks up
+    /// lowercase keys. An option given in both cases takes the value of the lowercase key.
+    fn object_store_options(
+        options: &HashMap<String, String>,
+    ) -> impl Iterator<Item = (String, &String)> {
+        options.iter().filter_map(|(key, value)| {
+            if Self::CLOUD_STORAGE_PREFIXES
+                .iter()
+                .any(|prefix| key.starts_with(prefix))
+            {
+                let key = key.to_ascii_lowercase();
+                (!options.contains_key(&key)).then_some((key, value))
+            } else {
+                Some((key.clone(), value))
+            }
+        })
+    }
+
     #[cfg(test)]
     pub fn new_with_base_url(base_url: Url) -> Result<Arc<Storage>> {
         let mut hudi_options = HashMap::new();
-- 
2.43.0


From a2f88932f82a01020dc9c9539540983f2b539f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 39/48] fix: read the global configs from the local file system
 for remote tables

---
 crates/core/src/table/builder.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 3401567..ff3e329 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -190,13 +190,13 @@ impl TableBuilder {
         )?;
 
         let hudi_options = &mut self.hudi_options;
-        Self::imbue_table_properties(hudi_options, storage.clone()).await?;
+        Self::imbue_table_properties(hudi_options, storage).await?;
 
         // TODO support imbuing Hudi options from env vars HOODIE_ENV.*
         // (see https://hudi.apache.org/docs/next/s3_hoodie)
         // before loading global configs
 
-        Self::imbue_global_hudi_configs_if_absent(hudi_options, storage.clone()).await
+        Self::imbue_global_hudi_configs_if_absent(hudi_options)
     }
 
     async fn imbue_table_properties(
@@ -215,20 +215,15 @@ impl TableBuilder {
         Ok(())
     }
 
-    async fn imbue_global_hudi_configs_if_absent(
-        options: &mut HashMap<String, String>,
-        storage: Arc<Storage>,
-    ) -> Result<()> {
+    fn imbue_global_hudi_configs_if_absent(options: &mut HashMap<String, String>) -> Result<()> {
         let global_config_path = env::var(HUDI_CONF_DIR)
             .map(PathBuf::from)
             .unwrap_or_else(|_| PathBuf::from("/etc/hudi/conf"))
             .join("hudi-defaults.conf");
 
-        if let Ok(bytes) = storage
-            .get_file_data_from_absolute_path(global_config_path.to_str().unwrap())
-            .await
-        {
-            if let Ok(global_configs) = parse_data_for_options(&bytes, " \t=") {
+        // the global configs are in the local file system, wherever the table is stored
+        if let Ok(bytes) = std::fs::read(global_config_path) {
+            if let Ok(global_configs) = parse_data_for_options(&bytes.into(), " \t=") {
                 for (key, value) in global_configs {
                     if key.starts_with("hoodie.") && !options.contains_key(&key) {
                         options.insert(key.to_string(), value.to_string());
-- 
2.43.0


From 88eb42954ba27833909a4c6fcd8867078e8e1814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 40/48] fix: read tables with base files of several attempts of
 an ongoing write

---
 crates/core/src/table/listing.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index a80b937..bb548e4 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -81,11 +81,17 @@ impl FileLister {
                 // After excluding the unintended files,
                 // we expect a file that has the base file extension to be a valid base file.
                 let base_file = BaseFile::try_from(file_metadata)?;
-                let file_id = &base_file.file_id;
-                file_id_to_base_files
-                    .entry(file_id.to_owned())
-                    .or_default()
-                    .push(base_file);
+                let base_files = file_id_to_base_files
+                    .entry(base_file.file_id.clone())
+                    .or_default();
+                // The attempts of a retried task leave a file each until the write is completed.
+                match base_files
+                    .iter_mut()
+                    .find(|f| f.commit_timestamp == base_file.commit_timestamp)
+                {
+                    Some(existing) => *existing = base_file,
+                    None => base_files.push(base_file),
+                }
             } else {
                 match LogFile::try_from(file_metadata) {
                     Ok(log_file) => {
-- 
2.43.0


From 81e7f7cb9aa1c4930529bc0fa702d61f41824b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 41/48] fix: read log files whose base file is not there with
 the file slice before

---
 crates/core/src/table/fs_view.rs | 18 +++++++++++++++---
 crates/core/src/table/listing.rs | 11 +++++++++--
 python/src/internal.rs           | 32 +++++++++-----------------------
 3 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index 9a51a58..ab8841a 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -67,9 +67,21 @@ impl FileSystemView {
     fn remove_uncommitted_file_slices(&self, file_groups: &mut [FileGroup]) {
         if let Some(commits) = &self.active_commits {
             for fg in file_groups.iter_mut() {
-                // A base file of a pending compaction is kept if log files were added on top of it.
-                fg.file_slices
-                    .retain(|t, fsl| fsl.has_log_file() || commits.is_committed(t));
+                let uncommitted: Vec<String> = fg
+                    .file_slices
+                    .keys()
+                    .filter(|t| !commits.is_committed(t))
+                    .cloned()
+                    .collect();
+                for t in uncommitted {
+                    let Some(removed) = fg.file_slices.remove(&t) else {
+                        continue;
+                    };
+                    // Log files added on top of a pending compaction add to what it compacts.
+                    if let Some(previous) = fg.get_file_slice_mut_as_of(&t) {
+                        previous.log_files.extend(removed.log_files);
+                    }
+                }
             }
         }
     }
diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index bb548e4..1902538 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -120,8 +120,15 @@ impl FileLister {
 
             file_group.add_base_files(base_files)?;
 
-            let log_files = file_id_to_log_files.remove(&file_id).unwrap_or_default();
-            file_group.add_log_files(log_files)?;
+            // The base file of a log file may not be there, as that of a pending compaction or one
+            // that an ongoing clean or rollback deleted: the log file then adds to what is before.
+            for log_file in file_id_to_log_files.remove(&file_id).unwrap_or_default() {
+                if let Some(file_slice) =
+                    file_group.get_file_slice_mut_as_of(&log_file.base_commit_timestamp)
+                {
+                    file_slice.log_files.insert(log_file);
+                }
+            }
 
             file_groups.push(file_group);
         }
diff --git a/python/src/internal.rs b/python/src/internal.rs
index 86c50e0..e2ed3cc 100644
--- a/python/src/internal.rs
+++ b/python/src/internal.rs
@@ -21,13 +21,15 @@ use arrow::pyarrow::ToPyArrow;
 use std::collections::HashMap;
 use std::convert::From;
 use std::path::PathBuf;
+use std::str::FromStr;
 use std::sync::OnceLock;
 use tokio::runtime::Runtime;
 
 use hudi::error::CoreError;
+use hudi::file_group::base_file::BaseFile;
 use hudi::file_group::file_slice::FileSlice;
+use hudi::file_group::log_file::LogFile;
 use hudi::file_group::reader::FileGroupReader;
-use hudi::file_group::FileGroup;
 use hudi::storage::error::StorageError;
 use hudi::table::builder::TableBuilder;
 use hudi::table::Table;
@@ -86,30 +88,14 @@ impl HudiFileGroupReader {
             .to_pyarrow(py)
     }
     fn read_file_slice(&self, file_slice: &HudiFileSlice, py: Python) -> PyResult<PyObject> {
-        let mut file_group = FileGroup::new(
-            file_slice.file_id.clone(),
-            file_slice.partition_path.clone(),
-        );
-        file_group
-            .add_base_file_from_name(&file_slice.base_file_name)
-            .map_err(PythonError::from)?;
+        let base_file =
+            BaseFile::from_str(&file_slice.base_file_name).map_err(PythonError::from)?;
+        let mut inner_file_slice = FileSlice::new(base_file, file_slice.partition_path.clone());
         for name in file_slice.log_file_names.iter() {
-            file_group
-                .add_log_file_from_name(name)
-                .map_err(PythonError::from)?;
+            let log_file = LogFile::from_str(name).map_err(PythonError::from)?;
+            inner_file_slice.log_files.insert(log_file);
         }
-        let (_, inner_file_slice) = file_group
-            .file_slices
-            .iter()
-            .next()
-            .ok_or_else(|| {
-                CoreError::FileGroup(format!(
-                    "Failed to get file slice from file group: {:?}",
-                    file_group
-                ))
-            })
-            .map_err(PythonError::from)?;
-        rt().block_on(self.inner.read_file_slice(inner_file_slice))
+        rt().block_on(self.inner.read_file_slice(&inner_file_slice))
             .map_err(PythonError::from)?
             .to_pyarrow(py)
     }
-- 
2.43.0


From 8ee4a26b7a26eebedab6c4263d3fc21feb096bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 42/48] fix: resolve the schema when log files were written
 upon a pending compaction

---
 crates/core/src/timeline/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index ce2ca3c..d9987a9 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -364,6 +364,8 @@ impl Timeline {
                 // TODO: properly handle deltacommit
                 let base_file = first_value
                     .and_then(|v| v["baseFile"].as_str())
+                    // There is no base file below the log files of a pending compaction.
+                    .filter(|f| !f.is_empty())
                     .ok_or_else(|| {
                         CoreError::CommitMetadata(
                             "Failed to resolve the latest schema: no file path found".to_string(),
-- 
2.43.0


From 93884242b43e0bba16b2e2fcfa18c136f63273b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 43/48] fix: compare requested times in seconds with instants
 in milliseconds as times

---
 crates/core/src/file_group/reader.rs |  7 +++++--
 crates/core/src/table/mod.rs         |  3 +++
 crates/core/src/timeline/instant.rs  | 11 +++++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index bc13e78..aaf12d1 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -27,6 +27,7 @@ use crate::file_group::log_file::scanner::LogFileScanner;
 use crate::merge::record_merger::RecordMerger;
 use crate::metadata::meta_field::MetaField;
 use crate::storage::Storage;
+use crate::timeline::instant::Instant;
 use crate::timeline::selector::InstantRange;
 use crate::timeline::ActiveCommits;
 use crate::Result;
@@ -115,8 +116,9 @@ impl FileGroupReader {
             .try_get(HudiReadConfig::FileGroupStartTimestamp)
             .map(|v| v.to::<String>())
         {
+            let start = Instant::with_milliseconds(&start);
             let filter: Filter =
-                Filter::try_from((MetaField::CommitTime.as_ref(), ">", start.as_str()))?;
+                Filter::try_from((MetaField::CommitTime.as_ref(), ">", start.as_ref()))?;
             let filter = SchemableFilter::try_from((filter, schema.as_ref()))?;
             and_filters.push(filter);
         } else {
@@ -131,7 +133,8 @@ impl FileGroupReader {
             .try_get(HudiReadConfig::FileGroupEndTimestamp)
             .map(|v| v.to::<String>())
         {
-            let filter = Filter::try_from((MetaField::CommitTime.as_ref(), "<=", end.as_str()))?;
+            let end = Instant::with_milliseconds(&end);
+            let filter = Filter::try_from((MetaField::CommitTime.as_ref(), "<=", end.as_ref()))?;
             let filter = SchemableFilter::try_from((filter, schema.as_ref()))?;
             and_filters.push(filter);
         }
diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 87ffc35..ac736f1 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -99,6 +99,7 @@ use crate::file_group::reader::FileGroupReader;
 use crate::table::builder::TableBuilder;
 use crate::table::fs_view::FileSystemView;
 use crate::table::partition::PartitionPruner;
+use crate::timeline::instant::Instant;
 use crate::timeline::{Timeline, EARLIEST_START_TIMESTAMP};
 use crate::Result;
 
@@ -320,6 +321,7 @@ impl Table {
         timestamp: &str,
         filters: &[Filter],
     ) -> Result<Vec<FileSlice>> {
+        let timestamp = &Instant::with_milliseconds(timestamp);
         let excludes = self
             .timeline
             .get_replaced_file_groups_as_of(timestamp)
@@ -363,6 +365,7 @@ impl Table {
         start_timestamp: &str,
         end_timestamp: &str,
     ) -> Result<Vec<FileSlice>> {
+        let end_timestamp = &Instant::with_milliseconds(end_timestamp);
         let mut file_slices: Vec<FileSlice> = Vec::new();
         let file_groups = self
             .timeline
diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 08201ac..c54a66a 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -22,6 +22,7 @@ use crate::metadata::HUDI_METADATA_DIR;
 use crate::storage::error::StorageError;
 use crate::Result;
 use chrono::{DateTime, Local, NaiveDateTime, TimeDelta, TimeZone, Timelike, Utc};
+use std::borrow::Cow;
 use std::cmp::Ordering;
 use std::path::PathBuf;
 use std::str::FromStr;
@@ -162,6 +163,16 @@ impl Instant {
         Self::convert_to_timezone(naive_dt, timezone)
     }
 
+    /// Add milliseconds to a timestamp in seconds, so that comparing it as text with those of
+    /// instants and records gives the same as comparing the times.
+    pub(crate) fn with_milliseconds(timestamp: &str) -> Cow<'_, str> {
+        if timestamp.len() == 14 {
+            Cow::Owned(format!("{timestamp}000"))
+        } else {
+            Cow::Borrowed(timestamp)
+        }
+    }
+
     fn parse_naive_datetime(timestamp: &str) -> Result<NaiveDateTime> {
         if timestamp.len() < 14 || !timestamp.bytes().all(|b| b.is_ascii_digit()) {
             return Err(CoreError::Timeline(format!(
-- 
2.43.0


From 0ead6165721767c0415253dd3c1f1ec347f6b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 44/48] fix: list partitions named like the metadata
 directories of other lake formats

---
 crates/core/src/table/listing.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 1902538..50dd097 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -23,7 +23,7 @@ use crate::error::CoreError;
 use crate::file_group::base_file::BaseFile;
 use crate::file_group::log_file::LogFile;
 use crate::file_group::FileGroup;
-use crate::metadata::LAKE_FORMAT_METADATA_DIRS;
+use crate::metadata::{HUDI_METADATA_DIR, LAKE_FORMAT_METADATA_DIRS};
 use crate::storage::{get_leaf_dirs, Storage};
 use crate::table::partition::{
     is_table_partitioned, PartitionPruner, EMPTY_PARTITION_PATH, PARTITION_METAFIELD_PREFIX,
@@ -135,6 +135,13 @@ impl FileLister {
         Ok(file_groups)
     }
 
+    async fn has_partition_metadata(&self, path: &str) -> Result<bool> {
+        let files = self.storage.list_files(Some(path)).await?;
+        Ok(files
+            .iter()
+            .any(|f| f.name.starts_with(PARTITION_METAFIELD_PREFIX)))
+    }
+
     async fn list_relevant_partition_paths(&self) -> Result<Vec<String>> {
         if !is_table_partitioned(&self.hudi_configs) {
             return Ok(vec![EMPTY_PARTITION_PATH.to_string()]);
@@ -145,12 +152,18 @@ impl FileLister {
             .list_dirs(None)
             .await?
             .into_iter()
-            .filter(|dir| !LAKE_FORMAT_METADATA_DIRS.contains(&dir.as_str()))
+            .filter(|dir| dir != HUDI_METADATA_DIR)
             .collect();
 
         let mut partition_paths = Vec::new();
         for dir in top_level_dirs {
-            partition_paths.extend(get_leaf_dirs(&self.storage, Some(&dir)).await?);
+            let may_be_metadata = LAKE_FORMAT_METADATA_DIRS.contains(&dir.as_str());
+            for leaf_dir in get_leaf_dirs(&self.storage, Some(&dir)).await? {
+                // A partition may have the name of the metadata directory of another lake format.
+                if !may_be_metadata || self.has_partition_metadata(&leaf_dir).await? {
+                    partition_paths.push(leaf_dir);
+                }
+            }
         }
 
         if partition_paths.is_empty() || self.partition_pruner.is_empty() {
-- 
2.43.0


From e2d821a6703f15d8e60cafd7d11137918954a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 45/48] fix: resolve the escapes in the table properties

---
 crates/core/src/config/util.rs   | 31 +++++++++++++++++++++++++++++++
 crates/core/src/table/builder.rs |  6 ++++--
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/config/util.rs b/crates/core/src/config/util.rs
index 3c0f8f9..3bd64f6 100644
--- a/crates/core/src/config/util.rs
+++ b/crates/core/src/config/util.rs
@@ -87,6 +87,37 @@ pub fn parse_data_for_options(data: &Bytes, split_chars: &str) -> Result<HashMap
     Ok(options)
 }
 
+/// Resolves the escapes in a key or value of a properties file, as written by Java.
+pub(crate) fn unescape_property(text: &str) -> String {
+    let mut utf16: Vec<u16> = Vec::with_capacity(text.len());
+    let mut rest = text;
+    while let Some(c) = rest.chars().next() {
+        rest = &rest[c.len_utf8()..];
+        if c != '\\' {
+            utf16.extend(c.encode_utf16(&mut [0; 2]).iter());
+            continue;
+        }
+        let Some(escaped) = rest.chars().next() else {
+            break;
+        };
+        let unit = rest.get(1..5).and_then(|h| u16::from_str_radix(h, 16).ok());
+        match (escaped, unit) {
+            ('u', Some(unit)) => {
+                utf16.push(unit);
+                rest = &rest[5..];
+                continue;
+            }
+            ('t', _) => utf16.push(0x09),
+            ('n', _) => utf16.push(0x0a),
+            ('f', _) => utf16.push(0x0c),
+            ('r', _) => utf16.push(0x0d),
+            _ => utf16.extend(escaped.encode_utf16(&mut [0; 2]).iter()),
+        }
+        rest = &rest[escaped.len_utf8()..];
+    }
+    String::from_utf16_lossy(&utf16)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index ff3e329..b720cfd 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -31,7 +31,9 @@ use crate::config::table::HudiTableConfig;
 use crate::config::table::HudiTableConfig::{
     DropsPartitionFields, TableVersion, TimelineLayoutVersion,
 };
-use crate::config::util::{parse_data_for_options, split_hudi_options_from_others};
+use crate::config::util::{
+    parse_data_for_options, split_hudi_options_from_others, unescape_property,
+};
 use crate::config::{HudiConfigs, HUDI_CONF_DIR};
 use crate::error::CoreError;
 use crate::merge::record_merger::RecordMerger;
@@ -209,7 +211,7 @@ impl TableBuilder {
         // We currently treat all table properties as the highest precedence, which is valid for most cases.
         // TODO: handle the case where the same key is present in both table properties and options
         for (k, v) in table_properties {
-            options.insert(k.to_string(), v.to_string());
+            options.insert(unescape_property(&k), unescape_property(&v));
         }
 
         Ok(())
-- 
2.43.0


From 438d48a99e0b9f6cd2c91adec76a0602fa4b781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 46/48] fix: prune partitions of null values by the other and
 by all filters

A partition path with the default partition for a column that is not text could not be parsed, and the whole partition was included
whatever the filters.
---
 crates/core/src/table/partition.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index a192906..3238d8c 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -22,8 +22,8 @@ use crate::error::CoreError::InvalidPartitionPath;
 use crate::expr::filter::{Filter, SchemableFilter};
 use crate::Result;
 
-use arrow_array::{ArrayRef, Scalar};
-use arrow_schema::Schema;
+use arrow_array::{new_null_array, Array, ArrayRef, Scalar};
+use arrow_schema::{DataType, Schema};
 
 use crate::config::table::HudiTableConfig::{KeyGeneratorClass, PartitionFields};
 use std::collections::HashMap;
@@ -31,6 +31,8 @@ use std::sync::Arc;
 
 pub const PARTITION_METAFIELD_PREFIX: &str = ".hoodie_partition_metadata";
 pub const EMPTY_PARTITION_PATH: &str = "";
+/// The partition path for null values and empty text.
+pub const DEFAULT_PARTITION_PATH: &str = "__HIVE_DEFAULT_PARTITION__";
 
 pub fn is_table_partitioned(hudi_configs: &HudiConfigs) -> bool {
     let has_partition_fields = !hudi_configs
@@ -48,6 +50,14 @@ pub fn is_table_partitioned(hudi_configs: &HudiConfigs) -> bool {
     has_partition_fields && !uses_non_partitioned_key_gen
 }
 
+/// Whether the default partition path can stand for a value of the type other than null.
+fn is_text(data_type: &DataType) -> bool {
+    matches!(
+        data_type,
+        DataType::Utf8 | DataType::LargeUtf8 | DataType::Utf8View
+    )
+}
+
 /// A partition pruner that filters partitions based on the partition path and its filters.
 #[derive(Debug, Clone)]
 pub struct PartitionPruner {
@@ -111,7 +121,8 @@ impl PartitionPruner {
             match segments.get(filter.field.name()) {
                 Some(segment_value) => {
                     match filter.apply_comparsion(segment_value) {
-                        Ok(scalar) => scalar.value(0),
+                        // Comparing with null is null, which does not include the partition.
+                        Ok(scalar) => scalar.is_valid(0) && scalar.value(0),
                         Err(_) => true, // Include the partition when comparison error occurs
                     }
                 }
@@ -168,7 +179,11 @@ impl PartitionPruner {
                 } else {
                     part.as_str()
                 };
-                let scalar = SchemableFilter::cast_value(&[value], field.data_type())?;
+                let scalar = if value == DEFAULT_PARTITION_PATH && !is_text(field.data_type()) {
+                    Scalar::new(new_null_array(field.data_type(), 1))
+                } else {
+                    SchemableFilter::cast_value(&[value], field.data_type())?
+                };
                 Ok((field.name().to_string(), scalar))
             })
             .collect()
-- 
2.43.0


From 375d80fa2d05faf06d16ca3650c90eaf39082d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 47/48] fix: take storage options from CREATE EXTERNAL TABLE
 statements

---
 crates/datafusion/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 1415cdb..e15d0eb 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -314,8 +314,12 @@ impl HudiTableFactory {
             })
             .collect();
 
-        // options from the command take precedence
-        options.extend(cmd.options.iter().map(|(k, v)| (k.clone(), v.clone())));
+        // options from the command take precedence; the SQL planner prefixed those without a
+        // namespace, such as those of the storage
+        options.extend(cmd.options.iter().map(|(k, v)| {
+            let key = k.strip_prefix("format.").unwrap_or(k);
+            (key.to_string(), v.clone())
+        }));
 
         Ok(options)
     }
-- 
2.43.0


From 616d111a4699a1d4a81c85e9d896015f27c5d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 48/48] fix: get the schema when creating a table provider

Getting it with each call of schema() blocked the runtime, whose connections to
a remote store then stalled, and a failed request made the table have no columns.
---
 crates/datafusion/src/lib.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index e15d0eb..e63b47e 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -23,7 +23,6 @@ use std::any::Any;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::Arc;
-use std::thread;
 
 use arrow_schema::{Schema, SchemaRef};
 use async_trait::async_trait;
@@ -47,6 +46,7 @@ use datafusion_physical_expr::create_physical_expr;
 use crate::util::expr::exprs_to_filters;
 use hudi_core::config::read::HudiReadConfig::InputPartitions;
 use hudi_core::config::util::empty_options;
+use hudi_core::error::CoreError;
 use hudi_core::storage::util::{get_object_path, get_scheme_authority, join_url_segments};
 use hudi_core::table::Table as HudiTable;
 use hudi_core::util::StrTupleRef;
@@ -80,6 +80,7 @@ use hudi_core::util::StrTupleRef;
 #[derive(Clone, Debug)]
 pub struct HudiDataSource {
     table: Arc<HudiTable>,
+    schema: SchemaRef,
 }
 
 impl HudiDataSource {
@@ -93,10 +94,24 @@ impl HudiDataSource {
         K: AsRef<str>,
         V: Into<String>,
     {
-        match HudiTable::new_with_options(base_uri, options).await {
-            Ok(t) => Ok(Self { table: Arc::new(t) }),
-            Err(e) => Err(Execution(format!("Failed to create Hudi table: {}", e))),
-        }
+        let table = HudiTable::new_with_options(base_uri, options)
+            .await
+            .map_err(|e| Execution(format!("Failed to create Hudi table: {}", e)))?;
+        let schema = match table.get_schema().await {
+            Ok(schema) => schema,
+            // No commit tells the schema of an empty table.
+            Err(CoreError::CommitMetadata(_)) => Schema::empty(),
+            Err(e) => {
+                return Err(Execution(format!(
+                    "Failed to get the schema of Hudi table: {}",
+                    e
+                )))
+            }
+        };
+        Ok(Self {
+            table: Arc::new(table),
+            schema: SchemaRef::from(schema),
+        })
     }
 
     fn get_input_partitions(&self) -> usize {
@@ -155,13 +170,7 @@ impl TableProvider for HudiDataSource {
     }
 
     fn schema(&self) -> SchemaRef {
-        let table = self.table.clone();
-        let handle = thread::spawn(move || {
-            let rt = tokio::runtime::Runtime::new().unwrap();
-            rt.block_on(async { table.get_schema().await })
-        });
-        let result = handle.join().unwrap().unwrap_or_else(|_| Schema::empty());
-        SchemaRef::from(result)
+        self.schema.clone()
     }
 
     fn table_type(&self) -> TableType {
-- 
2.43.0

