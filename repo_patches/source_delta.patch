From 1a7f7c1065858633916b867d97b861c1b50ca56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:38 +0000
Subject: [PATCH 01/15] fix: release memtable slots used by empty or rejected
 batches when nothing is indexed

---
 src/inmem/mutable/memtable.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 654e707..46f2850 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -295,6 +295,16 @@ impl DynMemInner {
         extractor: &dyn KeyProjection,
     ) -> Result<Option<ImmutableMemTable>, KeyExtractError> {
         if self.index.is_empty() {
+            // Empty or rejected batches may have used up slots without indexing a row;
+            // release them so that a later insert finds room.
+            self.batch_slots = (0..self.batch_slots.len())
+                .map(|_| OnceLock::new())
+                .collect();
+            self.batch_cursor.store(0, Ordering::SeqCst);
+            self.delete_slots = (0..self.delete_slots.len())
+                .map(|_| OnceLock::new())
+                .collect();
+            self.delete_cursor.store(0, Ordering::SeqCst);
             return Ok(None);
         }
 
-- 
2.43.0


From c647747bb240099d7fe521ebe973e9a02f7be38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:11 +0000
Subject: [PATCH 02/15] fix: order NaN key components after every number so
 float keys are totally ordered

---
 src/key/row.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/key/row.rs b/src/key/row.rs
index 30b7c10..c03f1d6 100644
--- a/src/key/row.rs
+++ b/src/key/row.rs
@@ -323,11 +323,15 @@ fn floats_equal_f64(lhs: f64, rhs: f64) -> bool {
 }
 
 fn floats_cmp_f32(lhs: f32, rhs: f32) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    // NaN equals NaN and sorts after every number, so the order stays total.
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn floats_cmp_f64(lhs: f64, rhs: f64) -> Ordering {
-    lhs.partial_cmp(&rhs).unwrap_or(Ordering::Equal)
+    // NaN equals NaN and sorts after every number, so the order stays total.
+    lhs.partial_cmp(&rhs)
+        .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
 fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
-- 
2.43.0


From e114e4b486b6b5e53f321d91d48dbb890774c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:11 +0000
Subject: [PATCH 03/15] fix: hash negative and positive zero key components
 alike, as they compare equal

---
 src/key/row.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/key/row.rs b/src/key/row.rs
index c03f1d6..77ddb2b 100644
--- a/src/key/row.rs
+++ b/src/key/row.rs
@@ -337,6 +337,9 @@ fn floats_cmp_f64(lhs: f64, rhs: f64) -> Ordering {
 fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
+    } else if value == 0.0 {
+        // `-0.0 == 0.0`, so both must hash alike.
+        0f32.to_bits().hash(state);
     } else {
         value.to_bits().hash(state);
     }
@@ -345,6 +348,9 @@ fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
 fn hash_float_f64<H: Hasher>(value: f64, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
+    } else if value == 0.0 {
+        // `-0.0 == 0.0`, so both must hash alike.
+        0f64.to_bits().hash(state);
     } else {
         value.to_bits().hash(state);
     }
-- 
2.43.0


From 819e6b36ccd095d8709ba22d43d003787e578a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:28 +0000
Subject: [PATCH 04/15] fix: compare numeric key components of different widths
 by value

Predicate literals are widened to 64 bits before they become key bounds, so bounds on Int32, UInt32
and Float32 keys compared by type tag and scans with such a predicate lost every row.
---
 src/key/row.rs | 70 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 19 deletions(-)

diff --git a/src/key/row.rs b/src/key/row.rs
index 77ddb2b..6a04e6c 100644
--- a/src/key/row.rs
+++ b/src/key/row.rs
@@ -230,7 +230,13 @@ fn dyn_cells_equal(lhs: &DynCellRaw, rhs: &DynCellRaw) -> bool {
             }
             true
         }
-        _ => false,
+        _ => match (integer_value(lhs), integer_value(rhs)) {
+            (Some(a), Some(b)) => a == b,
+            _ => match (float_value(lhs), float_value(rhs)) {
+                (Some(a), Some(b)) => floats_equal_f64(a, b),
+                _ => false,
+            },
+        },
     }
 }
 
@@ -267,21 +273,32 @@ fn dyn_cells_cmp(lhs: &DynCellRaw, rhs: &DynCellRaw) -> Ordering {
             }
             view_a.len().cmp(&view_b.len())
         }
-        _ => cell_tag(lhs).cmp(&cell_tag(rhs)),
+        _ => match (integer_value(lhs), integer_value(rhs)) {
+            (Some(a), Some(b)) => a.cmp(&b),
+            _ => match (float_value(lhs), float_value(rhs)) {
+                (Some(a), Some(b)) => floats_cmp_f64(a, b),
+                _ => cell_tag(lhs).cmp(&cell_tag(rhs)),
+            },
+        },
     }
 }
 
 fn dyn_cells_hash<H: Hasher>(cell: &DynCellRaw, state: &mut H) {
     use DynCellRaw::*;
+    // Numbers of different widths compare by value, so they must hash by value as well.
+    if let Some(value) = integer_value(cell) {
+        0x10u8.hash(state);
+        value.hash(state);
+        return;
+    }
+    if let Some(value) = float_value(cell) {
+        0x11u8.hash(state);
+        hash_float_f64(value, state);
+        return;
+    }
     cell_tag(cell).hash(state);
     match cell {
         Bool(v) => v.hash(state),
-        I32(v) => v.hash(state),
-        I64(v) => v.hash(state),
-        U32(v) => v.hash(state),
-        U64(v) => v.hash(state),
-        F32(v) => hash_float_f32(*v, state),
-        F64(v) => hash_float_f64(*v, state),
         Str { ptr, len } | Bin { ptr, len } => unsafe { hash_bytes(*ptr, *len, state) },
         Struct(raw) => {
             let view = unsafe { raw.as_view() };
@@ -334,17 +351,6 @@ fn floats_cmp_f64(lhs: f64, rhs: f64) -> Ordering {
         .unwrap_or_else(|| lhs.is_nan().cmp(&rhs.is_nan()))
 }
 
-fn hash_float_f32<H: Hasher>(value: f32, state: &mut H) {
-    if value.is_nan() {
-        0xFFu8.hash(state);
-    } else if value == 0.0 {
-        // `-0.0 == 0.0`, so both must hash alike.
-        0f32.to_bits().hash(state);
-    } else {
-        value.to_bits().hash(state);
-    }
-}
-
 fn hash_float_f64<H: Hasher>(value: f64, state: &mut H) {
     if value.is_nan() {
         0xFFu8.hash(state);
@@ -379,6 +385,32 @@ unsafe fn hash_bytes<H: Hasher>(ptr: NonNull<u8>, len: usize, state: &mut H) {
     state.write(bytes);
 }
 
+/// Value of an integer component, so that predicate literals compare with narrower or wider columns.
+fn integer_value(cell: &DynCellRaw) -> Option<i128> {
+    use DynCellRaw::*;
+    match cell {
+        I8(v) => Some(i128::from(*v)),
+        I16(v) => Some(i128::from(*v)),
+        I32(v) => Some(i128::from(*v)),
+        I64(v) => Some(i128::from(*v)),
+        U8(v) => Some(i128::from(*v)),
+        U16(v) => Some(i128::from(*v)),
+        U32(v) => Some(i128::from(*v)),
+        U64(v) => Some(i128::from(*v)),
+        _ => None,
+    }
+}
+
+/// Value of a floating point component.
+fn float_value(cell: &DynCellRaw) -> Option<f64> {
+    use DynCellRaw::*;
+    match cell {
+        F32(v) => Some(f64::from(*v)),
+        F64(v) => Some(*v),
+        _ => None,
+    }
+}
+
 fn cell_tag(cell: &DynCellRaw) -> u8 {
     use DynCellRaw::*;
     match cell {
-- 
2.43.0


From 284ca20ae015b4550a3d5d83f8031d6bc70661e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:08 +0000
Subject: [PATCH 05/15] fix: continue frame sequences past sealed segments when
 the active WAL segment is empty

---
 src/wal/writer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wal/writer.rs b/src/wal/writer.rs
index fd6d505..f815935 100644
--- a/src/wal/writer.rs
+++ b/src/wal/writer.rs
@@ -550,6 +550,12 @@ where
         let (completed_segments, active_segment, mut state_dirty) =
             Self::rehydrate_segment_metadata(&storage, &tail, state.as_ref()).await?;
 
+        // The active segment is empty when the previous run stopped right after a rotation, so
+        // also continue past the frames retained in sealed segments.
+        for sealed in &completed_segments {
+            next_frame_seq = next_frame_seq.max(sealed.bounds.last_frame.saturating_add(1));
+        }
+
         if let Some(handle) = state.as_mut()
             && Self::align_state_with_segments(handle, &completed_segments, active_segment.as_ref())
         {
-- 
2.43.0


From 90e80c33c5eb8a7a14e823af0992ae31338b3240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:08 +0000
Subject: [PATCH 06/15] fix: shrink a torn WAL segment in place instead of
 emptying and rewriting it

---
 src/wal/storage.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index 9086ffb..e673704 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -2,6 +2,8 @@
 
 use std::{io, sync::Arc};
 
+#[cfg(not(target_arch = "wasm32"))]
+use fusio::path::path_to_local;
 use fusio::{
     DynFs, Read, Write,
     dynamic::fs::DynFile,
@@ -399,6 +401,29 @@ impl WalStorage {
 
     async fn overwrite_segment(&self, path: &Path, data: Vec<u8>) -> WalResult<()> {
         let path_display = path.to_string();
+
+        // `data` is always a prefix of the segment. Shrink local files in place: emptying the file
+        // and writing the prefix back would lose durable frames if we crash in between.
+        #[cfg(not(target_arch = "wasm32"))]
+        if matches!(self.fs.file_system(), FileSystemTag::Local) {
+            let local_path = path_to_local(path).map_err(|err| {
+                WalError::Storage(format!("failed to resolve wal segment path: {err}"))
+            })?;
+            return std::fs::OpenOptions::new()
+                .write(true)
+                .open(&local_path)
+                .and_then(|file| {
+                    file.set_len(data.len() as u64)?;
+                    file.sync_all()
+                })
+                .map_err(|err| {
+                    WalError::Storage(format!(
+                        "failed to truncate wal segment {}: {}",
+                        path_display, err
+                    ))
+                });
+        }
+
         let mut file = self
             .fs
             .open_options(path, OpenOptions::default().truncate(true))
-- 
2.43.0


From 7c551f22bcc9a6fe194a76016df8b91651f19f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:14 +0000
Subject: [PATCH 07/15] fix: do not repair the WAL tail while a writer may be
 appending to it

---
 src/wal/manifest_ext.rs | 17 ++++++-----------
 src/wal/storage.rs      | 40 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/wal/manifest_ext.rs b/src/wal/manifest_ext.rs
index 3950b90..4468205 100644
--- a/src/wal/manifest_ext.rs
+++ b/src/wal/manifest_ext.rs
@@ -23,7 +23,8 @@ pub(crate) async fn collect_wal_segment_refs(
         .await?
         .and_then(|handle| handle.state().last_segment_seq);
 
-    let Some(tail) = storage.tail_metadata_with_hint(wal_state_hint).await? else {
+    // The writer may be appending to the active segment, so look at the tail without repairing it.
+    let Some(tail) = storage.peek_tail_with_hint(wal_state_hint).await? else {
         return Ok(Vec::new());
     };
 
@@ -45,16 +46,10 @@ pub(crate) async fn collect_wal_segment_refs(
         }
     }
 
-    if tail.active.bytes > 0 {
-        let bounds = storage
-            .segment_frame_bounds(&tail.active.path)
-            .await?
-            .ok_or({
-                WalError::Corrupt("active wal segment contained no frames despite non-zero length")
-            })?;
-        if segment_required(tail.active.seq, &bounds, manifest_cutoff, live_frame_floor) {
-            refs.push(wal_segment_ref_from_descriptor(&tail.active, bounds));
-        }
+    if let Some(bounds) = tail.active_bounds
+        && segment_required(tail.active.seq, &bounds, manifest_cutoff, live_frame_floor)
+    {
+        refs.push(wal_segment_ref_from_descriptor(&tail.active, bounds));
     }
 
     // Note: We intentionally don't re-add the old floor when refs is empty.
diff --git a/src/wal/storage.rs b/src/wal/storage.rs
index e673704..c298ae0 100644
--- a/src/wal/storage.rs
+++ b/src/wal/storage.rs
@@ -260,9 +260,29 @@ impl WalStorage {
     }
 
     /// Inspect the WAL tail while hinting at the highest expected sealed segment.
+    ///
+    /// A torn tail is cut off, so this must only run before a writer appends to the segment.
     pub(crate) async fn tail_metadata_with_hint(
         &self,
         wal_state_hint: Option<u64>,
+    ) -> WalResult<Option<TailMetadata>> {
+        self.read_tail(wal_state_hint, true).await
+    }
+
+    /// Inspect the WAL tail without modifying it.
+    ///
+    /// An incomplete frame at the end, such as one a live writer is still appending, is ignored.
+    pub(crate) async fn peek_tail_with_hint(
+        &self,
+        wal_state_hint: Option<u64>,
+    ) -> WalResult<Option<TailMetadata>> {
+        self.read_tail(wal_state_hint, false).await
+    }
+
+    async fn read_tail(
+        &self,
+        wal_state_hint: Option<u64>,
+        repair: bool,
     ) -> WalResult<Option<TailMetadata>> {
         let mut segments = self.list_segments_with_hint(wal_state_hint).await?;
         if segments.is_empty() {
@@ -272,6 +292,7 @@ impl WalStorage {
         let mut active = segments.pop().expect("segments.pop matches prior is_empty");
         let completed = segments;
         let TailScan {
+            first_seq,
             last,
             file_len,
             truncated,
@@ -301,14 +322,25 @@ impl WalStorage {
             } else if preserved.len() < safe_len {
                 preserved.resize(safe_len, 0);
             }
-            self.overwrite_segment(&active.path, preserved).await?;
+            if repair {
+                self.overwrite_segment(&active.path, preserved).await?;
+            }
             active.bytes = safe_len;
         } else {
             active.bytes = file_len;
         }
 
+        let active_bounds =
+            first_seq
+                .zip(last_frame_seq)
+                .map(|(first_seq, last_seq)| SegmentFrameBounds {
+                    first_seq,
+                    last_seq,
+                });
+
         Ok(Some(TailMetadata {
             active,
+            active_bounds,
             completed,
             last_frame_seq,
             last_provisional_id,
@@ -336,6 +368,7 @@ impl WalStorage {
 
         let file_len = data.len();
         let mut offset = 0usize;
+        let mut first_seq = None;
         let mut last = None;
         let mut truncated = false;
         while offset < data.len() {
@@ -373,6 +406,7 @@ impl WalStorage {
                 _ => None,
             };
 
+            first_seq.get_or_insert(header.seq);
             last = Some(FrameTailMeta {
                 seq: header.seq,
                 provisional_id,
@@ -392,6 +426,7 @@ impl WalStorage {
         let buffer = if truncated { Some(data) } else { None };
 
         Ok(TailScan {
+            first_seq,
             last,
             file_len,
             truncated,
@@ -490,6 +525,7 @@ struct FrameTailMeta {
 }
 
 struct TailScan {
+    first_seq: Option<u64>,
     last: Option<FrameTailMeta>,
     file_len: usize,
     truncated: bool,
@@ -547,6 +583,8 @@ pub(crate) struct SegmentFrameBounds {
 pub(crate) struct TailMetadata {
     /// Active segment that new frames will append to.
     pub(super) active: SegmentDescriptor,
+    /// Frame bounds of the complete frames in the active segment (if any).
+    pub(super) active_bounds: Option<SegmentFrameBounds>,
     /// Completed segments ordered from oldest to newest.
     pub(super) completed: Vec<SegmentDescriptor>,
     /// Sequence of the last fully decoded frame (if any).
-- 
2.43.0


From 8b55ac659b87255e7bde9c82c48a1e391877d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:19 +0000
Subject: [PATCH 08/15] fix: keep the highest commit timestamp in the WAL state
 when commits arrive out of order

---
 src/wal/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wal/state.rs b/src/wal/state.rs
index 4197b68..891b402 100644
--- a/src/wal/state.rs
+++ b/src/wal/state.rs
@@ -44,7 +44,8 @@ impl WalState {
     /// Record the latest durable commit timestamp.
     #[inline]
     pub(crate) fn set_commit_ts(&mut self, ts: Timestamp) {
-        self.last_commit_ts = Some(ts.get());
+        // Concurrent commits may reach the log in another order than their timestamps.
+        self.last_commit_ts = self.last_commit_ts.max(Some(ts.get()));
     }
 
     /// Update the tracked frame sequence.
-- 
2.43.0


From fe89b62139788cc9a36ef967257db3865856d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 09/15] fix: end the manifest session before returning an error

apply_version_edits left its write session open when an edit was rejected, and
snapshot_latest left its read session open when the table has no head. The
session lease then stayed behind until its TTL ran out (and the session's drop
check panics in debug builds).
---
 src/manifest/driver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/manifest/driver.rs b/src/manifest/driver.rs
index 3fb9dd6..094ad9d 100644
--- a/src/manifest/driver.rs
+++ b/src/manifest/driver.rs
@@ -244,7 +244,10 @@ where
             VersionState::empty(table)
         };
 
-        state.apply_edits(edits)?;
+        if let Err(err) = state.apply_edits(edits) {
+            session.end().await?;
+            return Err(err);
+        }
 
         // Update table version and commit timestamp
         let next_txn = state.commit_timestamp().next();
@@ -298,6 +301,7 @@ where
                 TableHead::try_from(value)?
             }
             None => {
+                session.end().await?;
                 return Err(ManifestError::Invariant(
                     "Head cannot be empty for snapshot",
                 ));
-- 
2.43.0


From c546ca786a3a5daaf82939ae1565981e94661d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:56 +0000
Subject: [PATCH 10/15] fix: reject null-key batches before taking a slot of
 the active table

A batch whose keys cannot be projected (a null key component) took a slot of
the active table although no row was indexed, and on a full table sealed it
first and then dropped the sealed table with the error.  Project the keys
before reserving a slot.
---
 src/inmem/mutable/memtable.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/inmem/mutable/memtable.rs b/src/inmem/mutable/memtable.rs
index 46f2850..ee4c709 100644
--- a/src/inmem/mutable/memtable.rs
+++ b/src/inmem/mutable/memtable.rs
@@ -143,6 +143,14 @@ impl DynMemInner {
         batch: RecordBatch,
         commit_ts_column: UInt64Array,
     ) -> Result<Result<(), KeyExtractError>, ()> {
+        // Project the keys before taking a slot, so that a rejected batch neither occupies the
+        // table nor makes a full one seal.
+        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
+        let key_rows = match extractor.project_view(&batch, &row_indices) {
+            Ok(rows) => rows,
+            Err(e) => return Ok(Err(e)),
+        };
+
         // Reserve a slot atomically - no global lock needed.
         let batch_id = self.batch_cursor.fetch_add(1, Ordering::SeqCst);
         if batch_id >= self.batch_slots.len() {
@@ -160,12 +168,6 @@ impl DynMemInner {
             ))
             .expect("batch slot already initialized - invariant violated");
 
-        let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
-        let key_rows = match extractor.project_view(&batch, &row_indices) {
-            Ok(rows) => rows,
-            Err(e) => return Ok(Err(e)),
-        };
-
         for (row_idx, key_row) in key_rows.into_iter().enumerate() {
             let key_size = key_row.heap_size();
             let key_owned = key_row.to_owned();
@@ -237,13 +239,7 @@ impl DynMemInner {
             ))));
         }
 
-        // Reserve a delete slot atomically (lock-free).
-        let slot_idx = self.delete_cursor.fetch_add(1, Ordering::SeqCst);
-        if slot_idx >= self.delete_slots.len() {
-            self.delete_cursor.fetch_sub(1, Ordering::SeqCst);
-            return Err(()); // Capacity exhausted
-        }
-
+        // Validate everything before taking a slot (see `try_insert_batch`).
         let row_indices: Vec<usize> = (0..batch.num_rows()).collect();
         let key_rows = match delete_projection.project_view(&batch, &row_indices) {
             Ok(rows) => rows,
@@ -258,6 +254,14 @@ impl DynMemInner {
             Ok(b) => b,
             Err(e) => return Ok(Err(KeyExtractError::Arrow(e))),
         };
+
+        // Reserve a delete slot atomically (lock-free).
+        let slot_idx = self.delete_cursor.fetch_add(1, Ordering::SeqCst);
+        if slot_idx >= self.delete_slots.len() {
+            self.delete_cursor.fetch_sub(1, Ordering::SeqCst);
+            return Err(()); // Capacity exhausted
+        }
+
         let attachment = DeleteAttachment::new(key_batch, commit_array.clone());
 
         // Write once via OnceLock (no concurrent writes to same slot).
-- 
2.43.0


From 63df9ba6353c150c372d2fbbaca9a11cbb11305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:56 +0000
Subject: [PATCH 11/15] fix: include deletes in the commit-time range of a
 sealed table

commit_ts_bounds only looked at rows, so a sealed table whose oldest version
is a delete could be pruned from a snapshot at which the delete is visible,
bringing the deleted row back.
---
 src/inmem/immutable/memtable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/inmem/immutable/memtable.rs b/src/inmem/immutable/memtable.rs
index fae1e7e..943de64 100644
--- a/src/inmem/immutable/memtable.rs
+++ b/src/inmem/immutable/memtable.rs
@@ -148,7 +148,8 @@ impl ImmutableMemTable {
     }
 
     pub(crate) fn commit_ts_bounds(&self) -> Option<(Timestamp, Timestamp)> {
-        let mut iter = self.mvcc.commit_ts.iter();
+        // Deletes count: hiding older versions from a snapshot is just as visible as a row.
+        let mut iter = self.mvcc.commit_ts.iter().chain(&self.deletes.commit_ts);
         let first = iter.next()?;
         let mut min_ts = *first;
         let mut max_ts = *first;
-- 
2.43.0


From f4a7ae0a41810f611abf16a2bd1a3327d05ede2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:56 +0000
Subject: [PATCH 12/15] fix: keep data and delete batches of a merge input
 apart

When the data rows of the current batch ran out before its deletes (or the
other way round), the cursor stopped offering rows of that kind, and never
picked them up again from the following batches: compaction lost rows of
inputs larger than one batch.  Queue data and deletes independently.
---
 src/ondisk/merge.rs | 153 ++++++++++++++++++--------------------------
 1 file changed, 62 insertions(+), 91 deletions(-)

diff --git a/src/ondisk/merge.rs b/src/ondisk/merge.rs
index a7f3185..ad96332 100644
--- a/src/ondisk/merge.rs
+++ b/src/ondisk/merge.rs
@@ -6,7 +6,7 @@
 //! surface focused while merge-specific plumbing evolves.
 
 use std::{
-    collections::BinaryHeap,
+    collections::{BinaryHeap, VecDeque},
     sync::{Arc, atomic::AtomicU64},
 };
 
@@ -140,7 +140,10 @@ struct SourceCursor {
     source_idx: usize,
     extractor: Arc<dyn KeyProjection>,
     source: SsTableMergeSource,
-    batch: Option<SsTableStreamBatch>,
+    // Data and delete batches are consumed independently: how the source pairs them up says
+    // nothing about how their keys interleave.
+    data: VecDeque<RecordBatch>,
+    deletes: VecDeque<RecordBatch>,
     data_idx: usize,
     delete_idx: usize,
 }
@@ -155,19 +158,33 @@ impl SourceCursor {
             source_idx,
             extractor,
             source,
-            batch: None,
+            data: VecDeque::new(),
+            deletes: VecDeque::new(),
             data_idx: 0,
             delete_idx: 0,
         }
     }
 
-    async fn ensure_batch(&mut self) -> Result<(), SsTableError> {
-        if self.batch.is_none() {
-            self.batch = self.source.next().await?;
-            self.data_idx = 0;
-            self.delete_idx = 0;
+    /// Make the next row of `kind` available at the front of its queue, reading ahead as needed.
+    async fn ensure_row(&mut self, kind: RowKind) -> Result<bool, SsTableError> {
+        loop {
+            let (queue, idx) = match kind {
+                RowKind::Data => (&mut self.data, &mut self.data_idx),
+                RowKind::Delete => (&mut self.deletes, &mut self.delete_idx),
+            };
+            while let Some(front) = queue.front() {
+                if *idx < front.num_rows() {
+                    return Ok(true);
+                }
+                queue.pop_front();
+                *idx = 0;
+            }
+            let Some(batch) = self.source.next().await? else {
+                return Ok(false);
+            };
+            self.data.push_back(batch.data);
+            self.deletes.extend(batch.delete);
         }
-        Ok(())
     }
 
     async fn enqueue(
@@ -176,72 +193,44 @@ impl SourceCursor {
         heap: &mut BinaryHeap<HeapEntry>,
         skip_key: Option<&KeyOwned>,
     ) -> Result<(), SsTableError> {
-        loop {
-            self.ensure_batch().await?;
-            let Some(batch) = self.batch.as_ref() else {
-                return Ok(());
-            };
-
-            match kind {
+        while self.ensure_row(kind).await? {
+            let (key, commit_ts, seq, row_idx) = match kind {
                 RowKind::Data => {
-                    if batch.data.num_rows() == 0 {
-                        self.data_idx = batch.data.num_rows();
-                        return Ok(());
-                    }
-                    if self.data_idx >= batch.data.num_rows() {
-                        return Ok(());
-                    }
-                    let key = extract_key_at(&batch.data, self.extractor.as_ref(), self.data_idx)?;
-                    if skip_key.is_some_and(|k| k == &key) {
-                        self.advance(kind);
-                        continue;
-                    }
-                    let commit_ts = commit_ts_at(&batch.data, self.data_idx)?;
-                    let seq = sequence_at(&batch.data, self.data_idx)?;
-                    heap.push(HeapEntry {
-                        key,
-                        commit_ts,
-                        seq,
-                        kind,
-                        source_idx: self.source_idx,
-                        row_idx: self.data_idx,
-                    });
-                    return Ok(());
+                    let batch = &self.data[0];
+                    let row = self.data_idx;
+                    (
+                        extract_key_at(batch, self.extractor.as_ref(), row)?,
+                        commit_ts_at(batch, row)?,
+                        sequence_at(batch, row)?,
+                        row,
+                    )
                 }
                 RowKind::Delete => {
-                    let Some(delete_batch) = batch.delete.as_ref() else {
-                        return Ok(());
-                    };
-                    if delete_batch.num_rows() == 0 {
-                        self.delete_idx = delete_batch.num_rows();
-                        return Ok(());
-                    }
-                    if self.delete_idx >= delete_batch.num_rows() {
-                        return Ok(());
-                    }
-                    let key = extract_delete_key_at(
-                        delete_batch,
-                        self.extractor.as_ref(),
-                        self.delete_idx,
-                    )?;
-                    if skip_key.is_some_and(|k| k == &key) {
-                        self.advance(kind);
-                        continue;
-                    }
-                    let commit_ts = commit_ts_at_delete(delete_batch, self.delete_idx)?;
-                    let seq = sequence_at_delete(delete_batch, self.delete_idx)?;
-                    heap.push(HeapEntry {
-                        key,
-                        commit_ts,
-                        seq,
-                        kind,
-                        source_idx: self.source_idx,
-                        row_idx: self.delete_idx,
-                    });
-                    return Ok(());
+                    let batch = &self.deletes[0];
+                    let row = self.delete_idx;
+                    (
+                        extract_delete_key_at(batch, self.extractor.as_ref(), row)?,
+                        commit_ts_at_delete(batch, row)?,
+                        sequence_at_delete(batch, row)?,
+                        row,
+                    )
                 }
+            };
+            if skip_key.is_some_and(|k| k == &key) {
+                self.advance(kind);
+                continue;
             }
+            heap.push(HeapEntry {
+                key,
+                commit_ts,
+                seq,
+                kind,
+                source_idx: self.source_idx,
+                row_idx,
+            });
+            return Ok(());
         }
+        Ok(())
     }
 
     fn advance(&mut self, kind: RowKind) {
@@ -249,36 +238,20 @@ impl SourceCursor {
             RowKind::Data => self.data_idx += 1,
             RowKind::Delete => self.delete_idx += 1,
         }
-
-        if let Some(batch) = &self.batch {
-            let data_done = self.data_idx >= batch.data.num_rows();
-            let delete_done = batch
-                .delete
-                .as_ref()
-                .is_none_or(|d| self.delete_idx >= d.num_rows());
-            if data_done && delete_done {
-                self.batch = None;
-                self.data_idx = 0;
-                self.delete_idx = 0;
-            }
-        }
     }
 
     fn append_data(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
+        let Some(batch) = self.data.front() else {
             return Ok(());
         };
         let index = [row_idx as u32];
-        let data = take_record_batch(&batch.data, &index)?;
+        let data = take_record_batch(batch, &index)?;
         output.push_data(data);
         Ok(())
     }
 
     fn append_delete(&self, row_idx: usize, output: &mut OutputState) -> Result<(), SsTableError> {
-        let Some(batch) = self.batch.as_ref() else {
-            return Ok(());
-        };
-        let Some(delete_batch) = batch.delete.as_ref() else {
+        let Some(delete_batch) = self.deletes.front() else {
             return Ok(());
         };
         let index = [row_idx as u32];
@@ -689,9 +662,7 @@ impl SsTableMerger {
             let source =
                 SsTableMergeSource::new(Arc::clone(&self.config), descriptor, executor.clone())
                     .await?;
-            let mut cursor = SourceCursor::new(idx, Arc::clone(&extractor), source);
-            cursor.ensure_batch().await?;
-            sources.push(cursor);
+            sources.push(SourceCursor::new(idx, Arc::clone(&extractor), source));
         }
 
         let mut heap: BinaryHeap<HeapEntry> = BinaryHeap::new();
-- 
2.43.0


From 1eb01468d9d40778468aa1124dd96f80e9e3860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:18 +0000
Subject: [PATCH 13/15] fix: floating point keys are stored by bit pattern, so
 infinities, not-a-number and every finite value read back

---
 src/key/owned.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/key/owned.rs b/src/key/owned.rs
index e310566..b94d0c6 100644
--- a/src/key/owned.rs
+++ b/src/key/owned.rs
@@ -203,7 +203,11 @@ impl Serialize for KeyOwned {
                 .as_ref()
                 .ok_or_else(|| SerError::custom(format!("key component {idx} was null")))?;
             cell_data_type(value).map_err(|err| SerError::custom(err.to_string()))?;
-            seq.serialize_element(value)?;
+            match value {
+                DynCell::F32(v) => seq.serialize_element(&StoredFloat::F32Bits(v.to_bits()))?,
+                DynCell::F64(v) => seq.serialize_element(&StoredFloat::F64Bits(v.to_bits()))?,
+                other => seq.serialize_element(other)?,
+            }
         }
         seq.end()
     }
@@ -267,6 +271,22 @@ fn cell_data_type(cell: &DynCell) -> Result<DataType, KeyOwnedError> {
     }
 }
 
+/// Float components are stored by bit pattern: JSON cannot hold infinities or not-a-number, and
+/// decimal text need not read back as the same value.
+#[derive(Serialize, Deserialize)]
+enum StoredFloat {
+    F32Bits(u32),
+    F64Bits(u64),
+}
+
+/// A stored key component; plain cells include floats stored by earlier versions.
+#[derive(Deserialize)]
+#[serde(untagged)]
+enum StoredCell {
+    Float(StoredFloat),
+    Plain(DynCell),
+}
+
 struct DynCellSeqVisitor;
 
 impl<'de> Visitor<'de> for DynCellSeqVisitor {
@@ -281,8 +301,12 @@ impl<'de> Visitor<'de> for DynCellSeqVisitor {
         A: SeqAccess<'de>,
     {
         let mut cells = Vec::new();
-        while let Some(cell) = seq.next_element::<DynCell>()? {
-            cells.push(cell);
+        while let Some(stored) = seq.next_element::<StoredCell>()? {
+            cells.push(match stored {
+                StoredCell::Float(StoredFloat::F32Bits(bits)) => DynCell::F32(f32::from_bits(bits)),
+                StoredCell::Float(StoredFloat::F64Bits(bits)) => DynCell::F64(f64::from_bits(bits)),
+                StoredCell::Plain(cell) => cell,
+            });
         }
         Ok(cells)
     }
-- 
2.43.0


From 5b10c9a2a34fb69fee674e3cf3049a43b8a0e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:55 +0000
Subject: [PATCH 14/15] fix: key columns recorded in schema metadata are read
 back as JSON, so names with commas or quotes resolve to themselves

---
 src/mode/dyn_config.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mode/dyn_config.rs b/src/mode/dyn_config.rs
index d4c3e86..d49571e 100644
--- a/src/mode/dyn_config.rs
+++ b/src/mode/dyn_config.rs
@@ -38,6 +38,10 @@ impl DynModeConfig {
         }
         fn parse_names_list(s: &str) -> Vec<String> {
             let t = s.trim();
+            // `SchemaBuilder` records a JSON array; column names may hold commas or quotes.
+            if let Ok(names) = serde_json::from_str::<Vec<String>>(t) {
+                return names;
+            }
             if t.starts_with('[') && t.ends_with(']') {
                 let inner = &t[1..t.len() - 1];
                 inner
-- 
2.43.0


From 00a9ecb80a701923630f924794a70f8d502b292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:48 +0000
Subject: [PATCH 15/15] fix: predicates compare text and binary values by
 content whatever their Arrow representation

---
 src/query/stream/package.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/query/stream/package.rs b/src/query/stream/package.rs
index 4b1dd19..76e1554 100644
--- a/src/query/stream/package.rs
+++ b/src/query/stream/package.rs
@@ -481,9 +481,26 @@ fn compare_scalar_values(lhs: &ScalarValue, rhs: &ScalarValue) -> Option<std::cm
     if lhs.data_type() == rhs.data_type() {
         return lhs.partial_cmp(rhs);
     }
+    // Text and binary values compare by content whatever their Arrow representation.
+    if let (Some(lhs), Some(rhs)) = (lhs.try_as_str(), rhs.try_as_str()) {
+        return Some(lhs?.cmp(rhs?));
+    }
+    if let (Some(lhs), Some(rhs)) = (scalar_to_bytes(lhs), scalar_to_bytes(rhs)) {
+        return Some(lhs.cmp(rhs));
+    }
     numeric_compare(lhs, rhs)
 }
 
+fn scalar_to_bytes(value: &ScalarValue) -> Option<&[u8]> {
+    match value {
+        ScalarValue::Binary(Some(value))
+        | ScalarValue::LargeBinary(Some(value))
+        | ScalarValue::BinaryView(Some(value))
+        | ScalarValue::FixedSizeBinary(_, Some(value)) => Some(value.as_slice()),
+        _ => None,
+    }
+}
+
 fn numeric_compare(lhs: &ScalarValue, rhs: &ScalarValue) -> Option<std::cmp::Ordering> {
     let lhs_is_float = is_float_scalar(lhs);
     let rhs_is_float = is_float_scalar(rhs);
-- 
2.43.0

