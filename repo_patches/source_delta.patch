From 04c37d8fd0e17f41cafec293186d0b3a83adf945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 01/27] fix: do not split a shard that spans a single selector

An entry that did not fit next to its own superseded versions made the shard split again
and again: once its span was down to one selector, the split produced an empty span and
the same span once more, and so on forever, leaking a file descriptor per round and
leaving files the store refuses to load. Let such a shard grow (or report that its row
is full) instead.
---
 src/shard.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 6859359..082e2f8 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -1,4 +1,4 @@
-use anyhow::bail;
+use anyhow::{bail, ensure};
 use bytemuck::{bytes_of_mut, Pod, Zeroable};
 use parking_lot::{Mutex, RwLock, RwLockWriteGuard};
 use simd_itertools::PositionSimd;
@@ -533,6 +533,12 @@ impl Shard {
         Ok(())
     }
 
+    // a shard that spans a single selector can only grow: splitting it would place all of its entries in one half
+    // (and leave the other one with an empty span)
+    fn can_split(&self) -> bool {
+        self.span.end - self.span.start > 1
+    }
+
     pub(crate) fn split(&self) -> Result<(Shard, Shard)> {
         let mut handle_guard = self.compaction_handle.lock();
         if let Some(handle) = handle_guard.take() {
@@ -996,6 +1002,7 @@ impl Shard {
                     } else if file.header().write_offset.load(Ordering::Relaxed)
                         + (full_key.len() + val.len()) as u64
                         > self.config.max_shard_size as u64
+                        && self.can_split()
                     {
                         return Ok(InsertStatus::SplitNeeded);
                     }
@@ -1029,6 +1036,12 @@ impl Shard {
                             Ok(InsertStatus::Added)
                         } else {
                             // no room in this row, must split
+                            ensure!(
+                                self.can_split(),
+                                "no room in row {} of shard {:?}, which cannot be split any further",
+                                ph.row_selector(),
+                                self.span
+                            );
                             Ok(InsertStatus::SplitNeeded)
                         }
                     }
-- 
2.43.0


From d5969a4d4178fb9efa55c92171ed7597c03868a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 02/27] fix: creating and clearing a store survives a crash at
 any point

Initial shards were created one by one with no way of telling a partially created set from a complete one, so a crash
left a directory that could not be opened again (or, for clear, one that lost part of the key space). Background
compactions that were in progress during clear() could also bring their files back.
---
 src/router.rs | 84 +++++++++++++++++++++++++++++++++++++--------------
 src/shard.rs  |  2 +-
 2 files changed, 62 insertions(+), 24 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index f0e819c..b987ae6 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -50,6 +50,9 @@ fn test_consolidate_ranges() {
     );
 }
 
+// exists while the store's files are being (re)created from scratch
+const RESET_MARKER: &str = "reset_in_progress";
+
 enum ShardNode {
     Leaf(Shard),
     Vertex(Arc<ShardRouter>, Arc<ShardRouter>),
@@ -65,6 +68,17 @@ impl ShardNode {
     fn len(&self) -> u32 {
         self.span().end - self.span().start
     }
+    fn wait_for_compactions(&self) {
+        match self {
+            Self::Leaf(sh) => {
+                _ = sh.wait_for_compaction();
+            }
+            Self::Vertex(bottom, top) => {
+                bottom.node.read().wait_for_compactions();
+                top.node.read().wait_for_compactions();
+            }
+        }
+    }
 }
 
 pub(crate) struct ShardRouter {
@@ -83,9 +97,14 @@ impl ShardRouter {
         stats: Arc<InternalStats>,
         threadpool: Arc<CompactionThreadPool>,
     ) -> Result<Self> {
-        let mut shards = Self::load(&config, &stats, &threadpool)?;
+        let mut shards = if config.dir_path.join(RESET_MARKER).exists() {
+            // we crashed while creating or clearing the store, start over
+            vec![]
+        } else {
+            Self::load(&config, &stats, &threadpool)?
+        };
         if shards.is_empty() {
-            shards = Self::create_initial_shards(&config, &stats, &threadpool)?;
+            shards = Self::reset(&config, &stats, &threadpool)?;
         }
         let root = Self::treeify(shards, &stats, &threadpool);
         Ok(Self {
@@ -173,6 +192,43 @@ impl ShardRouter {
         Self::END_OF_SHARDS / Self::calc_step(num_items)
     }
 
+    // removes all files of the store and creates the initial shards. neither can be done atomically, so as long as the
+    // marker file exists, whatever shards there are must not be used
+    fn reset(
+        config: &Arc<InternalConfig>,
+        stats: &Arc<InternalStats>,
+        threadpool: &Arc<CompactionThreadPool>,
+    ) -> Result<Vec<Shard>> {
+        let marker = config.dir_path.join(RESET_MARKER);
+        std::fs::File::create(&marker)?;
+
+        for res in std::fs::read_dir(&config.dir_path)? {
+            let entry = res?;
+            let filename = entry.file_name();
+            let Some(filename) = filename.to_str() else {
+                continue;
+            };
+            let Ok(filetype) = entry.file_type() else {
+                continue;
+            };
+            if !filetype.is_file() {
+                continue;
+            }
+            if filename.starts_with("shard_")
+                || filename.starts_with("compact_")
+                || filename.starts_with("bottom_")
+                || filename.starts_with("top_")
+                || filename.starts_with("merge_")
+            {
+                std::fs::remove_file(entry.path())?;
+            }
+        }
+
+        let shards = Self::create_initial_shards(config, stats, threadpool)?;
+        std::fs::remove_file(&marker)?;
+        Ok(shards)
+    }
+
     fn create_initial_shards(
         config: &Arc<InternalConfig>,
         stats: &Arc<InternalStats>,
@@ -297,28 +353,10 @@ impl ShardRouter {
     pub(crate) fn clear(&self) -> Result<()> {
         let mut guard = self.node.write();
 
-        for res in std::fs::read_dir(&self.config.dir_path)? {
-            let entry = res?;
-            let filename = entry.file_name();
-            let Some(filename) = filename.to_str() else {
-                continue;
-            };
-            let Ok(filetype) = entry.file_type() else {
-                continue;
-            };
-            if !filetype.is_file() {
-                continue;
-            }
-            if filename.starts_with("shard_")
-                || filename.starts_with("compact_")
-                || filename.starts_with("bottom_")
-                || filename.starts_with("top_")
-            {
-                std::fs::remove_file(entry.path())?;
-            }
-        }
+        // no new compactions can start while we hold the lock, but the ones in progress would put their files back
+        guard.wait_for_compactions();
 
-        let shards = Self::create_initial_shards(&self.config, &self.stats, &self.threadpool)?;
+        let shards = Self::reset(&self.config, &self.stats, &self.threadpool)?;
         *guard = Self::treeify(shards, &self.stats, &self.threadpool);
 
         Ok(())
diff --git a/src/shard.rs b/src/shard.rs
index 082e2f8..8f4384a 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -900,7 +900,7 @@ impl Shard {
         Ok(TryReplaceStatus::KeyDoesNotExist(row_guard, had_collision))
     }
 
-    fn wait_for_compaction(&self) -> Result<()> {
+    pub(crate) fn wait_for_compaction(&self) -> Result<()> {
         let mut handle_guard = self.compaction_handle.lock();
         if let Some(handle) = handle_guard.take() {
             handle.wait()?;
-- 
2.43.0


From 1cd38ac2a6038615ae3536317bb74d8b41fbc28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 03/27] fix: merging shards neither deadlocks on itself nor
 loses shards on failure

Merging a sub-tree whose one half could be merged while the other could not re-locked a node whose lock was already held.
Merged shards were only attached to the tree by reloading the whole directory at the end, so an error in between left
the tree using files that no longer existed.
---
 src/router.rs | 101 ++++++++++++++++++--------------------------------
 src/shard.rs  |   6 ++-
 2 files changed, 40 insertions(+), 67 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index b987ae6..2ffac54 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -431,13 +431,32 @@ impl ShardRouter {
         }
     }
 
-    fn _merge(
-        &self,
+    // merges the shards under this router bottom-up, for as long as they're small enough and there are shards to remove.
+    // every merge is reflected in the tree right away, so the tree is valid even if a later one fails
+    fn try_merge(&self, max_fill: usize, shards_to_remove: &mut u32) -> Result<()> {
+        let mut guard = self.node.write();
+
+        let merged = match &*guard {
+            ShardNode::Leaf(_) => None,
+            ShardNode::Vertex(bottom, top) => {
+                bottom.try_merge(max_fill, shards_to_remove)?;
+                top.try_merge(max_fill, shards_to_remove)?;
+                Self::merge_leaves(bottom, top, max_fill, shards_to_remove)?
+            }
+        };
+
+        if let Some(sh) = merged {
+            *guard = ShardNode::Leaf(sh);
+        }
+        Ok(())
+    }
+
+    fn merge_leaves(
         bottom: &ShardRouter,
         top: &ShardRouter,
         max_fill: usize,
         shards_to_remove: &mut u32,
-    ) -> Result<Option<ShardRouter>> {
+    ) -> Result<Option<Shard>> {
         if *shards_to_remove == 0 {
             return Ok(None);
         }
@@ -445,53 +464,20 @@ impl ShardRouter {
         let bottom_guard = bottom.node.write();
         let top_guard = top.node.write();
 
-        match (&*bottom_guard, &*top_guard) {
-            (ShardNode::Leaf(b), ShardNode::Leaf(t)) => {
-                if b.get_stats()?.num_items() > max_fill {
-                    return Ok(None);
-                }
-                if t.get_stats()?.num_items() > max_fill {
-                    return Ok(None);
-                }
-                if let Some(sh) = Shard::merge(b, t)? {
-                    *shards_to_remove = *shards_to_remove - 1;
-                    let span = sh.span.clone();
-                    Ok(Some(ShardRouter {
-                        config: self.config.clone(),
-                        node: RwLock::new(ShardNode::Leaf(sh)),
-                        span,
-                        stats: self.stats.clone(),
-                        threadpool: self.threadpool.clone(),
-                    }))
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Leaf(_), ShardNode::Vertex(b, t)) => {
-                if let Some(merged_top) = self._merge(&b, &t, max_fill, shards_to_remove)? {
-                    self._merge(bottom, &merged_top, max_fill, shards_to_remove)
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Vertex(b, t), ShardNode::Leaf(_)) => {
-                if let Some(merged_bottom) = self._merge(&b, &t, max_fill, shards_to_remove)? {
-                    self._merge(&merged_bottom, top, max_fill, shards_to_remove)
-                } else {
-                    Ok(None)
-                }
-            }
-            (ShardNode::Vertex(b1, t1), ShardNode::Vertex(b2, t2)) => {
-                let m1 = self._merge(b1, t1, max_fill, shards_to_remove)?;
-                let m2 = self._merge(b2, t2, max_fill, shards_to_remove)?;
-                match (m1, m2) {
-                    (Some(m1), Some(m2)) => self._merge(&m1, &m2, max_fill, shards_to_remove),
-                    (Some(m1), None) => self._merge(&m1, top, max_fill, shards_to_remove),
-                    (None, Some(m2)) => self._merge(bottom, &m2, max_fill, shards_to_remove),
-                    (None, None) => Ok(None),
-                }
-            }
+        let (ShardNode::Leaf(b), ShardNode::Leaf(t)) = (&*bottom_guard, &*top_guard) else {
+            return Ok(None);
+        };
+        if b.get_stats()?.num_items() > max_fill {
+            return Ok(None);
+        }
+        if t.get_stats()?.num_items() > max_fill {
+            return Ok(None);
         }
+        let merged = Shard::merge(b, t)?;
+        if merged.is_some() {
+            *shards_to_remove -= 1;
+        }
+        Ok(merged)
     }
 
     pub(crate) fn merge_small_shards(&self, max_fill_level: f32) -> Result<bool> {
@@ -513,22 +499,7 @@ impl ShardRouter {
         }
         let mut shards_to_remove = starting_num_shards - needed_shards;
 
-        {
-            let mut guard = self.node.write();
-
-            match &*guard {
-                ShardNode::Leaf(_) => None,
-                ShardNode::Vertex(bottom, top) => {
-                    self._merge(&bottom, &top, max_fill, &mut shards_to_remove)?
-                }
-            };
-
-            *guard = Self::treeify(
-                Self::load(&self.config, &self.stats, &self.threadpool)?,
-                &self.stats,
-                &self.threadpool,
-            );
-        }
+        self.try_merge(max_fill, &mut shards_to_remove)?;
 
         let new_num_shards: u32 = self.call_on_all_shards(|_| Ok(1))?.iter().sum();
 
diff --git a/src/shard.rs b/src/shard.rs
index 8f4384a..eee2100 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -709,8 +709,10 @@ impl Shard {
             .join(format!("shard_{:04x}-{:04x}", top.span.start, top.span.end));
 
         std::fs::rename(tmp_filename, dst_filename)?;
-        std::fs::remove_file(bottom_filename)?;
-        std::fs::remove_file(top_filename)?;
+
+        // the merged shard is in place, from now on the two halves are ignored (and removed when loading the store)
+        _ = std::fs::remove_file(bottom_filename);
+        _ = std::fs::remove_file(top_filename);
 
         drop(combined_files);
 
-- 
2.43.0


From 8bb1b8d31154b3d904dc7673646d8ebd27ad9896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 04/27] fix: iterating over a shard while it's being compacted
 doesn't miss entries

Compaction moved entries to lower columns of their row, where an iterator that was in the middle of the row did not see
them. Entries now keep their column. A row that was partially copied when a compaction was interrupted no longer trips
an assertion (or leaves stale entries) when it's resumed.
---
 src/shard.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index eee2100..80ba3f9 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -485,7 +485,6 @@ impl Shard {
         stats: &InternalStats,
         config: &InternalConfig,
     ) -> Result<()> {
-        let mut first_row = true;
         loop {
             let row_idx = target.header().compacted_up_to.load(Ordering::Acquire);
             if row_idx >= NUM_ROWS {
@@ -495,33 +494,31 @@ impl Shard {
             let _row_guard = row_locks[row_idx].write();
             let src_row = src.row(row_idx);
             let target_row = target.row_mut(row_idx);
-            let mut target_col = 0;
 
-            for (src_col, &sig) in src_row.signatures.iter().enumerate() {
+            // every entry keeps its column, so that iterators don't miss entries of a row that gets compacted. note that
+            // if we're resuming a compaction, the target row may hold some entries already
+            for (col, &sig) in src_row.signatures.iter().enumerate() {
+                if target_row.signatures[col] != INVALID_SIG {
+                    target_row.signatures[col] = INVALID_SIG;
+                    target.header().num_inserts.fetch_sub(1, Ordering::Relaxed);
+                }
                 if sig == INVALID_SIG {
                     continue;
                 }
-                let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[src_col])?;
+                let (k, v) = src.read_kv(&stats, src_row.offsets_and_sizes[col])?;
 
-                assert!(
-                    first_row || target_row.signatures[target_col] == INVALID_SIG,
-                    "row={row_idx} col={target_col} sig={}",
-                    target_row.signatures[target_col]
-                );
                 let ph = PartedHash::new(&config.hash_seed, &k);
                 assert_eq!(ph.row_selector(), row_idx);
-                target_row.offsets_and_sizes[target_col] = target.write_kv(&stats, &k, &v)?;
+                target_row.offsets_and_sizes[col] = target.write_kv(&stats, &k, &v)?;
                 std::sync::atomic::fence(Ordering::SeqCst);
-                target_row.signatures[target_col] = ph.signature();
+                target_row.signatures[col] = ph.signature();
                 target.header().num_inserts.fetch_add(1, Ordering::Relaxed);
-                target_col += 1;
             }
 
             target
                 .header()
                 .compacted_up_to
                 .fetch_add(1, Ordering::Release);
-            first_row = false;
         }
 
         Ok(())
-- 
2.43.0


From ba95f5ff3c8cc017d93e060d89ac74d25cc5e1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 05/27] fix: finish compactions that have failed

A compaction that hit an I/O error was never retried, so its shard would neither be compacted nor split by size again,
and splitting it due to a full row discarded the rows that were already moved to the compaction's target. Also, stats()
paniced.
---
 src/shard.rs | 98 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 59 insertions(+), 39 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 80ba3f9..cccbf4e 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -537,10 +537,7 @@ impl Shard {
     }
 
     pub(crate) fn split(&self) -> Result<(Shard, Shard)> {
-        let mut handle_guard = self.compaction_handle.lock();
-        if let Some(handle) = handle_guard.take() {
-            handle.wait()?;
-        }
+        self.wait_for_compaction()?;
 
         let files_guard = self.files.write();
 
@@ -635,6 +632,9 @@ impl Shard {
     }
 
     pub(crate) fn merge(bottom: &Shard, top: &Shard) -> Result<Option<Shard>> {
+        bottom.wait_for_compaction()?;
+        top.wait_for_compaction()?;
+
         let bottom_files = bottom.files.write();
         let top_files = top.files.write();
 
@@ -902,11 +902,33 @@ impl Shard {
     pub(crate) fn wait_for_compaction(&self) -> Result<()> {
         let mut handle_guard = self.compaction_handle.lock();
         if let Some(handle) = handle_guard.take() {
-            handle.wait()?;
+            // if it failed, it's resumed right below
+            _ = handle.wait();
+        }
+        if self.files.read().1.is_some() {
+            Self::background_compact(self.compaction_info())?;
         }
         Ok(())
     }
 
+    fn compaction_info(&self) -> CompactionInfo {
+        CompactionInfo {
+            files: self.files.clone(),
+            stats: self.stats.clone(),
+            row_locks: self.row_locks.clone(),
+            config: self.config.clone(),
+            t0: Instant::now(),
+            src_filename: self.config.dir_path.join(format!(
+                "shard_{:04x}-{:04x}",
+                self.span.start, self.span.end
+            )),
+            target_filename: self.config.dir_path.join(format!(
+                "compact_{:04x}-{:04x}",
+                self.span.start, self.span.end
+            )),
+        }
+    }
+
     fn begin_compaction(&self, min_write_offset: u64) -> Result<()> {
         let mut handle_guard = self.compaction_handle.lock();
         let mut files_guard = self.files.write();
@@ -917,50 +939,40 @@ impl Shard {
         }
 
         if files_guard.1.is_some() {
-            // if the compaction target exists and the thread is still running -- all good
-            if let Some(ref handle) = *handle_guard {
-                if !handle.finished() {
-                    return Ok(());
-                }
-            } else {
-                return Ok(());
-            }
+            // someone else has already started it
+            return Ok(());
         }
 
-        // the thread could've crashed in the middle of a compaction, and here's the place to extract the error
+        // the previous compaction is over, but its thread might have yet to say so
         if let Some(handle) = handle_guard.take() {
-            handle.wait()?;
+            _ = handle.wait();
         }
 
-        assert!(files_guard.1.is_none());
-
-        let t0 = Instant::now();
-        let src_filename = self.config.dir_path.join(format!(
-            "shard_{:04x}-{:04x}",
-            self.span.start, self.span.end
-        ));
-        let target_filename = self.config.dir_path.join(format!(
-            "compact_{:04x}-{:04x}",
-            self.span.start, self.span.end
-        ));
-        let target = MmapFile::create(&target_filename, &self.config)?;
+        let info = self.compaction_info();
+        let target = MmapFile::create(&info.target_filename, &self.config)?;
         target.header().compacted_up_to.store(0, Ordering::Release);
         files_guard.1 = Some(target);
 
-        let handle = self.threadpool.submit(CompactionInfo {
-            files: self.files.clone(),
-            stats: self.stats.clone(),
-            row_locks: self.row_locks.clone(),
-            config: self.config.clone(),
-            t0,
-            src_filename,
-            target_filename,
-        })?;
-        *handle_guard = Some(handle);
+        *handle_guard = Some(self.threadpool.submit(info)?);
 
         Ok(())
     }
 
+    // a compaction that has failed (e.g., no space on disk) leaves some of the rows in the source file and the others in
+    // the target, which is a valid state to be in, but the compaction must be completed at some point
+    fn resume_failed_compaction(&self) -> Result<()> {
+        let Some(mut handle_guard) = self.compaction_handle.try_lock() else {
+            return Ok(());
+        };
+        if handle_guard.as_ref().is_some_and(|h| !h.finished()) {
+            return Ok(());
+        }
+        if self.files.read().1.is_some() {
+            *handle_guard = Some(self.threadpool.submit(self.compaction_info())?);
+        }
+        Ok(())
+    }
+
     fn background_compact(info: CompactionInfo) -> Result<()> {
         let mut files_guard = info.files.upgradable_read();
         let src = &files_guard.0;
@@ -990,9 +1002,11 @@ impl Shard {
         mode: InsertMode,
     ) -> Result<InsertStatus> {
         let mut should_compact = None;
+        let mut was_compacting = false;
 
         let status =
             self.operate_on_row_mut(ph.row_selector(), |file, is_compacting, row_guard, row| {
+                was_compacting = is_compacting;
                 if !is_compacting {
                     if file.header().wasted_bytes.load(Ordering::Relaxed)
                         >= self.config.min_compaction_threashold as u64
@@ -1056,6 +1070,9 @@ impl Shard {
         if let Some(min_write_offset) = should_compact {
             self.begin_compaction(min_write_offset)?;
         }
+        if was_compacting {
+            self.resume_failed_compaction()?;
+        }
         Ok(status)
     }
 
@@ -1086,7 +1103,8 @@ impl Shard {
     }
 
     pub(crate) fn get_stats(&self) -> Result<ShardStats> {
-        self.wait_for_compaction()?;
+        // if the compaction keeps failing, the best we can report is what's known about the source file
+        _ = self.wait_for_compaction();
         let files_guard = self.files.read();
         let hdr = files_guard.0.header();
         Ok(ShardStats {
@@ -1100,6 +1118,8 @@ impl Shard {
 
 impl Drop for Shard {
     fn drop(&mut self) {
-        _ = self.wait_for_compaction();
+        if let Some(handle) = self.compaction_handle.lock().take() {
+            _ = handle.wait();
+        }
     }
 }
-- 
2.43.0


From f3c5754001c272877eda2fa7d6eabcd3e021e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 06/27] fix: recalculate the number of entries when opening a
 shard

A crash between updating a row and updating the counters left them permanently wrong, and once enough entries were
removed, the number of removals exceeded the number of inserts (which underflows).
---
 src/shard.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index cccbf4e..8b19fa4 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -433,6 +433,21 @@ impl Shard {
                 std::fs::rename(compacted_filename, filename)?;
                 mmap_file = target;
             }
+
+            // a crash between updating a row and updating the counters leaves them off by one
+            let num_entries = mmap_file
+                .header()
+                .rows
+                .0
+                .iter()
+                .flat_map(|row| row.signatures.iter())
+                .filter(|&&sig| sig != INVALID_SIG)
+                .count() as u64;
+            let num_inserts = mmap_file.header().num_removals.load(Ordering::Relaxed) + num_entries;
+            mmap_file
+                .header()
+                .num_inserts
+                .store(num_inserts, Ordering::Relaxed);
         }
 
         Ok(Self {
-- 
2.43.0


From 32e3de406eaa9990e91d179dee5fa1277539afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 07/27] fix: clearing a shard of an unsupported version also
 drops its unfinished compaction

Otherwise, the rows that had already been compacted come back.
---
 src/shard.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 8b19fa4..ba67477 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -361,6 +361,9 @@ impl Shard {
         let filename = config
             .dir_path
             .join(format!("shard_{:04x}-{:04x}", span.start, span.end));
+        let compacted_filename = config
+            .dir_path
+            .join(format!("compact_{:04x}-{:04x}", span.start, span.end));
         let mut file = OpenOptions::new()
             .create(true)
             .read(true)
@@ -378,6 +381,7 @@ impl Shard {
             {
                 if config.clear_on_unsupported_version {
                     file.set_len(0)?;
+                    _ = std::fs::remove_file(&compacted_filename);
                     file_size = 0;
                 } else {
                     bail!(
@@ -392,6 +396,7 @@ impl Shard {
             if file_size != 0 && file_size < HEADER_SIZE {
                 if config.clear_on_unsupported_version {
                     file.set_len(0)?;
+                    _ = std::fs::remove_file(&compacted_filename);
                     file_size = 0;
                 } else {
                     bail!("corrupt shard file (size={})", file_size);
@@ -417,9 +422,6 @@ impl Shard {
 
         let mut mmap_file = MmapFile::new(file, config.mlock_headers)?;
 
-        let compacted_filename = config
-            .dir_path
-            .join(format!("compact_{:04x}-{:04x}", span.start, span.end));
         if truncate {
             _ = std::fs::remove_file(compacted_filename);
         } else {
-- 
2.43.0


From 02635aa2fa16e99be1bcf0953fff07ded8086b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 08/27] fix: flushed data stays flushed while a shard is being
 compacted, split or merged

Flushing skipped the compaction's target file, and files that were rewritten by a compaction, split or merge replaced
the flushed ones without being flushed themselves. Also, flushing as part of an operation (flush aggregation) dead-locked
with a compaction that was just being completed.
---
 src/shard.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index ba67477..c9baff0 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -432,6 +432,7 @@ impl Shard {
             {
                 let target = MmapFile::new(compacted_file, config.mlock_headers)?;
                 Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
+                target.file.sync_data()?;
                 std::fs::rename(compacted_filename, filename)?;
                 mmap_file = target;
             }
@@ -543,7 +544,14 @@ impl Shard {
 
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
-        self.files.read().0.file.sync_data()?;
+
+        // when called by an operation (flush aggregation), this thread already holds the lock for reading
+        let files_guard = self.files.read_recursive();
+        files_guard.0.file.sync_data()?;
+        if let Some(ref target) = files_guard.1 {
+            // rows that were already compacted live only there
+            target.file.sync_data()?;
+        }
         Ok(())
     }
 
@@ -607,6 +615,9 @@ impl Shard {
             }
         }
 
+        bottom_file.file.sync_data()?;
+        top_file.file.sync_data()?;
+
         std::fs::rename(
             bottom_filename,
             self.config
@@ -722,6 +733,7 @@ impl Shard {
             .dir_path
             .join(format!("shard_{:04x}-{:04x}", top.span.start, top.span.end));
 
+        combined_files.0.file.sync_data()?;
         std::fs::rename(tmp_filename, dst_filename)?;
 
         // the merged shard is in place, from now on the two halves are ignored (and removed when loading the store)
@@ -997,6 +1009,8 @@ impl Shard {
 
         Self::do_compaction(&info.row_locks, src, target, &info.stats, &info.config)?;
 
+        // the source may have been flushed, so don't replace it by something that isn't
+        target.file.sync_data()?;
         std::fs::rename(&info.target_filename, &info.src_filename)?;
 
         info.stats.report_compaction(
-- 
2.43.0


From 8332562ab22b305478e171d83f4562825185da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 09/27] fix: an aggregated flush that failed is not a success
 for those who waited for it

---
 src/shard.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index c9baff0..732d733 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -346,6 +346,8 @@ pub(crate) struct Shard {
     sync_agg_mutex: parking_lot::Mutex<()>,
     #[cfg(feature = "flush_aggregation")]
     in_sync_agg_delay: std::sync::atomic::AtomicBool,
+    #[cfg(feature = "flush_aggregation")]
+    sync_agg_failed: std::sync::atomic::AtomicBool,
 }
 
 impl Shard {
@@ -465,6 +467,8 @@ impl Shard {
             sync_agg_mutex: parking_lot::Mutex::new(()),
             #[cfg(feature = "flush_aggregation")]
             in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
+            #[cfg(feature = "flush_aggregation")]
+            sync_agg_failed: std::sync::atomic::AtomicBool::new(false),
         })
     }
 
@@ -493,6 +497,8 @@ impl Shard {
             sync_agg_mutex: parking_lot::Mutex::new(()),
             #[cfg(feature = "flush_aggregation")]
             in_sync_agg_delay: std::sync::atomic::AtomicBool::new(false),
+            #[cfg(feature = "flush_aggregation")]
+            sync_agg_failed: std::sync::atomic::AtomicBool::new(false),
         })
     }
 
@@ -854,7 +860,9 @@ impl Shard {
             self.in_sync_agg_delay.store(true, Ordering::SeqCst);
             std::thread::sleep(delay);
             self.in_sync_agg_delay.store(false, Ordering::SeqCst);
-            self.flush()
+            let res = self.flush();
+            self.sync_agg_failed.store(res.is_err(), Ordering::SeqCst);
+            res
         };
 
         if let Some(_guard) = self.sync_agg_mutex.try_lock() {
@@ -866,7 +874,7 @@ impl Shard {
             // have sync'ed us by the time we got the lock. otherwise, we'll need to sync as well
             let was_in_delay = self.in_sync_agg_delay.load(Ordering::Relaxed);
             let _guard = self.sync_agg_mutex.lock();
-            if !was_in_delay {
+            if !was_in_delay || self.sync_agg_failed.load(Ordering::SeqCst) {
                 do_sync()?;
             }
         }
-- 
2.43.0


From a833381727bb8ebfe95df4ef33dd6a49db526dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 10/27] fix: resuming from the cookie of an exhausted iterator
 doesn't start over

---
 src/store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store.rs b/src/store.rs
index 74d9877..310c2e8 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -134,7 +134,7 @@ impl<'a> CandyStoreIterator<'a> {
     /// Returns the cookie of the next item in the store. This can be used later to construct an iterator
     /// that starts at the given point.
     pub fn cookie(&self) -> u64 {
-        ((self.shard_selector as u64 & 0xffff) << 32)
+        ((self.shard_selector as u64 & 0x1ffff) << 32)
             | ((self.row_idx as u64 & 0xffff) << 16)
             | (self.entry_idx as u64 & 0xffff)
     }
@@ -143,7 +143,7 @@ impl<'a> CandyStoreIterator<'a> {
     pub fn from_cookie(store: &'a CandyStore, cookie: u64, raw: bool) -> Self {
         Self {
             store,
-            shard_selector: ((cookie >> 32) & 0xffff) as u32,
+            shard_selector: ((cookie >> 32) & 0x1ffff) as u32,
             row_idx: ((cookie >> 16) & 0xffff) as usize,
             entry_idx: (cookie & 0xffff) as usize,
             raw,
-- 
2.43.0


From 07334a4b45065f7b4e05d3dfba1adb8794aa005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 11/27] fix: replace_in_list compares the expected value to the
 item's value

It was compared to the item's index instead.
---
 src/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lists.rs b/src/lists.rs
index 51eefc5..f49ae19 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -163,7 +163,7 @@ impl CandyStore {
                 }
                 InsertMode::Replace(expected_val) => {
                     if let Some(expected_val) = expected_val {
-                        if expected_val != &existing_val[existing_val.len() - size_of::<u64>()..] {
+                        if expected_val != &existing_val[..existing_val.len() - size_of::<u64>()] {
                             existing_val.truncate(existing_val.len() - size_of::<u64>());
                             return Ok(InsertToListStatus::WrongValue(existing_val));
                         }
-- 
2.43.0


From 58a02d23e6fafef7e8853ca5d1f0db4126ab6454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 12/27] fix: check the sizes of list items, queue items and big
 values before making any changes

An item that's too big was only rejected after the list or queue was updated to contain it (or, when promoting an item
or setting a big value, after the existing one was removed).
---
 src/lists.rs  | 12 ++++++++++++
 src/queues.rs | 14 ++++++++++++++
 src/store.rs  | 36 ++++++++++++++++++++++--------------
 3 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index f49ae19..f856be3 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -142,6 +142,13 @@ impl CandyStore {
         self.keyed_locks[(list_ph.signature() & self.keyed_locks_mask) as usize].lock()
     }
 
+    // check the sizes before making any changes, we don't want to fail midway
+    fn ensure_list_item_fits(&self, list_key: &[u8], item_key: &[u8], val_len: usize) -> Result<()> {
+        self.ensure_entry_fits(list_key.len(), size_of::<List>())?;
+        self.ensure_entry_fits(size_of::<ChainKey>(), size_of::<PartedHash>())?;
+        self.ensure_entry_fits(item_key.len(), val_len + size_of::<u64>())
+    }
+
     fn _insert_to_list(
         &self,
         list_key: Vec<u8>,
@@ -151,6 +158,7 @@ impl CandyStore {
     ) -> Result<InsertToListStatus> {
         let (list_ph, list_key) = self.make_list_key(list_key);
         let (item_ph, item_key) = self.make_item_key(list_ph, item_key);
+        self.ensure_list_item_fits(&list_key, &item_key, val.len())?;
 
         let _guard = self.lock_list(list_ph);
 
@@ -297,6 +305,10 @@ impl CandyStore {
         promote: bool,
     ) -> Result<SetStatus> {
         if promote {
+            let (list_ph, full_list_key) = self.make_list_key(list_key.clone());
+            let (_, full_item_key) = self.make_item_key(list_ph, item_key.clone());
+            self.ensure_list_item_fits(&full_list_key, &full_item_key, val.len())?;
+
             self.owned_remove_from_list(list_key.clone(), item_key.clone())?;
         }
         match self._insert_to_list(list_key, item_key, val, InsertMode::Set)? {
diff --git a/src/queues.rs b/src/queues.rs
index 7575a72..67da4df 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -111,7 +111,21 @@ impl CandyStore {
         item_key
     }
 
+    // check the sizes before making any changes, we don't want to fail midway
+    pub(crate) fn ensure_queue_item_fits(&self, queue_key: &[u8], val_len: usize) -> Result<()> {
+        self.ensure_entry_fits(
+            queue_key.len() + QUEUE_NAMESPACE.len(),
+            size_of::<Queue>(),
+        )?;
+        self.ensure_entry_fits(
+            queue_key.len() + size_of::<u64>() + QUEUE_ITEM_NAMESPACE.len(),
+            val_len,
+        )
+    }
+
     fn _push_to_queue(&self, queue_key: &[u8], val: &[u8], pos: QueuePos) -> Result<usize> {
+        self.ensure_queue_item_fits(queue_key, val.len())?;
+
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
diff --git a/src/store.rs b/src/store.rs
index 310c2e8..4c30766 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -331,30 +331,36 @@ impl CandyStore {
         self.remove_raw(&self.make_user_key(key))
     }
 
-    pub(crate) fn insert_internal(
-        &self,
-        full_key: &[u8],
-        val: &[u8],
-        mode: InsertMode,
-    ) -> Result<InsertStatus> {
-        let ph = PartedHash::new(&self.config.hash_seed, full_key);
-
+    pub(crate) fn ensure_entry_fits(&self, full_key_len: usize, val_len: usize) -> Result<()> {
         ensure!(
-            full_key.len() <= MAX_TOTAL_KEY_SIZE,
-            CandyError::KeyTooLong(full_key.len())
+            full_key_len <= MAX_TOTAL_KEY_SIZE,
+            CandyError::KeyTooLong(full_key_len)
         );
         ensure!(
-            val.len() <= MAX_TOTAL_VALUE_SIZE,
-            CandyError::ValueTooLong(val.len())
+            val_len <= MAX_TOTAL_VALUE_SIZE,
+            CandyError::ValueTooLong(val_len)
         );
 
-        if full_key.len() + val.len() > self.config.max_shard_size as usize {
+        if full_key_len + val_len > self.config.max_shard_size as usize {
             return Err(anyhow!(CandyError::EntryCannotFitInShard(
-                full_key.len() + val.len(),
+                full_key_len + val_len,
                 self.config.max_shard_size as usize
             )));
         }
 
+        Ok(())
+    }
+
+    pub(crate) fn insert_internal(
+        &self,
+        full_key: &[u8],
+        val: &[u8],
+        mode: InsertMode,
+    ) -> Result<InsertStatus> {
+        let ph = PartedHash::new(&self.config.hash_seed, full_key);
+
+        self.ensure_entry_fits(full_key.len(), val.len())?;
+
         self.root.insert(ph, full_key, val, mode)
     }
 
@@ -529,6 +535,8 @@ impl CandyStore {
         key: &B1,
         val: &B2,
     ) -> Result<bool> {
+        self.ensure_queue_item_fits(key.as_ref(), val.as_ref().len().min(MAX_VALUE_SIZE))?;
+
         let existed = self.discard_queue(key)?;
         self.extend_queue(key, val.as_ref().chunks(MAX_VALUE_SIZE))?;
         Ok(existed)
-- 
2.43.0


From 59f1b4facf44742dc0ef539208f652da98a09f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 13/27] fix: remove_from_queue handles the only element and
 indices outside the queue

Removing the only element left a queue whose head is past its tail. Removing an index outside of the queue's range (a
leftover of an interrupted extend_queue) corrupted the queue's length.
---
 src/queues.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index 67da4df..cf740b3 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -276,24 +276,29 @@ impl CandyStore {
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
+        let Some(mut queue_bytes) = self.get_raw(&full_queue_key)? else {
+            return Ok(None);
+        };
+        let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
+        if idx < queue.head_idx || idx >= queue.tail_idx {
+            // could be a leftover of an unfinished operation, it's not part of the queue
+            return Ok(None);
+        }
+
         let Some(val) = self.remove_raw(&self.make_queue_item_key(queue_key, idx as u64))? else {
             return Ok(None);
         };
 
-        if let Some(mut queue_bytes) = self.get_raw(&full_queue_key)? {
-            let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
-            if queue.head_idx == idx {
-                queue.head_idx += 1;
-            }
-            if queue.tail_idx == idx + 1 {
-                queue.tail_idx -= 1;
-            }
-            queue.num_items -= 1;
-            if queue.is_empty() {
-                self.remove_raw(&full_queue_key)?;
-            } else {
-                self.set_raw(&full_queue_key, &queue_bytes)?;
-            }
+        if queue.head_idx == idx {
+            queue.head_idx += 1;
+        } else if queue.tail_idx == idx + 1 {
+            queue.tail_idx -= 1;
+        }
+        queue.num_items -= 1;
+        if queue.is_empty() {
+            self.remove_raw(&full_queue_key)?;
+        } else {
+            self.set_raw(&full_queue_key, &queue_bytes)?;
         }
 
         Ok(Some(val))
-- 
2.43.0


From d52566073a17c1f55d22c9644e11177398451d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 14/27] fix: an unfinished extend_queue has no effect

Failing midway left an empty queue (if there was none) and items that do not belong to it, one of which came back when
crashing while pushing to the queue later on.
---
 src/queues.rs | 68 +++++++++++++++++++++++++--------------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/queues.rs b/src/queues.rs
index cf740b3..ff320ac 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -129,20 +129,17 @@ impl CandyStore {
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
-        let status = self.get_or_create_raw(
-            &full_queue_key,
-            bytes_of(&Queue {
-                head_idx: Self::FIRST_QUEUE_IDX,
-                tail_idx: Self::FIRST_QUEUE_IDX + 1,
-                num_items: 1,
-            })
-            .to_owned(),
-        )?;
-
-        let item_idx = match status {
-            crate::GetOrCreateStatus::CreatedNew(_) => Self::FIRST_QUEUE_IDX,
-            crate::GetOrCreateStatus::ExistingValue(mut queue_bytes) => {
-                let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
+        let (queue, item_idx) = match self.get_raw(&full_queue_key)? {
+            None => (
+                Queue {
+                    head_idx: Self::FIRST_QUEUE_IDX,
+                    tail_idx: Self::FIRST_QUEUE_IDX + 1,
+                    num_items: 1,
+                },
+                Self::FIRST_QUEUE_IDX,
+            ),
+            Some(queue_bytes) => {
+                let mut queue = *from_bytes::<Queue>(&queue_bytes);
                 let item_idx = match pos {
                     QueuePos::Head => {
                         queue.head_idx -= 1;
@@ -155,12 +152,13 @@ impl CandyStore {
                     }
                 };
                 queue.num_items += 1;
-                self.set_raw(&full_queue_key, &queue_bytes)?;
-                item_idx
+                (queue, item_idx)
             }
         };
 
+        // the item must be written first: an unfinished operation might have left some other item at this index
         self.set_raw(&self.make_queue_item_key(queue_key, item_idx), val)?;
+        self.set_raw(&full_queue_key, bytes_of(&queue))?;
         Ok(item_idx as usize)
     }
 
@@ -351,34 +349,36 @@ impl CandyStore {
         let (queue_ph, full_queue_key) = self.make_queue_key(queue_key);
         let _guard = self.lock_list(queue_ph);
 
-        let mut queue_bytes = &mut self
-            .get_or_create_raw(
-                &full_queue_key,
-                bytes_of(&Queue {
-                    head_idx: Self::FIRST_QUEUE_IDX,
-                    tail_idx: Self::FIRST_QUEUE_IDX,
-                    num_items: 0,
-                })
-                .to_owned(),
-            )?
-            .value();
-
-        let queue = from_bytes_mut::<Queue>(&mut queue_bytes);
+        let mut queue = match self.get_raw(&full_queue_key)? {
+            Some(queue_bytes) => *from_bytes::<Queue>(&queue_bytes),
+            None => Queue {
+                head_idx: Self::FIRST_QUEUE_IDX,
+                tail_idx: Self::FIRST_QUEUE_IDX,
+                num_items: 0,
+            },
+        };
 
         let first_idx = queue.tail_idx;
         for item in items {
-            self.set_raw(
+            if let Err(e) = self.set_raw(
                 &self.make_queue_item_key(queue_key, queue.tail_idx),
                 item.as_ref(),
-            )?;
+            ) {
+                // don't leave behind items that aren't part of the queue
+                for idx in first_idx..queue.tail_idx {
+                    _ = self.remove_raw(&self.make_queue_item_key(queue_key, idx));
+                }
+                return Err(e);
+            }
             queue.tail_idx += 1;
             queue.num_items += 1;
         }
 
-        let indices = first_idx as usize..queue.tail_idx as usize;
-        self.set_raw(&full_queue_key, &queue_bytes)?;
+        if queue.tail_idx > first_idx {
+            self.set_raw(&full_queue_key, bytes_of(&queue))?;
+        }
 
-        Ok(indices)
+        Ok(first_idx as usize..queue.tail_idx as usize)
     }
 
     /// Returns (without removing) the head element of the queue and its index, or None if the queue is empty
-- 
2.43.0


From c9feed9e9ae349e9db8f7681be82d864180ddce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 15/27] fix: set_big of an empty value creates it

---
 src/store.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/store.rs b/src/store.rs
index 4c30766..8426e8d 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -538,7 +538,12 @@ impl CandyStore {
         self.ensure_queue_item_fits(key.as_ref(), val.as_ref().len().min(MAX_VALUE_SIZE))?;
 
         let existed = self.discard_queue(key)?;
-        self.extend_queue(key, val.as_ref().chunks(MAX_VALUE_SIZE))?;
+        if val.as_ref().is_empty() {
+            // there are no chunks in an empty value, but it does exist
+            self.push_to_queue_tail(key, val)?;
+        } else {
+            self.extend_queue(key, val.as_ref().chunks(MAX_VALUE_SIZE))?;
+        }
         Ok(existed)
     }
 
-- 
2.43.0


From cd1e1694c28495fc16d91fa4a9d0cbfa8e85c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 16/27] fix: crashing while removing from a list doesn't leave
 items behind

Removing an item (or discarding the list) took it out of the list first, so a crash left an item that could be read and
updated, but was not a part of the list.
---
 src/lists.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index f856be3..69296c6 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -449,6 +449,10 @@ impl CandyStore {
         );
         existing_val.truncate(existing_val.len() - size_of::<u64>());
 
+        // remove item. this must come first: an item without a (valid) chain could be read but not iterated upon,
+        // whereas a chain without an item is skipped
+        self.remove_raw(&item_key)?;
+
         // update list, if the item was the head/tail
         if let Some(list_bytes) = self.get_raw(&list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
@@ -476,9 +480,6 @@ impl CandyStore {
             namespace: CHAIN_NAMESPACE,
         }))?;
 
-        // remove item
-        self.remove_raw(&item_key)?;
-
         Ok(Some(existing_val))
     }
 
@@ -650,12 +651,12 @@ impl CandyStore {
             let Some((_, full_key, _)) = self.get_from_list_at_index(list_ph, idx, false)? else {
                 continue;
             };
+            self.remove_raw(&full_key)?;
             self.remove_raw(bytes_of(&ChainKey {
                 list_ph,
                 idx,
                 namespace: CHAIN_NAMESPACE,
             }))?;
-            self.remove_raw(&full_key)?;
         }
         self.remove_raw(&list_key)?;
 
-- 
2.43.0


From 8dd9c55b5c83b2acfbf513bc1e3c9669f474eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 17/27] fix: popping from a list is atomic

Popping looked up the first (or last) item without holding the list's lock, so by the time it was removed it could have
had a different value (which was lost), or have been moved to the other end of the list.
---
 src/lists.rs | 50 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index 69296c6..426e0c5 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -438,7 +438,17 @@ impl CandyStore {
 
         let _guard = self.lock_list(list_ph);
 
-        let Some(mut existing_val) = self.get_raw(&item_key)? else {
+        self.remove_list_item(list_ph, &list_key, &item_key)
+    }
+
+    // the list must be locked
+    fn remove_list_item(
+        &self,
+        list_ph: PartedHash,
+        list_key: &[u8],
+        item_key: &[u8],
+    ) -> Result<Option<Vec<u8>>> {
+        let Some(mut existing_val) = self.get_raw(item_key)? else {
             return Ok(None);
         };
 
@@ -451,10 +461,10 @@ impl CandyStore {
 
         // remove item. this must come first: an item without a (valid) chain could be read but not iterated upon,
         // whereas a chain without an item is skipped
-        self.remove_raw(&item_key)?;
+        self.remove_raw(item_key)?;
 
         // update list, if the item was the head/tail
-        if let Some(list_bytes) = self.get_raw(&list_key)? {
+        if let Some(list_bytes) = self.get_raw(list_key)? {
             let mut list = *from_bytes::<List>(&list_bytes);
 
             list.num_items -= 1;
@@ -467,9 +477,9 @@ impl CandyStore {
                 }
             }
             if list.is_empty() {
-                self.remove_raw(&list_key)?;
+                self.remove_raw(list_key)?;
             } else {
-                self.set_raw(&list_key, bytes_of(&list))?;
+                self.set_raw(list_key, bytes_of(&list))?;
             }
         }
 
@@ -696,13 +706,7 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_head(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
-                return Ok(Some((k, v)));
-            }
-        }
-        Ok(None)
+        self._pop_list(list_key, true)
     }
 
     /// Removes and returns the last (tail) element of the list
@@ -712,9 +716,25 @@ impl CandyStore {
 
     /// Owned version of [Self::peek_list_tail]
     pub fn owned_pop_list_tail(&self, list_key: Vec<u8>) -> Result<Option<KVPair>> {
-        for kv in self.owned_iter_list_backwards(list_key.clone()) {
-            let (k, v) = kv?;
-            if let Some(_) = self.owned_remove_from_list(list_key.clone(), k.clone())? {
+        self._pop_list(list_key, false)
+    }
+
+    fn _pop_list(&self, list_key: Vec<u8>, fwd: bool) -> Result<Option<KVPair>> {
+        let (list_ph, list_key) = self.make_list_key(list_key);
+        let _guard = self.lock_list(list_ph);
+
+        let Some(list_bytes) = self.get_raw(&list_key)? else {
+            return Ok(None);
+        };
+        let list = *from_bytes::<List>(&list_bytes);
+        let mut range = list.head_idx..list.tail_idx;
+        while let Some(idx) = if fwd { range.next() } else { range.next_back() } {
+            let Some((_, mut k, _)) = self.get_from_list_at_index(list_ph, idx, false)? else {
+                // try next index
+                continue;
+            };
+            if let Some(v) = self.remove_list_item(list_ph, &list_key, &k)? {
+                k.truncate(k.len() - size_of::<PartedHash>() - ITEM_NAMESPACE.len());
                 return Ok(Some((k, v)));
             }
         }
-- 
2.43.0


From f2d8342c4e5982d8eacbd66500678295615da323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 18/27] fix: list and queue iterators don't overestimate the
 lower bound of their size hint

---
 src/lists.rs  | 3 ++-
 src/queues.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lists.rs b/src/lists.rs
index 426e0c5..5f982c1 100644
--- a/src/lists.rs
+++ b/src/lists.rs
@@ -108,7 +108,8 @@ impl<'a> Iterator for ListIterator<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         if let Some(ref range) = self.range {
-            range.size_hint()
+            // there might be holes
+            (0, range.size_hint().1)
         } else {
             (0, None)
         }
diff --git a/src/queues.rs b/src/queues.rs
index ff320ac..5e9f9a3 100644
--- a/src/queues.rs
+++ b/src/queues.rs
@@ -86,7 +86,8 @@ impl<'a> Iterator for QueueIterator<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         if let Some(ref range) = self.range {
-            range.size_hint()
+            // there might be holes
+            (0, range.size_hint().1)
         } else {
             (0, None)
         }
-- 
2.43.0


From 4083af582951c6538646b9a8291dad81ab5a1ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 19/27] fix: opening a shard must not ignore a compaction that
 cannot be opened

Any error other than the file not existing was taken for 'there is no
compaction to resume', and the rows that had moved were lost.
---
 src/shard.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index 732d733..8968357 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -427,11 +427,16 @@ impl Shard {
         if truncate {
             _ = std::fs::remove_file(compacted_filename);
         } else {
-            if let Ok(compacted_file) = OpenOptions::new()
+            let compacted_file = match OpenOptions::new()
                 .read(true)
                 .write(true)
                 .open(&compacted_filename)
             {
+                Ok(compacted_file) => Some(compacted_file),
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => None,
+                Err(e) => return Err(e.into()),
+            };
+            if let Some(compacted_file) = compacted_file {
                 let target = MmapFile::new(compacted_file, config.mlock_headers)?;
                 Self::do_compaction(&row_locks, &mmap_file, &target, &stats, &config)?;
                 target.file.sync_data()?;
-- 
2.43.0


From 60acd89bb79b778d894436e54155a6d3e3c54767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 20/27] fix: a clear that fails midway must not leave a store
 whose later writes are lost

---
 src/router.rs | 31 +++++++++++++++++++++++++------
 src/store.rs  |  5 ++++-
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 2ffac54..d075a31 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -1,4 +1,4 @@
-use anyhow::ensure;
+use anyhow::{bail, ensure};
 use parking_lot::RwLock;
 use std::{ops::Range, sync::Arc};
 
@@ -53,9 +53,14 @@ fn test_consolidate_ranges() {
 // exists while the store's files are being (re)created from scratch
 const RESET_MARKER: &str = "reset_in_progress";
 
+const UNAVAILABLE: &str = "the store could not be cleared, clear it again or reopen it";
+
 enum ShardNode {
     Leaf(Shard),
     Vertex(Arc<ShardRouter>, Arc<ShardRouter>),
+    // clearing the store has failed midway: some of its files are gone and the rest will be removed when it's opened
+    // again, so they must not be used until it's cleared successfully
+    Unavailable,
 }
 
 impl ShardNode {
@@ -63,6 +68,7 @@ impl ShardNode {
         match self {
             Self::Leaf(sh) => sh.span.clone(),
             Self::Vertex(bottom, top) => bottom.span.start..top.span.end,
+            Self::Unavailable => 0..ShardRouter::END_OF_SHARDS,
         }
     }
     fn len(&self) -> u32 {
@@ -77,6 +83,7 @@ impl ShardNode {
                 bottom.node.read().wait_for_compactions();
                 top.node.read().wait_for_compactions();
             }
+            Self::Unavailable => {}
         }
     }
 }
@@ -261,6 +268,7 @@ impl ShardRouter {
         let config = match n {
             ShardNode::Leaf(ref sh) => sh.config.clone(),
             ShardNode::Vertex(ref bottom, _) => bottom.config.clone(),
+            ShardNode::Unavailable => unreachable!(),
         };
         Self {
             config,
@@ -347,6 +355,7 @@ impl ShardRouter {
                     top.shared_op(shard_selector, func)
                 }
             }
+            ShardNode::Unavailable => bail!(UNAVAILABLE),
         }
     }
 
@@ -356,10 +365,18 @@ impl ShardRouter {
         // no new compactions can start while we hold the lock, but the ones in progress would put their files back
         guard.wait_for_compactions();
 
-        let shards = Self::reset(&self.config, &self.stats, &self.threadpool)?;
-        *guard = Self::treeify(shards, &self.stats, &self.threadpool);
-
-        Ok(())
+        match Self::reset(&self.config, &self.stats, &self.threadpool) {
+            Ok(shards) => {
+                *guard = Self::treeify(shards, &self.stats, &self.threadpool);
+                Ok(())
+            }
+            Err(e) => {
+                if self.config.dir_path.join(RESET_MARKER).exists() {
+                    *guard = ShardNode::Unavailable;
+                }
+                Err(e)
+            }
+        }
     }
 
     pub(crate) fn call_on_all_shards<T>(
@@ -373,6 +390,7 @@ impl ShardRouter {
                 v.extend(top.call_on_all_shards(func)?);
                 Ok(v)
             }
+            ShardNode::Unavailable => bail!(UNAVAILABLE),
         }
     }
 
@@ -393,6 +411,7 @@ impl ShardRouter {
                         top.insert(ph, full_key, val, mode)?
                     }
                 }
+                ShardNode::Unavailable => bail!(UNAVAILABLE),
             };
 
             match res {
@@ -437,7 +456,7 @@ impl ShardRouter {
         let mut guard = self.node.write();
 
         let merged = match &*guard {
-            ShardNode::Leaf(_) => None,
+            ShardNode::Leaf(_) | ShardNode::Unavailable => None,
             ShardNode::Vertex(bottom, top) => {
                 bottom.try_merge(max_fill, shards_to_remove)?;
                 top.try_merge(max_fill, shards_to_remove)?;
diff --git a/src/store.rs b/src/store.rs
index 8426e8d..60609a8 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -494,7 +494,10 @@ impl CandyStore {
 
     /// Returns useful stats about the store
     pub fn stats(&self) -> Stats {
-        let shard_stats = self.root.call_on_all_shards(|sh| sh.get_stats()).unwrap();
+        let shard_stats = self
+            .root
+            .call_on_all_shards(|sh| sh.get_stats())
+            .unwrap_or_default();
 
         let mut stats = Stats::default();
         self.stats.fill_stats(&mut stats);
-- 
2.43.0


From 3959d2b98a8a677796633bf851b5c744afdd2cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:59 +0000
Subject: [PATCH 21/27] fix: don't sync files that replace ones that were never
 flushed

---
 src/shard.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 8968357..9224f53 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -9,7 +9,7 @@ use std::{
     os::{fd::AsRawFd, unix::fs::FileExt},
     path::{Path, PathBuf},
     sync::{
-        atomic::{AtomicU64, AtomicUsize, Ordering},
+        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
         Arc,
     },
     thread::JoinHandle,
@@ -263,6 +263,7 @@ struct CompactionInfo {
     config: Arc<InternalConfig>,
     stats: Arc<InternalStats>,
     files: Arc<RwLock<(MmapFile, Option<MmapFile>)>>,
+    maybe_flushed: Arc<AtomicBool>,
     row_locks: Arc<[RwLock<()>; NUM_ROWS]>,
     t0: Instant,
     src_filename: PathBuf,
@@ -339,6 +340,9 @@ pub(crate) struct Shard {
     pub(crate) config: Arc<InternalConfig>,
     stats: Arc<InternalStats>,
     files: Arc<RwLock<(MmapFile, Option<MmapFile>)>>,
+    // whether any of the contents were (or may have been) flushed. if so, a file that replaces this shard's file must be
+    // synced first; otherwise there's nothing to lose, and no need to pay for it
+    maybe_flushed: Arc<AtomicBool>,
     row_locks: Arc<[RwLock<()>; NUM_ROWS]>,
     threadpool: Arc<CompactionThreadPool>,
     compaction_handle: Arc<Mutex<Option<TPHandle>>>,
@@ -465,6 +469,7 @@ impl Shard {
             config,
             stats,
             files: Arc::new(RwLock::new((mmap_file, None))),
+            maybe_flushed: Arc::new(AtomicBool::new(!truncate)),
             row_locks: Arc::new(row_locks),
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
@@ -480,6 +485,7 @@ impl Shard {
     fn new(
         span: Range<u32>,
         mmap_file: MmapFile,
+        maybe_flushed: bool,
         config: Arc<InternalConfig>,
         stats: Arc<InternalStats>,
         threadpool: Arc<CompactionThreadPool>,
@@ -495,6 +501,7 @@ impl Shard {
             config,
             stats,
             files: Arc::new(RwLock::new((mmap_file, None))),
+            maybe_flushed: Arc::new(AtomicBool::new(maybe_flushed)),
             row_locks: Arc::new(row_locks),
             threadpool,
             compaction_handle: Arc::new(Mutex::new(None)),
@@ -556,6 +563,8 @@ impl Shard {
     pub(crate) fn flush(&self) -> Result<()> {
         //self.mmap.flush()? -- fdatasync should take care of that as well
 
+        self.maybe_flushed.store(true, Ordering::SeqCst);
+
         // when called by an operation (flush aggregation), this thread already holds the lock for reading
         let files_guard = self.files.read_recursive();
         files_guard.0.file.sync_data()?;
@@ -626,8 +635,11 @@ impl Shard {
             }
         }
 
-        bottom_file.file.sync_data()?;
-        top_file.file.sync_data()?;
+        let maybe_flushed = self.maybe_flushed.load(Ordering::SeqCst);
+        if maybe_flushed {
+            bottom_file.file.sync_data()?;
+            top_file.file.sync_data()?;
+        }
 
         std::fs::rename(
             bottom_filename,
@@ -655,6 +667,7 @@ impl Shard {
         let bottom = Self::new(
             self.span.start..mid,
             bottom_file,
+            maybe_flushed,
             self.config.clone(),
             self.stats.clone(),
             self.threadpool.clone(),
@@ -662,6 +675,7 @@ impl Shard {
         let top = Self::new(
             mid..self.span.end,
             top_file,
+            maybe_flushed,
             self.config.clone(),
             self.stats.clone(),
             self.threadpool.clone(),
@@ -686,6 +700,8 @@ impl Shard {
         let combined = Shard::new(
             bottom.span.start..top.span.end,
             mmap_file,
+            bottom.maybe_flushed.load(Ordering::SeqCst)
+                || top.maybe_flushed.load(Ordering::SeqCst),
             bottom.config.clone(),
             bottom.stats.clone(),
             bottom.threadpool.clone(),
@@ -744,7 +760,9 @@ impl Shard {
             .dir_path
             .join(format!("shard_{:04x}-{:04x}", top.span.start, top.span.end));
 
-        combined_files.0.file.sync_data()?;
+        if combined.maybe_flushed.load(Ordering::SeqCst) {
+            combined_files.0.file.sync_data()?;
+        }
         std::fs::rename(tmp_filename, dst_filename)?;
 
         // the merged shard is in place, from now on the two halves are ignored (and removed when loading the store)
@@ -956,6 +974,7 @@ impl Shard {
     fn compaction_info(&self) -> CompactionInfo {
         CompactionInfo {
             files: self.files.clone(),
+            maybe_flushed: self.maybe_flushed.clone(),
             stats: self.stats.clone(),
             row_locks: self.row_locks.clone(),
             config: self.config.clone(),
@@ -1022,8 +1041,11 @@ impl Shard {
 
         Self::do_compaction(&info.row_locks, src, target, &info.stats, &info.config)?;
 
-        // the source may have been flushed, so don't replace it by something that isn't
-        target.file.sync_data()?;
+        // if the source may have been flushed, don't replace it by something that isn't. if it's flushed from now on, so
+        // is the target
+        if info.maybe_flushed.load(Ordering::SeqCst) {
+            target.file.sync_data()?;
+        }
         std::fs::rename(&info.target_filename, &info.src_filename)?;
 
         info.stats.report_compaction(
-- 
2.43.0


From 638d58cd215c0b49741db1ca6495acdef8f04a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:59 +0000
Subject: [PATCH 22/27] fix: opening must not ignore files whose type cannot be
 told because of an I/O error

---
 src/router.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index d075a31..1f8cd07 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -104,7 +104,7 @@ impl ShardRouter {
         stats: Arc<InternalStats>,
         threadpool: Arc<CompactionThreadPool>,
     ) -> Result<Self> {
-        let mut shards = if config.dir_path.join(RESET_MARKER).exists() {
+        let mut shards = if config.dir_path.join(RESET_MARKER).try_exists()? {
             // we crashed while creating or clearing the store, start over
             vec![]
         } else {
@@ -135,10 +135,7 @@ impl ShardRouter {
             let Some(filename) = filename.to_str() else {
                 continue;
             };
-            let Ok(filetype) = entry.file_type() else {
-                continue;
-            };
-            if !filetype.is_file() {
+            if !entry.file_type()?.is_file() {
                 continue;
             }
             if filename.starts_with("bottom_")
@@ -215,10 +212,7 @@ impl ShardRouter {
             let Some(filename) = filename.to_str() else {
                 continue;
             };
-            let Ok(filetype) = entry.file_type() else {
-                continue;
-            };
-            if !filetype.is_file() {
+            if !entry.file_type()?.is_file() {
                 continue;
             }
             if filename.starts_with("shard_")
@@ -371,7 +365,8 @@ impl ShardRouter {
                 Ok(())
             }
             Err(e) => {
-                if self.config.dir_path.join(RESET_MARKER).exists() {
+                let marker = self.config.dir_path.join(RESET_MARKER);
+                if marker.try_exists().unwrap_or(true) {
                     *guard = ShardNode::Unavailable;
                 }
                 Err(e)
-- 
2.43.0


From 6456b3dc93683ed4cedb7fba93a6d1b4e93fec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:59 +0000
Subject: [PATCH 23/27] fix: files with names similar to those of shards are
 not the store's

---
 src/router.rs | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 1f8cd07..19a566d 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -123,6 +123,15 @@ impl ShardRouter {
         })
     }
 
+    // only names exactly as we form them are ours, other files may have similar ones
+    fn parse_filename(filename: &str) -> Option<(&str, u32, u32)> {
+        let (kind, span) = filename.split_once("_")?;
+        let (start, end) = span.split_once("-")?;
+        let start = u32::from_str_radix(start, 16).ok()?;
+        let end = u32::from_str_radix(end, 16).ok()?;
+        (filename == format!("{kind}_{start:04x}-{end:04x}")).then_some((kind, start, end))
+    }
+
     fn load(
         config: &Arc<InternalConfig>,
         stats: &Arc<InternalStats>,
@@ -132,33 +141,22 @@ impl ShardRouter {
         for res in std::fs::read_dir(&config.dir_path)? {
             let entry = res?;
             let filename = entry.file_name();
-            let Some(filename) = filename.to_str() else {
+            let Some((kind, start, end)) = filename.to_str().and_then(Self::parse_filename) else {
                 continue;
             };
             if !entry.file_type()?.is_file() {
                 continue;
             }
-            if filename.starts_with("bottom_")
-                || filename.starts_with("top_")
-                || filename.starts_with("merge_")
-            {
+            if kind == "bottom" || kind == "top" || kind == "merge" {
                 std::fs::remove_file(entry.path())?;
                 continue;
-            } else if !filename.starts_with("shard_") {
+            } else if kind != "shard" {
                 continue;
             }
-            let Some((_, span)) = filename.split_once("_") else {
-                continue;
-            };
-            let Some((start, end)) = span.split_once("-") else {
-                continue;
-            };
-            let start = u32::from_str_radix(start, 16).expect(filename);
-            let end = u32::from_str_radix(end, 16).expect(filename);
 
             ensure!(
                 start < end && end <= Self::END_OF_SHARDS,
-                "Bad span for {filename}"
+                "Bad span for {filename:?}"
             );
 
             found_shards.push(start..end);
@@ -209,18 +207,13 @@ impl ShardRouter {
         for res in std::fs::read_dir(&config.dir_path)? {
             let entry = res?;
             let filename = entry.file_name();
-            let Some(filename) = filename.to_str() else {
+            let Some((kind, ..)) = filename.to_str().and_then(Self::parse_filename) else {
                 continue;
             };
             if !entry.file_type()?.is_file() {
                 continue;
             }
-            if filename.starts_with("shard_")
-                || filename.starts_with("compact_")
-                || filename.starts_with("bottom_")
-                || filename.starts_with("top_")
-                || filename.starts_with("merge_")
-            {
+            if ["shard", "compact", "bottom", "top", "merge"].contains(&kind) {
                 std::fs::remove_file(entry.path())?;
             }
         }
-- 
2.43.0


From 78559c06e94cd2bdb30332b6a351b0768280b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:24 +0000
Subject: [PATCH 24/27] fix: failing writes must not use up a shard's 32-bit
 offsets

---
 src/shard.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/shard.rs b/src/shard.rs
index 9224f53..c68bf04 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -232,15 +232,26 @@ impl MmapFile {
         buf[..key.len()].copy_from_slice(key);
         buf[key.len()..].copy_from_slice(val);
 
-        // atomically allocate some area. it may leak if the IO below fails or if we crash before updating the
+        // atomically allocate some area, whose offset must fit in 32 bits. it may leak if we crash before updating the
         // offsets_and_size array, but we're okay with leaks
-        let write_offset = self
-            .header()
-            .write_offset
-            .fetch_add(buf.len() as u64, Ordering::SeqCst) as u64;
+        let allocated = &self.header().write_offset;
+        let Ok(write_offset) = allocated.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |off| {
+            (off <= u32::MAX as u64).then(|| off + entry_size as u64)
+        }) else {
+            bail!("shard file is full, cannot write {entry_size} more bytes");
+        };
 
         // now writing can be non-atomic (pwrite)
-        self.file.write_all_at(&buf, HEADER_SIZE + write_offset)?;
+        if let Err(e) = self.file.write_all_at(&buf, HEADER_SIZE + write_offset) {
+            // give the area back if it's still the last one, or else it leaks (and it must not on each retry)
+            _ = allocated.compare_exchange(
+                write_offset + entry_size as u64,
+                write_offset,
+                Ordering::SeqCst,
+                Ordering::SeqCst,
+            );
+            return Err(e.into());
+        }
         stats.add_entry(entry_size);
 
         Ok(((key.len() as u64) << 48) | ((val.len() as u64) << 32) | write_offset)
-- 
2.43.0


From 77a95e8f053d62f84b7e1fa82f014c12d2ba5fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:08 +0000
Subject: [PATCH 25/27] fix: opening a store must fail if some of its shards
 are missing

---
 src/router.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/router.rs b/src/router.rs
index 19a566d..de519b2 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -163,6 +163,23 @@ impl ShardRouter {
         }
 
         let (shards_to_keep, shards_to_remove) = consolidate_ranges(found_shards);
+
+        // together the shards must cover everything, unless there's no store here yet
+        let mut covered = 0;
+        for span in &shards_to_keep {
+            ensure!(
+                span.start == covered,
+                "Shards are missing: {covered:04x}-{:04x}",
+                span.start
+            );
+            covered = span.end;
+        }
+        ensure!(
+            covered == Self::END_OF_SHARDS || shards_to_keep.is_empty(),
+            "Shards are missing: {covered:04x}-{:04x}",
+            Self::END_OF_SHARDS
+        );
+
         for span in shards_to_remove {
             std::fs::remove_file(
                 config
-- 
2.43.0


From 42aa16898972acc74fae6e0719d4c97910e343eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:53 +0000
Subject: [PATCH 26/27] fix: sizing a store for more keys than its shards can
 hold must not panic

---
 src/router.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index de519b2..ec71802 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -205,7 +205,8 @@ impl ShardRouter {
     fn calc_step(num_items: usize) -> u32 {
         let step = (Self::END_OF_SHARDS as f64)
             / (num_items as f64 / Shard::EXPECTED_CAPACITY as f64).max(1.0);
-        1 << (step as u32).ilog2()
+        // there can't be more shards than shard selectors
+        1 << (step as u32).max(1).ilog2()
     }
     pub(crate) fn calc_num_shards(num_items: usize) -> u32 {
         Self::END_OF_SHARDS / Self::calc_step(num_items)
-- 
2.43.0


From ab9f309dd34cf557716df091088cbe722d34c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:53 +0000
Subject: [PATCH 27/27] fix: a store without compaction threads must still
 compact its shards

---
 src/shard.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/shard.rs b/src/shard.rs
index c68bf04..80d23ac 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -291,6 +291,8 @@ impl CompactionThreadPool {
         let (tx, rx) = crossbeam_channel::unbounded::<
             Option<(CompactionInfo, crossbeam_channel::Sender<Result<()>>)>,
         >();
+        // there's no compaction without threads
+        let num_threads = num_threads.max(1);
         let mut threads = Vec::with_capacity(num_threads);
         for _ in 0..num_threads {
             let rx = rx.clone();
-- 
2.43.0

