From 2b3ee6e01893ad8671f36f60d8c3b5fccc0d2945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 01/27] fix: the concurrent stack destroys each value exactly
 once

---
 src/sync/stack.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 6570afa..8b2e11a 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -1,9 +1,11 @@
 use crossbeam_epoch::{self, Atomic, Owned};
+use std::mem::ManuallyDrop;
 use std::ptr;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 struct Node<T> {
-    value: T,
+    // Popping moves the value out of the node, so destroying a node must not destroy its value.
+    value: ManuallyDrop<T>,
     next: Atomic<Node<T>>,
 }
 
@@ -61,7 +63,7 @@ impl<T> Stack<T> {
     /// ```
     pub fn push(&self, value: T) {
         let mut new_node = Owned::new(Node {
-            value,
+            value: ManuallyDrop::new(value),
             next: Atomic::null(),
         });
 
@@ -112,7 +114,7 @@ impl<T> Stack<T> {
                         unsafe {
                             self.len.fetch_sub(1, Ordering::Release);
                             guard.defer(move || head_shared.into_owned());
-                            return Some(ptr::read(&(*head).value));
+                            return Some(ManuallyDrop::into_inner(ptr::read(&head.value)));
                         }
                     }
                 }
@@ -162,6 +164,12 @@ impl<T> Default for Stack<T> {
     }
 }
 
+impl<T> Drop for Stack<T> {
+    fn drop(&mut self) {
+        while self.try_pop().is_some() {}
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::Stack;
-- 
2.43.0


From 15d7e52d94b0c0a69547963bc3c4e7794e184bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 02/27] fix: the concurrent stack's length never wraps below
 zero

---
 src/sync/stack.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 8b2e11a..2fe7972 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -67,6 +67,9 @@ impl<T> Stack<T> {
             next: Atomic::null(),
         });
 
+        // Count the value before it can be popped: otherwise a pop may decrement `len` below zero.
+        self.len.fetch_add(1, Ordering::Release);
+
         let guard = &crossbeam_epoch::pin();
         loop {
             let head_shared = self.head.load(Ordering::Relaxed, guard);
@@ -75,10 +78,7 @@ impl<T> Stack<T> {
                 .head
                 .compare_and_set(head_shared, new_node, Ordering::Release, guard)
             {
-                Ok(_) => {
-                    self.len.fetch_add(1, Ordering::Release);
-                    break;
-                }
+                Ok(_) => break,
                 Err(e) => new_node = e.new,
             }
         }
-- 
2.43.0


From 0102165d45bcbd4e6e4308fc61d5307cc8215410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:31 +0000
Subject: [PATCH 03/27] fix: LsmMap::min and max skip keys removed in memory
 but still on disk

---
 src/lsm_tree/map.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index a5a38d0..679d96e 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -87,6 +87,13 @@ where
         }
     }
 
+    fn is_in_memory_tombstone(&self, key: &T) -> bool {
+        match self.in_memory_tree.get(key) {
+            Some(value) => value.data.is_none(),
+            None => false,
+        }
+    }
+
     fn try_compact(&mut self) -> Result<()> {
         self.in_memory_usage = 0;
         let mut sstable_builder = SSTableBuilder::new(
@@ -406,7 +413,16 @@ where
             .iter()
             .find(|entry| entry.1.data.is_some())
             .map(|entry| entry.0.clone());
-        let disk_min = self.compaction_strategy.min()?;
+
+        // The first key on disk that is not hidden by a tombstone in the in-memory tree.
+        let mut disk_min = None;
+        for entry in self.compaction_strategy.iter()? {
+            let key = entry?.0;
+            if !self.is_in_memory_tombstone(&key) {
+                disk_min = Some(key);
+                break;
+            }
+        }
 
         if in_memory_min.is_none() {
             Ok(disk_min)
@@ -440,13 +456,22 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn max(&mut self) -> Result<Option<T>> {
+        // The last key on disk that is not hidden by a tombstone in the in-memory tree.
+        let mut disk_max = None;
+        for entry in self.compaction_strategy.iter()? {
+            let key = entry?.0;
+            if !self.is_in_memory_tombstone(&key) {
+                disk_max = Some(key);
+            }
+        }
+
         Ok(cmp::max(
             self.in_memory_tree
                 .iter()
                 .rev()
                 .find(|entry| entry.1.data.is_some())
                 .map(|entry| entry.0.clone()),
-            self.compaction_strategy.max()?,
+            disk_max,
         ))
     }
 
-- 
2.43.0


From fbfa591e4a33df2cb079669989dc0d5735649dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:31 +0000
Subject: [PATCH 04/27] fix: an LSM store that was never written can be opened

---
 src/lsm_tree/compaction/leveled.rs     | 2 ++
 src/lsm_tree/compaction/size_tiered.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index ac7bd62..1bad9db 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -190,6 +190,8 @@ where
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
         }
+        ret.logical_time_file
+            .write_u64::<BigEndian>(ret.curr_logical_time)?;
 
         Ok(ret)
     }
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index bd44d8d..c9614da 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -244,6 +244,8 @@ impl<T, U> SizeTieredStrategy<T, U> {
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
         }
+        ret.logical_time_file
+            .write_u64::<BigEndian>(ret.curr_logical_time)?;
 
         Ok(ret)
     }
-- 
2.43.0


From a3947031bb0586db027982ed51620594e7f8ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:59 +0000
Subject: [PATCH 05/27] fix: compaction leaves no empty table folder behind

---
 src/lsm_tree/compaction/leveled.rs     | 8 ++++++--
 src/lsm_tree/compaction/size_tiered.rs | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 1bad9db..78a9013 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -349,6 +349,8 @@ where
         if sstable_builder.key_range.is_some() {
             let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
             metadata_snapshot.insert_sstable(0, new_sstable);
+        } else {
+            fs::remove_dir_all(sstable_builder.sstable_path.as_path())?;
         }
 
         // compacting L1 and onwards
@@ -379,13 +381,13 @@ where
                         .expect("Expected SSTable to remove to exist.")
                 };
 
-                let mut sstable_builder = SSTableBuilder::new(path.as_ref(), entry_count_hint)?;
-
                 if index + 1 == metadata_snapshot.levels.len() {
                     metadata_snapshot.insert_sstable(index + 1, sstable);
                     continue;
                 }
 
+                let mut sstable_builder = SSTableBuilder::new(path.as_ref(), entry_count_hint)?;
+
                 let sstable_data_iter = sstable.data_iter();
                 let level = mem::replace(&mut metadata_snapshot.levels[index + 1], BTreeMap::new());
                 let (old_level, new_level): (BTreeMap<_, _>, BTreeMap<_, _>) =
@@ -424,6 +426,8 @@ where
                 if sstable_builder.key_range.is_some() {
                     let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
                     metadata_snapshot.insert_sstable(index + 1, new_sstable);
+                } else {
+                    fs::remove_dir_all(sstable_builder.sstable_path.as_path())?;
                 }
             }
         }
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index c9614da..8598bf9 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -145,6 +145,8 @@ impl<T, U> SizeTieredMetadata<T, U> {
 
         if sstable_builder.key_range.is_some() {
             self.push_sstable(Arc::new(SSTable::new(sstable_builder.flush()?)?));
+        } else {
+            fs::remove_dir_all(sstable_builder.sstable_path.as_path())?;
         }
 
         Ok(())
-- 
2.43.0


From a1c1df26c96b51c16bb3ca645401a59b870fe930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:25 +0000
Subject: [PATCH 06/27] fix: leveled compaction removes tables it merges away
 itself

---
 src/lsm_tree/compaction/leveled.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 78a9013..ebe48d0 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -306,6 +306,9 @@ where
     {
         println!("Started compacting.");
 
+        // paths of all SSTables built by this compaction
+        let mut built_paths = Vec::new();
+
         if metadata_snapshot.levels.is_empty() {
             metadata_snapshot.levels.push(BTreeMap::new());
         }
@@ -341,6 +344,7 @@ where
 
             if sstable_builder.size > metadata_snapshot.max_sstable_size {
                 let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
+                built_paths.push(new_sstable.path.clone());
                 metadata_snapshot.insert_sstable(0, new_sstable);
                 sstable_builder = SSTableBuilder::new(path.as_ref(), entry_count_hint)?;
             }
@@ -348,6 +352,7 @@ where
 
         if sstable_builder.key_range.is_some() {
             let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
+            built_paths.push(new_sstable.path.clone());
             metadata_snapshot.insert_sstable(0, new_sstable);
         } else {
             fs::remove_dir_all(sstable_builder.sstable_path.as_path())?;
@@ -418,6 +423,7 @@ where
 
                     if sstable_builder.size > metadata_snapshot.max_sstable_size {
                         let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
+                        built_paths.push(new_sstable.path.clone());
                         metadata_snapshot.insert_sstable(index + 1, new_sstable);
                         sstable_builder = SSTableBuilder::new(path.as_ref(), entry_count_hint)?;
                     }
@@ -425,6 +431,7 @@ where
 
                 if sstable_builder.key_range.is_some() {
                     let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
+                    built_paths.push(new_sstable.path.clone());
                     metadata_snapshot.insert_sstable(index + 1, new_sstable);
                 } else {
                     fs::remove_dir_all(sstable_builder.sstable_path.as_path())?;
@@ -432,6 +439,20 @@ where
             }
         }
 
+        // removing SSTables that were merged into a larger level by the same compaction
+        {
+            let final_paths: HashSet<_> = metadata_snapshot
+                .levels
+                .iter()
+                .flat_map(|level| level.values().map(|sstable| &sstable.path))
+                .collect();
+            for path in &built_paths {
+                if !final_paths.contains(path) {
+                    fs::remove_dir_all(path)?;
+                }
+            }
+        }
+
         *next_metadata.lock().unwrap() = Some(metadata_snapshot);
 
         is_compacting.store(false, Ordering::Release);
-- 
2.43.0


From 587570faef7f2a5c1cfedea48b1f95a19b6e3a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:18 +0000
Subject: [PATCH 07/27] fix: an LSM map keeps its in-memory entries until they
 are on disk

---
 src/lsm_tree/map.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index 679d96e..08a8e74 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -7,7 +7,6 @@ use std::borrow::Borrow;
 use std::cmp;
 use std::collections::BTreeMap;
 use std::hash::Hash;
-use std::mem;
 
 /// An ordered map implemented using a log structured merge-tree.
 ///
@@ -95,16 +94,24 @@ where
     }
 
     fn try_compact(&mut self) -> Result<()> {
-        self.in_memory_usage = 0;
         let mut sstable_builder = SSTableBuilder::new(
             self.compaction_strategy.get_path(),
             self.in_memory_tree.len(),
         )?;
-        for entry in mem::replace(&mut self.in_memory_tree, BTreeMap::new()) {
-            sstable_builder.append(entry.0, entry.1)?;
+        for (key, value) in &self.in_memory_tree {
+            let value = SSTableValue {
+                data: value.data.clone(),
+                logical_time: value.logical_time,
+            };
+            sstable_builder.append(key.clone(), value)?;
         }
         let sstable = SSTable::new(sstable_builder.flush()?)?;
-        self.compaction_strategy.try_compact(sstable)
+        self.compaction_strategy.try_compact(sstable)?;
+
+        // The entries may only leave the in-memory tree once they are stored on disk.
+        self.in_memory_tree.clear();
+        self.in_memory_usage = 0;
+        Ok(())
     }
 
     /// Inserts a key-value pair into the map. If the key-value pair causes the size of the
-- 
2.43.0


From f207b4fd4d0c04621c7b256f69916590a5cb6130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:45 +0000
Subject: [PATCH 08/27] fix: an LSM iterator that fails to start no longer
 blocks compaction

---
 src/lsm_tree/compaction/leveled.rs     | 10 ++++++----
 src/lsm_tree/compaction/size_tiered.rs | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index ebe48d0..c8da3cf 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -750,10 +750,6 @@ where
         mut sstable_data_iters: Vec<SSTableDataIter<T, U>>,
         mut level_data_iters: Vec<VecDeque<SSTableDataIter<T, U>>>,
     ) -> Result<Self> {
-        if let Some(ref metadata_lock_count) = metadata_lock_count {
-            metadata_lock_count.set(metadata_lock_count.get() + 1);
-        }
-
         let mut entries = BinaryHeap::new();
 
         for (index, sstable_data_iter) in sstable_data_iters.iter_mut().enumerate() {
@@ -778,6 +774,12 @@ where
             }
         }
 
+        // The count is decremented when the iterator is dropped, so it may only be incremented once
+        // nothing can fail anymore.
+        if let Some(ref metadata_lock_count) = metadata_lock_count {
+            metadata_lock_count.set(metadata_lock_count.get() + 1);
+        }
+
         Ok(LeveledIter {
             metadata_lock_count,
             sstable_data_iters,
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 8598bf9..6a05d2e 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -585,10 +585,6 @@ where
         metadata_lock_count: Option<Rc<Cell<u64>>>,
         mut sstable_data_iters: Vec<SSTableDataIter<T, U>>,
     ) -> Result<Self> {
-        if let Some(ref metadata_lock_count) = metadata_lock_count {
-            metadata_lock_count.set(metadata_lock_count.get() + 1);
-        }
-
         let mut entries = BinaryHeap::new();
 
         for (index, sstable_data_iter) in sstable_data_iters.iter_mut().enumerate() {
@@ -598,6 +594,12 @@ where
             }
         }
 
+        // The count is decremented when the iterator is dropped, so it may only be incremented once
+        // nothing can fail anymore.
+        if let Some(ref metadata_lock_count) = metadata_lock_count {
+            metadata_lock_count.set(metadata_lock_count.get() + 1);
+        }
+
         Ok(SizeTieredIter {
             metadata_lock_count,
             sstable_data_iters,
-- 
2.43.0


From 83d43fe09db09f1a507f70b84ef458e31bd247ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:45 +0000
Subject: [PATCH 09/27] fix: LSM len and max report read errors

---
 src/lsm_tree/compaction/leveled.rs     | 9 ++++-----
 src/lsm_tree/compaction/size_tiered.rs | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index c8da3cf..00701fe 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -618,7 +618,8 @@ where
     }
 
     fn len(&mut self) -> Result<usize> {
-        Ok(self.iter()?.count())
+        self.iter()?
+            .try_fold(0, |count, entry| entry.map(|_| count + 1))
     }
 
     fn is_empty(&mut self) -> Result<bool> {
@@ -660,10 +661,8 @@ where
     }
 
     fn max(&mut self) -> Result<Option<T>> {
-        match self.iter()?.last() {
-            Some(entry) => Ok(Some(entry?.0)),
-            None => Ok(None),
-        }
+        self.iter()?
+            .try_fold(None, |_, entry| entry.map(|entry| Some(entry.0)))
     }
 
     fn iter(&mut self) -> Result<Box<CompactionIter<T, U>>> {
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 6a05d2e..030b821 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -492,7 +492,8 @@ where
     }
 
     fn len(&mut self) -> Result<usize> {
-        Ok(self.iter()?.count())
+        self.iter()?
+            .try_fold(0, |count, entry| entry.map(|_| count + 1))
     }
 
     fn is_empty(&mut self) -> Result<bool> {
@@ -533,10 +534,8 @@ where
     }
 
     fn max(&mut self) -> Result<Option<T>> {
-        match self.iter()?.last() {
-            Some(entry) => Ok(Some(entry?.0)),
-            None => Ok(None),
-        }
+        self.iter()?
+            .try_fold(None, |_, entry| entry.map(|entry| Some(entry.0)))
     }
 
     fn iter(&mut self) -> Result<Box<CompactionIter<T, U>>> {
-- 
2.43.0


From d2d83b7716f793c58c0e3ecb1e8d878f0a896b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:23 +0000
Subject: [PATCH 10/27] fix: an LSM store survives a refused compaction thread

---
 src/lsm_tree/compaction/leveled.rs     | 21 ++++++++++++++++-----
 src/lsm_tree/compaction/size_tiered.rs | 22 +++++++++++++++++-----
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 00701fe..c481de6 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -1,6 +1,8 @@
 use crate::entry::Entry;
 use crate::lsm_tree::compaction::{CompactionIter, CompactionStrategy};
-use crate::lsm_tree::{sstable, Result, SSTable, SSTableBuilder, SSTableDataIter, SSTableValue};
+use crate::lsm_tree::{
+    sstable, Error, Result, SSTable, SSTableBuilder, SSTableDataIter, SSTableValue,
+};
 use bincode::{deserialize, serialize};
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use serde::de::DeserializeOwned;
@@ -461,7 +463,7 @@ where
         Ok(())
     }
 
-    fn spawn_compaction_thread(&mut self, metadata_snapshot: LeveledMetadata<T, U>)
+    fn spawn_compaction_thread(&mut self, metadata_snapshot: LeveledMetadata<T, U>) -> Result<()>
     where
         T: 'static + Clone + DeserializeOwned + Hash + Send + Serialize + Sync,
         U: 'static + DeserializeOwned + Serialize + Send + Sync,
@@ -470,7 +472,7 @@ where
         let next_metadata = self.next_metadata.clone();
         let is_compacting = self.is_compacting.clone();
         self.is_compacting.store(true, Ordering::Release);
-        self.compaction_thread_join_handle = Some(thread::spawn(move || {
+        let spawn_result = thread::Builder::new().spawn(move || {
             let compaction_result =
                 LeveledStrategy::compact(path, &is_compacting, metadata_snapshot, &next_metadata);
 
@@ -481,7 +483,16 @@ where
                     println!("Compaction terminated with error: {:?}", error);
                 }
             }
-        }))
+        });
+
+        match spawn_result {
+            Ok(join_handle) => self.compaction_thread_join_handle = Some(join_handle),
+            Err(error) => {
+                self.is_compacting.store(false, Ordering::Release);
+                return Err(Error::from(error));
+            }
+        }
+        Ok(())
     }
 }
 
@@ -530,7 +541,7 @@ where
         };
 
         if metadata_snapshot.sstables.len() > metadata_snapshot.max_sstable_count {
-            self.spawn_compaction_thread(metadata_snapshot);
+            self.spawn_compaction_thread(metadata_snapshot)?;
         }
 
         Ok(())
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 030b821..ef44631 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -1,6 +1,8 @@
 use crate::entry::Entry;
 use crate::lsm_tree::compaction::{CompactionIter, CompactionStrategy};
-use crate::lsm_tree::{sstable, Result, SSTable, SSTableBuilder, SSTableDataIter, SSTableValue};
+use crate::lsm_tree::{
+    sstable, Error, Result, SSTable, SSTableBuilder, SSTableDataIter, SSTableValue,
+};
 use bincode::{deserialize, serialize};
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use serde::de::DeserializeOwned;
@@ -324,7 +326,8 @@ impl<T, U> SizeTieredStrategy<T, U> {
         &mut self,
         metadata_snapshot: SizeTieredMetadata<T, U>,
         range: (usize, usize),
-    ) where
+    ) -> Result<()>
+    where
         T: 'static + Clone + DeserializeOwned + Hash + Ord + Send + Serialize + Sync,
         U: 'static + DeserializeOwned + Send + Serialize + Sync,
     {
@@ -332,7 +335,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
         let next_metadata = self.next_metadata.clone();
         let is_compacting = self.is_compacting.clone();
         self.is_compacting.store(true, Ordering::Release);
-        self.compaction_thread_join_handle = Some(thread::spawn(move || {
+        let spawn_result = thread::Builder::new().spawn(move || {
             let compaction_result = SizeTieredStrategy::compact(
                 path,
                 &is_compacting,
@@ -348,7 +351,16 @@ impl<T, U> SizeTieredStrategy<T, U> {
                     println!("Compaction terminated with error: {:?}", error);
                 }
             }
-        }));
+        });
+
+        match spawn_result {
+            Ok(join_handle) => self.compaction_thread_join_handle = Some(join_handle),
+            Err(error) => {
+                self.is_compacting.store(false, Ordering::Release);
+                return Err(Error::from(error));
+            }
+        }
+        Ok(())
     }
 
     fn try_replace_metadata(
@@ -431,7 +443,7 @@ where
         };
 
         if let Some(range) = metadata_snapshot.get_compaction_range() {
-            self.spawn_compaction_thread(metadata_snapshot, range);
+            self.spawn_compaction_thread(metadata_snapshot, range)?;
         }
 
         Ok(())
-- 
2.43.0


From 261d5c5e7e15c3f502312d721f11f97fb31b0e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:10 +0000
Subject: [PATCH 11/27] fix: LSM metadata is replaced atomically and before its
 old tables go

---
 src/lsm_tree/compaction/leveled.rs     | 86 +++++++++++---------------
 src/lsm_tree/compaction/size_tiered.rs | 83 +++++++++++--------------
 src/lsm_tree/map.rs                    |  4 +-
 3 files changed, 76 insertions(+), 97 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index c481de6..a85cac6 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -15,7 +15,7 @@ use std::collections::{BTreeMap, BinaryHeap, HashSet, VecDeque};
 use std::fmt::{self, Debug};
 use std::fs;
 use std::hash::Hash;
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{Seek, SeekFrom};
 use std::mem;
 use std::ops::Bound::{Included, Unbounded};
 use std::path::{Path, PathBuf};
@@ -118,7 +118,6 @@ where
     curr_logical_time: u64,
     logical_time_file: fs::File,
     metadata_lock_count: Rc<Cell<u64>>,
-    metadata_file: fs::File,
     curr_metadata: Arc<Mutex<LeveledMetadata<T, U>>>,
     next_metadata: Arc<Mutex<Option<LeveledMetadata<T, U>>>>,
 }
@@ -159,11 +158,6 @@ where
     {
         fs::create_dir(path.as_ref())?;
 
-        let metadata_file = fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .create(true)
-            .open(path.as_ref().join("metadata.dat"))?;
         let logical_time_file = fs::OpenOptions::new()
             .read(true)
             .write(true)
@@ -176,7 +170,6 @@ where
             curr_logical_time: 0,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
-            metadata_file,
             curr_metadata: Arc::new(Mutex::new(LeveledMetadata::new(
                 max_in_memory_size,
                 max_sstable_count,
@@ -189,8 +182,7 @@ where
 
         {
             let curr_metadata = ret.curr_metadata.lock().unwrap();
-            ret.metadata_file.seek(SeekFrom::Start(0))?;
-            ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            ret.write_metadata(&curr_metadata)?;
         }
         ret.logical_time_file
             .write_u64::<BigEndian>(ret.curr_logical_time)?;
@@ -220,16 +212,11 @@ where
         U: DeserializeOwned,
         P: AsRef<Path>,
     {
-        let mut metadata_file = fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .open(path.as_ref().join("metadata.dat"))?;
+        let buffer = fs::read(path.as_ref().join("metadata.dat"))?;
         let mut logical_time_file = fs::OpenOptions::new()
             .read(true)
             .write(true)
             .open(path.as_ref().join("logical_time.dat"))?;
-        let mut buffer = Vec::new();
-        metadata_file.read_to_end(&mut buffer)?;
         logical_time_file.seek(SeekFrom::Start(0))?;
         Ok(LeveledStrategy {
             path: PathBuf::from(path.as_ref()),
@@ -238,16 +225,32 @@ where
             curr_logical_time: logical_time_file.read_u64::<BigEndian>()?,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
-            metadata_file,
             curr_metadata: Arc::new(Mutex::new(deserialize(&buffer)?)),
             next_metadata: Arc::new(Mutex::new(None)),
         })
     }
 
+    // Writes the metadata to a new file that then replaces the previous one, so that a complete
+    // version of the metadata exists on disk at any time.
+    fn write_metadata(&self, metadata: &LeveledMetadata<T, U>) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
+        let new_path = self.path.join("metadata.dat.new");
+        fs::write(&new_path, &serialize(metadata)?)?;
+        fs::rename(&new_path, self.path.join("metadata.dat"))?;
+        Ok(())
+    }
+
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, LeveledMetadata<T, U>>,
-    ) -> Result<bool> {
+    ) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
@@ -271,6 +274,9 @@ where
                     .map(|sstable| Arc::clone(sstable)),
             );
 
+            // SSTables may only be removed once the metadata on disk does not refer to them.
+            self.write_metadata(curr_metadata)?;
+
             let path_iter = curr_metadata.sstables.iter().map(|sstable| &sstable.path);
             let level_path_iter = curr_metadata
                 .levels
@@ -288,11 +294,9 @@ where
                     fs::remove_dir_all(path)?;
                 }
             }
-
-            Ok(true)
-        } else {
-            Ok(false)
         }
+
+        Ok(())
     }
 
     fn compact<P>(
@@ -522,8 +526,7 @@ where
         {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
             curr_metadata.push_sstable(Arc::new(sstable));
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            self.write_metadata(&curr_metadata)?;
         }
 
         if self.is_compacting.load(Ordering::Acquire) || self.metadata_lock_count.get() != 0 {
@@ -533,10 +536,7 @@ where
         // taking snapshot of current metadata
         let metadata_snapshot = {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
             curr_metadata.clone()
         };
 
@@ -555,10 +555,7 @@ where
             }
 
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
         }
         Ok(())
     }
@@ -569,10 +566,7 @@ where
         V: Ord + Hash + ?Sized,
     {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let mut ret = None;
         for sstable in &curr_metadata.sstables {
@@ -603,10 +597,7 @@ where
 
     fn len_hint(&mut self) -> Result<usize> {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstables_len_hint: usize = curr_metadata
             .sstables
@@ -647,8 +638,11 @@ where
 
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         let mut next_metadata = self.next_metadata.lock().unwrap();
-        curr_metadata.sstables.clear();
-        curr_metadata.levels.clear();
+        let mut empty_metadata = curr_metadata.clone();
+        empty_metadata.sstables.clear();
+        empty_metadata.levels.clear();
+        self.write_metadata(&empty_metadata)?;
+        *curr_metadata = empty_metadata;
         *next_metadata = None;
 
         for dir_entry in fs::read_dir(self.path.as_path())? {
@@ -658,9 +652,6 @@ where
             }
         }
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         Ok(())
     }
 
@@ -680,10 +671,7 @@ where
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         // should never need to replace metadata as the compaction thread should not be running
         // when yielding calling iter.
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstable_data_iters = curr_metadata
             .sstables
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index ef44631..309b93e 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -14,7 +14,7 @@ use std::cmp;
 use std::collections::{BinaryHeap, HashSet};
 use std::fs;
 use std::hash::Hash;
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{Seek, SeekFrom};
 use std::iter::FromIterator;
 use std::marker::Send;
 use std::mem;
@@ -177,7 +177,6 @@ pub struct SizeTieredStrategy<T, U> {
     curr_logical_time: u64,
     logical_time_file: fs::File,
     metadata_lock_count: Rc<Cell<u64>>,
-    metadata_file: fs::File,
     curr_metadata: Arc<Mutex<SizeTieredMetadata<T, U>>>,
     next_metadata: Arc<Mutex<Option<SizeTieredMetadata<T, U>>>>,
 }
@@ -215,11 +214,6 @@ impl<T, U> SizeTieredStrategy<T, U> {
     {
         fs::create_dir(path.as_ref())?;
 
-        let metadata_file = fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .create(true)
-            .open(path.as_ref().join("metadata.dat"))?;
         let logical_time_file = fs::OpenOptions::new()
             .read(true)
             .write(true)
@@ -232,7 +226,6 @@ impl<T, U> SizeTieredStrategy<T, U> {
             curr_logical_time: 0,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
-            metadata_file,
             curr_metadata: Arc::new(Mutex::new(SizeTieredMetadata::new(
                 max_in_memory_size,
                 max_sstable_count,
@@ -245,8 +238,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
 
         {
             let curr_metadata = ret.curr_metadata.lock().unwrap();
-            ret.metadata_file.seek(SeekFrom::Start(0))?;
-            ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            ret.write_metadata(&curr_metadata)?;
         }
         ret.logical_time_file
             .write_u64::<BigEndian>(ret.curr_logical_time)?;
@@ -276,16 +268,11 @@ impl<T, U> SizeTieredStrategy<T, U> {
         U: DeserializeOwned,
         P: AsRef<Path>,
     {
-        let mut metadata_file = fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .open(path.as_ref().join("metadata.dat"))?;
+        let buffer = fs::read(path.as_ref().join("metadata.dat"))?;
         let mut logical_time_file = fs::OpenOptions::new()
             .read(true)
             .write(true)
             .open(path.as_ref().join("logical_time.dat"))?;
-        let mut buffer = Vec::new();
-        metadata_file.read_to_end(&mut buffer)?;
         logical_time_file.seek(SeekFrom::Start(0))?;
         Ok(SizeTieredStrategy {
             path: PathBuf::from(path.as_ref()),
@@ -294,7 +281,6 @@ impl<T, U> SizeTieredStrategy<T, U> {
             curr_logical_time: logical_time_file.read_u64::<BigEndian>()?,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
-            metadata_file,
             curr_metadata: Arc::new(Mutex::new(deserialize(&buffer)?)),
             next_metadata: Arc::new(Mutex::new(None)),
         })
@@ -363,10 +349,27 @@ impl<T, U> SizeTieredStrategy<T, U> {
         Ok(())
     }
 
+    // Writes the metadata to a new file that then replaces the previous one, so that a complete
+    // version of the metadata exists on disk at any time.
+    fn write_metadata(&self, metadata: &SizeTieredMetadata<T, U>) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
+        let new_path = self.path.join("metadata.dat.new");
+        fs::write(&new_path, &serialize(metadata)?)?;
+        fs::rename(&new_path, self.path.join("metadata.dat"))?;
+        Ok(())
+    }
+
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, SizeTieredMetadata<T, U>>,
-    ) -> Result<bool> {
+    ) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
@@ -383,6 +386,9 @@ impl<T, U> SizeTieredStrategy<T, U> {
                     .map(|sstable| Arc::clone(sstable)),
             );
 
+            // SSTables may only be removed once the metadata on disk does not refer to them.
+            self.write_metadata(curr_metadata)?;
+
             let new_sstable_iter = curr_metadata.sstables.iter().map(|sstable| &sstable.path);
             let new_sstable_paths: HashSet<&PathBuf> = HashSet::from_iter(new_sstable_iter);
 
@@ -391,10 +397,9 @@ impl<T, U> SizeTieredStrategy<T, U> {
                     fs::remove_dir_all(old_sstable.path.as_path())?;
                 }
             }
-            Ok(true)
-        } else {
-            Ok(false)
         }
+
+        Ok(())
     }
 }
 
@@ -424,8 +429,7 @@ where
         {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
             curr_metadata.push_sstable(Arc::new(sstable));
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            self.write_metadata(&curr_metadata)?;
         }
 
         if self.is_compacting.load(Ordering::Acquire) || self.metadata_lock_count.get() != 0 {
@@ -435,10 +439,7 @@ where
         // taking snapshot of current metadata
         let mut metadata_snapshot = {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
             curr_metadata.clone()
         };
 
@@ -457,10 +458,7 @@ where
             }
 
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
         }
         Ok(())
     }
@@ -471,10 +469,7 @@ where
         V: Ord + Hash + ?Sized,
     {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let mut ret = None;
         for sstable in &curr_metadata.sstables {
@@ -489,10 +484,7 @@ where
 
     fn len_hint(&mut self) -> Result<usize> {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let len_hint = curr_metadata
             .sstables
@@ -522,7 +514,10 @@ where
 
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         let mut next_metadata = self.next_metadata.lock().unwrap();
-        curr_metadata.sstables.clear();
+        let mut empty_metadata = curr_metadata.clone();
+        empty_metadata.sstables.clear();
+        self.write_metadata(&empty_metadata)?;
+        *curr_metadata = empty_metadata;
         *next_metadata = None;
 
         for dir_entry in fs::read_dir(self.path.as_path())? {
@@ -532,9 +527,6 @@ where
             }
         }
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         Ok(())
     }
 
@@ -554,10 +546,7 @@ where
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         // should never need to replace metadata as the compaction thread should not be running
         // when yielding calling iter.
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstable_data_iters = curr_metadata
             .sstables
diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index 08a8e74..0935e83 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -388,8 +388,10 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn clear(&mut self) -> Result<()> {
+        self.compaction_strategy.clear()?;
         self.in_memory_tree.clear();
-        self.compaction_strategy.clear()
+        self.in_memory_usage = 0;
+        Ok(())
     }
 
     /// Returns the minimum key of the map. Returns `None` if the map is empty.
-- 
2.43.0


From 56da461e011885f3ab2bd4e9e6ce98d19688105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:38 +0000
Subject: [PATCH 12/27] fix: adopting a compaction never brings back the tables
 it merged

---
 src/lsm_tree/compaction/leveled.rs     | 19 +++++++------------
 src/lsm_tree/compaction/size_tiered.rs | 13 +++++++------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index a85cac6..7eb341f 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -115,6 +115,8 @@ where
     path: PathBuf,
     compaction_thread_join_handle: Option<thread::JoinHandle<()>>,
     is_compacting: Arc<AtomicBool>,
+    // number of SSTables in the snapshot of the last compaction
+    compaction_sstable_count: usize,
     curr_logical_time: u64,
     logical_time_file: fs::File,
     metadata_lock_count: Rc<Cell<u64>>,
@@ -167,6 +169,7 @@ where
             path: PathBuf::from(path.as_ref()),
             compaction_thread_join_handle: None,
             is_compacting: Arc::new(AtomicBool::new(false)),
+            compaction_sstable_count: 0,
             curr_logical_time: 0,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
@@ -222,6 +225,7 @@ where
             path: PathBuf::from(path.as_ref()),
             compaction_thread_join_handle: None,
             is_compacting: Arc::new(AtomicBool::new(false)),
+            compaction_sstable_count: 0,
             curr_logical_time: logical_time_file.read_u64::<BigEndian>()?,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
@@ -254,23 +258,13 @@ where
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
-            let logical_time_opt = next_metadata
-                .levels
-                .iter()
-                .map(|level_entry| {
-                    level_entry
-                        .iter()
-                        .map(|level_entry| level_entry.1.summary.logical_time_range.1)
-                        .max()
-                })
-                .max()
-                .and_then(|max_opt| max_opt);
             let old_sstables = mem::replace(&mut curr_metadata.sstables, next_metadata.sstables);
             let old_levels = mem::replace(&mut curr_metadata.levels, next_metadata.levels);
+            // keeping the SSTables that were added after the snapshot for the compaction was taken
             curr_metadata.sstables.extend(
                 old_sstables
                     .iter()
-                    .filter(|sstable| Some(sstable.summary.logical_time_range.0) > logical_time_opt)
+                    .skip(self.compaction_sstable_count)
                     .map(|sstable| Arc::clone(sstable)),
             );
 
@@ -476,6 +470,7 @@ where
         let next_metadata = self.next_metadata.clone();
         let is_compacting = self.is_compacting.clone();
         self.is_compacting.store(true, Ordering::Release);
+        self.compaction_sstable_count = metadata_snapshot.sstables.len();
         let spawn_result = thread::Builder::new().spawn(move || {
             let compaction_result =
                 LeveledStrategy::compact(path, &is_compacting, metadata_snapshot, &next_metadata);
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 309b93e..4f47afd 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -174,6 +174,8 @@ pub struct SizeTieredStrategy<T, U> {
     path: PathBuf,
     compaction_thread_join_handle: Option<thread::JoinHandle<()>>,
     is_compacting: Arc<AtomicBool>,
+    // number of SSTables in the snapshot of the last compaction
+    compaction_sstable_count: usize,
     curr_logical_time: u64,
     logical_time_file: fs::File,
     metadata_lock_count: Rc<Cell<u64>>,
@@ -223,6 +225,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
             path: PathBuf::from(path.as_ref()),
             compaction_thread_join_handle: None,
             is_compacting: Arc::new(AtomicBool::new(false)),
+            compaction_sstable_count: 0,
             curr_logical_time: 0,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
@@ -278,6 +281,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
             path: PathBuf::from(path.as_ref()),
             compaction_thread_join_handle: None,
             is_compacting: Arc::new(AtomicBool::new(false)),
+            compaction_sstable_count: 0,
             curr_logical_time: logical_time_file.read_u64::<BigEndian>()?,
             logical_time_file,
             metadata_lock_count: Rc::new(Cell::new(0)),
@@ -321,6 +325,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
         let next_metadata = self.next_metadata.clone();
         let is_compacting = self.is_compacting.clone();
         self.is_compacting.store(true, Ordering::Release);
+        self.compaction_sstable_count = metadata_snapshot.sstables.len();
         let spawn_result = thread::Builder::new().spawn(move || {
             let compaction_result = SizeTieredStrategy::compact(
                 path,
@@ -373,16 +378,12 @@ impl<T, U> SizeTieredStrategy<T, U> {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some(next_metadata) = next_metadata.take() {
-            let logical_time_opt = next_metadata
-                .sstables
-                .iter()
-                .map(|sstable| sstable.summary.logical_time_range.1)
-                .max();
             let old_sstables = mem::replace(&mut curr_metadata.sstables, next_metadata.sstables);
+            // keeping the SSTables that were added after the snapshot for the compaction was taken
             curr_metadata.sstables.extend(
                 old_sstables
                     .iter()
-                    .filter(|sstable| Some(sstable.summary.logical_time_range.1) > logical_time_opt)
+                    .skip(self.compaction_sstable_count)
                     .map(|sstable| Arc::clone(sstable)),
             );
 
-- 
2.43.0


From ca8a00c6e27d73b20d1619709c9b36e90b94ef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:20 +0000
Subject: [PATCH 13/27] fix: no compaction thread outlives its LSM store

---
 src/lsm_tree/compaction/leveled.rs     | 13 +++++++++++++
 src/lsm_tree/compaction/size_tiered.rs | 10 ++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 7eb341f..d322f2c 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -495,6 +495,19 @@ where
     }
 }
 
+impl<T, U> Drop for LeveledStrategy<T, U>
+where
+    T: Ord,
+{
+    fn drop(&mut self) {
+        // The compaction thread may not outlive the strategy: it would still write to the folder
+        // after the folder has been opened again or removed.
+        if let Some(compaction_thread_join_handle) = self.compaction_thread_join_handle.take() {
+            let _ = compaction_thread_join_handle.join();
+        }
+    }
+}
+
 impl<T, U> CompactionStrategy<T, U> for LeveledStrategy<T, U>
 where
     T: 'static + Clone + DeserializeOwned + Hash + Ord + Send + Serialize + Sync,
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 4f47afd..ad25769 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -404,6 +404,16 @@ impl<T, U> SizeTieredStrategy<T, U> {
     }
 }
 
+impl<T, U> Drop for SizeTieredStrategy<T, U> {
+    fn drop(&mut self) {
+        // The compaction thread may not outlive the strategy: it would still write to the folder
+        // after the folder has been opened again or removed.
+        if let Some(compaction_thread_join_handle) = self.compaction_thread_join_handle.take() {
+            let _ = compaction_thread_join_handle.join();
+        }
+    }
+}
+
 impl<T, U> CompactionStrategy<T, U> for SizeTieredStrategy<T, U>
 where
     T: 'static + Clone + DeserializeOwned + Hash + Ord + Send + Serialize + Sync,
-- 
2.43.0


From 13f253f29e8401bb0cff4564d99211de4cf9179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:41 +0000
Subject: [PATCH 14/27] fix: B+ tree pages are large enough for a full node of
 any type

---
 src/bp_tree/node.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index e4f79b1..128e121 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -371,9 +371,16 @@ impl<T, U> Node<T, U> {
         leaf_degree: usize,
         internal_degree: usize,
     ) -> u64 {
+        // The encoded size of an option does not follow from its size in memory: a variant tag is
+        // encoded as u32 (4 bytes) and an option has a tag of one byte even if its type has a niche.
+        let leaf_size = 4 + U64_SIZE * 3 + 1 + leaf_degree as u64 * (1 + key_size + value_size);
+        let internal_size = 4 + U64_SIZE * 4 + internal_degree as u64 * (1 + key_size + U64_SIZE);
         cmp::max(
-            LeafNode::<T, U>::get_max_size(leaf_degree, key_size, value_size),
-            InternalNode::<T, U>::get_max_size(internal_degree, key_size),
+            cmp::max(
+                LeafNode::<T, U>::get_max_size(leaf_degree, key_size, value_size),
+                InternalNode::<T, U>::get_max_size(internal_degree, key_size),
+            ),
+            cmp::max(leaf_size, internal_size),
         )
     }
 }
-- 
2.43.0


From 40bb8ed8350c4af62ddf38ca936a28bf2172d8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:00 +0000
Subject: [PATCH 15/27] fix: replacing a value in a full B+ tree leaf keeps the
 other entries

---
 src/bp_tree/node.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index 128e121..d347a44 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -229,15 +229,16 @@ impl<T, U> LeafNode<T, U> {
         T: Clone + Ord,
     {
         let leaf_degree = self.entries.len();
+        // key already exists; replace its entry before anything is moved
+        if let Some(index) = self.search(&new_entry.key) {
+            return self.entries[index].replace(new_entry).map(InsertCases::Entry);
+        }
         // node has room; can insert
         if self.len < leaf_degree {
             let mut index = 0;
             while let Some(ref mut entry) = self.entries[index] {
                 if new_entry <= *entry {
                     mem::swap(entry, &mut new_entry);
-                    if new_entry == *entry {
-                        return Some(InsertCases::Entry(new_entry));
-                    }
                 }
                 index += 1;
             }
@@ -252,9 +253,6 @@ impl<T, U> LeafNode<T, U> {
                 if let Some(ref mut entry) = self.entries[index] {
                     if new_entry <= *entry {
                         mem::swap(entry, &mut new_entry);
-                        if new_entry == *entry {
-                            return Some(InsertCases::Entry(new_entry));
-                        }
                     }
                 }
                 if index > leaf_degree / 2 {
-- 
2.43.0


From 51076aaf4290731916bb39f04bfec6940fdd4e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:40 +0000
Subject: [PATCH 16/27] fix: a failed seek leaves the length of a B+ tree map
 alone

---
 src/bp_tree/pager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bp_tree/pager.rs b/src/bp_tree/pager.rs
index e0f32ed..1b6933a 100644
--- a/src/bp_tree/pager.rs
+++ b/src/bp_tree/pager.rs
@@ -179,8 +179,8 @@ impl<T, U> Pager<T, U> {
     }
 
     pub fn set_len(&mut self, len: usize) -> Result<()> {
-        self.metadata.len = len;
         self.db_file.seek(SeekFrom::Start(0))?;
+        self.metadata.len = len;
         let serialized_metadata = &serialize(&self.metadata)?;
         self.db_file
             .write_all(serialized_metadata)
-- 
2.43.0


From 8ae82694bdfe42f92c1810cf4431c03ef5223ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 17/27] fix: a B+ tree map whose length was left behind by a
 crash can be emptied

---
 src/bp_tree/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bp_tree/map.rs b/src/bp_tree/map.rs
index 80e2f8a..bbcc6a7 100644
--- a/src/bp_tree/map.rs
+++ b/src/bp_tree/map.rs
@@ -360,10 +360,10 @@ impl<T, U> BpMap<T, U> {
                                 .write_node(curr_page, &Node::Leaf(curr_leaf_node))?;
                         }
                     }
-                    let new_len = self.pager.get_len() - 1;
+                    let new_len = self.pager.get_len().saturating_sub(1);
                     self.pager.set_len(new_len)?;
                 } else if ret.is_some() {
-                    let new_len = self.pager.get_len() - 1;
+                    let new_len = self.pager.get_len().saturating_sub(1);
                     self.pager.set_len(new_len)?;
                     self.pager
                         .write_node(curr_page, &Node::Leaf(curr_leaf_node))?;
-- 
2.43.0


From 30ba59a6627f4f43366ca53ef8506af2c2b3ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:33 +0000
Subject: [PATCH 18/27] fix: an insertion refused by a full disk leaves a B+
 tree map unchanged

---
 src/bp_tree/map.rs   | 159 ++++++++++++++++++++++++++++---------------
 src/bp_tree/pager.rs |  38 +++++++----
 2 files changed, 132 insertions(+), 65 deletions(-)

diff --git a/src/bp_tree/map.rs b/src/bp_tree/map.rs
index bbcc6a7..3d94074 100644
--- a/src/bp_tree/map.rs
+++ b/src/bp_tree/map.rs
@@ -12,6 +12,13 @@ type SearchHistory<T, U> = Vec<(usize, Node<T, U>, usize)>;
 // (page, node, history)
 type SearchOutcome<T, U> = (usize, Node<T, U>, SearchHistory<T, U>);
 
+// What remains to be done for an insertion once all new pages have been allocated.
+struct InsertChanges<T, U> {
+    old_entry: Option<Entry<T, U>>,
+    nodes: Vec<(usize, Node<T, U>)>,
+    new_root_page: Option<usize>,
+}
+
 /// An ordered map implemented using an on-disk B+ tree.
 ///
 /// A B+ is an N-ary tree with a variable number of children per node. A B+ tree is a B-tree in
@@ -167,6 +174,76 @@ impl<T, U> BpMap<T, U> {
         Ok((curr_page, curr_node, stack))
     }
 
+    // Inserts an entry into a leaf and, if nodes have to be split, allocates the new nodes. Nodes
+    // that already exist are changed in memory only.
+    fn insert_entry(
+        &mut self,
+        entry: Entry<T, U>,
+        mut curr_page: usize,
+        mut curr_leaf_node: LeafNode<T, U>,
+        mut stack: SearchHistory<T, U>,
+        new_pages: &mut Vec<usize>,
+    ) -> Result<InsertChanges<T, U>>
+    where
+        T: Clone + DeserializeOwned + Ord + Serialize,
+        U: DeserializeOwned + Serialize,
+    {
+        let mut changes = InsertChanges {
+            old_entry: None,
+            nodes: Vec::new(),
+            new_root_page: None,
+        };
+        let mut split_node_entry = None;
+        match curr_leaf_node.insert(entry) {
+            Some(InsertCases::Split {
+                split_key,
+                split_node,
+            }) => {
+                let split_node_index = self.pager.allocate_node(&split_node)?;
+                new_pages.push(split_node_index);
+                curr_leaf_node.next_leaf = Some(split_node_index);
+                split_node_entry = Some((split_key, split_node_index));
+            }
+            Some(InsertCases::Entry(entry)) => changes.old_entry = Some(entry),
+            None => (),
+        }
+        changes.nodes.push((curr_page, Node::Leaf(curr_leaf_node)));
+
+        while let Some((split_key, split_pointer)) = split_node_entry {
+            match stack.pop() {
+                Some((parent_page, mut parent_node, _)) => {
+                    match parent_node {
+                        Node::Internal(ref mut node) => {
+                            let split_node_opt = node.insert(split_key, split_pointer, true);
+                            if let Some((split_key, split_node)) = split_node_opt {
+                                let split_node_index = self.pager.allocate_node(&split_node)?;
+                                new_pages.push(split_node_index);
+                                split_node_entry = Some((split_key, split_node_index));
+                            } else {
+                                split_node_entry = None
+                            }
+                        }
+                        _ => panic!("Expected an internal node."),
+                    }
+                    curr_page = parent_page;
+                    changes.nodes.push((parent_page, parent_node));
+                }
+                None => {
+                    let mut new_root = InternalNode::new(self.pager.get_internal_degree());
+                    new_root.keys[0] = Some(split_key);
+                    new_root.pointers[0] = curr_page;
+                    new_root.pointers[1] = split_pointer;
+                    new_root.len = 1;
+                    let new_root_page = self.pager.allocate_node(&Node::Internal(new_root))?;
+                    new_pages.push(new_root_page);
+                    changes.new_root_page = Some(new_root_page);
+                    split_node_entry = None;
+                }
+            }
+        }
+        Ok(changes)
+    }
+
     /// Inserts a key-value pair into the map. If the key already exists in the map, it will return
     /// and replace the old key-value pair.
     ///
@@ -200,63 +277,39 @@ impl<T, U> BpMap<T, U> {
     {
         self.pager.validate_key(&key)?;
         self.pager.validate_value(&value)?;
-        let (mut curr_page, mut curr_node, mut stack) = self.search_node(&key)?;
-
-        let mut split_node_entry = None;
-        match curr_node {
-            Node::Leaf(mut curr_leaf_node) => match curr_leaf_node.insert(Entry { key, value }) {
-                Some(InsertCases::Split {
-                    split_key,
-                    split_node,
-                }) => {
-                    let split_node_index = self.pager.allocate_node(&split_node)?;
-                    curr_leaf_node.next_leaf = Some(split_node_index);
-                    split_node_entry = Some((split_key, split_node_index));
-                    self.pager
-                        .write_node(curr_page, &Node::Leaf(curr_leaf_node))?;
-                }
-                Some(InsertCases::Entry(entry)) => {
-                    self.pager
-                        .write_node(curr_page, &Node::Leaf(curr_leaf_node))?;
-                    return Ok(Some((entry.key, entry.value)));
-                }
-                None => self
-                    .pager
-                    .write_node(curr_page, &Node::Leaf(curr_leaf_node))?,
-            },
+        let (curr_page, curr_node, stack) = self.search_node(&key)?;
+        let curr_leaf_node = match curr_node {
+            Node::Leaf(node) => node,
             _ => panic!("Expected a leaf node."),
-        }
+        };
 
-        while let Some((split_key, split_pointer)) = split_node_entry {
-            match stack.pop() {
-                Some((parent_page, mut parent_node, _)) => {
-                    match parent_node {
-                        Node::Internal(ref mut node) => {
-                            let split_node_opt = node.insert(split_key, split_pointer, true);
-                            if let Some((split_key, split_node)) = split_node_opt {
-                                let split_node_index = self.pager.allocate_node(&split_node)?;
-                                split_node_entry = Some((split_key, split_node_index));
-                            } else {
-                                split_node_entry = None
-                            }
-                        }
-                        _ => panic!("Expected an internal node."),
-                    }
-                    curr_node = parent_node;
-                    curr_page = parent_page;
-                    self.pager.write_node(curr_page, &curr_node)?;
-                }
-                None => {
-                    let mut new_root = InternalNode::new(self.pager.get_internal_degree());
-                    new_root.keys[0] = Some(split_key);
-                    new_root.pointers[0] = curr_page;
-                    new_root.pointers[1] = split_pointer;
-                    new_root.len = 1;
-                    let new_root_page = self.pager.allocate_node(&Node::Internal(new_root))?;
-                    self.pager.set_root_page(new_root_page)?;
-                    split_node_entry = None;
+        // If not all of the new pages can be allocated, then the ones that were are given back and
+        // no existing page has changed.
+        let mut new_pages = Vec::new();
+        let changes = match self.insert_entry(
+            Entry { key, value },
+            curr_page,
+            curr_leaf_node,
+            stack,
+            &mut new_pages,
+        ) {
+            Ok(changes) => changes,
+            Err(error) => {
+                while let Some(page) = new_pages.pop() {
+                    self.pager.deallocate_node(page)?;
                 }
+                return Err(error);
             }
+        };
+
+        for (page, node) in &changes.nodes {
+            self.pager.write_node(*page, node)?;
+        }
+        if let Some(new_root_page) = changes.new_root_page {
+            self.pager.set_root_page(new_root_page)?;
+        }
+        if let Some(entry) = changes.old_entry {
+            return Ok(Some((entry.key, entry.value)));
         }
         let new_len = self.pager.get_len() + 1;
         self.pager.set_len(new_len)?;
diff --git a/src/bp_tree/pager.rs b/src/bp_tree/pager.rs
index 1b6933a..aa32bc2 100644
--- a/src/bp_tree/pager.rs
+++ b/src/bp_tree/pager.rs
@@ -110,16 +110,17 @@ impl<T, U> Pager<T, U> {
         let serialized_metadata = &serialize(&metadata)?;
         db_file.write_all(serialized_metadata)?;
 
-        db_file.seek(SeekFrom::Start(header_size))?;
-        let serialized_node = &serialize(&Node::Leaf(LeafNode::<T, U>::new(leaf_degree)))?;
-        db_file.write_all(serialized_node)?;
-
-        let pager = Pager {
+        let mut pager = Pager {
             db_file,
             metadata,
             _marker: PhantomData,
         };
 
+        pager.db_file.seek(SeekFrom::Start(header_size))?;
+        let serialized_node =
+            &pager.serialize_page(&Node::Leaf(LeafNode::<T, U>::new(leaf_degree)))?;
+        pager.db_file.write_all(serialized_node)?;
+
         Ok(pager)
     }
 
@@ -212,6 +213,17 @@ impl<T, U> Pager<T, U> {
         deserialize(buffer.as_slice()).map_err(Error::SerdeError)
     }
 
+    // The whole page, so that all of its space is taken when it is first written.
+    fn serialize_page(&self, node: &Node<T, U>) -> Result<Vec<u8>>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
+        let mut page = serialize(node)?;
+        page.resize(self.get_node_size() as usize, 0);
+        Ok(page)
+    }
+
     pub fn allocate_node(&mut self, new_node: &Node<T, U>) -> Result<usize>
     where
         T: DeserializeOwned + Serialize,
@@ -219,19 +231,21 @@ impl<T, U> Pager<T, U> {
     {
         match self.metadata.free_page {
             None => {
-                self.metadata.pages += 1;
-                let len = self.calculate_page_offset(self.metadata.pages);
-                let node_size = self.get_node_size();
-                self.db_file.set_len(len)?;
-                self.db_file.seek(SeekFrom::Start(len - node_size))?;
-                let serialized_node = &serialize(&new_node)?;
+                let page = self.metadata.pages;
+                let offset = self.calculate_page_offset(page);
+                let serialized_node = &self.serialize_page(new_node)?;
+                self.db_file
+                    .set_len(offset + serialized_node.len() as u64)?;
+                self.db_file.seek(SeekFrom::Start(offset))?;
                 self.db_file.write_all(serialized_node)?;
 
+                // the page only counts once all of its space is there
+                self.metadata.pages += 1;
                 self.db_file.seek(SeekFrom::Start(0))?;
                 let serialized_metadata = &serialize(&self.metadata)?;
                 self.db_file.write_all(serialized_metadata)?;
 
-                Ok(self.metadata.pages - 1)
+                Ok(page)
             }
             Some(free_page) => {
                 let offset = self.calculate_page_offset(free_page);
-- 
2.43.0


From 844f0b233c03739c9736f125358de0a0f898454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:21 +0000
Subject: [PATCH 19/27] fix: skip list links are reached through pointers, not
 unchecked indexing of an empty array

Every link access indexed a zero-length array with get_unchecked, which is undefined
behaviour at any index: optimised builds trap in SkipMap, SkipSet and SkipList.
---
 src/skiplist/list.rs | 12 ++++++------
 src/skiplist/map.rs  | 30 +++++++++++++++---------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 8689be6..9a22e23 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -30,11 +30,11 @@ impl<T> Node<T> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &Link<T> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut Link<T> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -51,7 +51,7 @@ impl<T> Node<T> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -439,7 +439,7 @@ impl<T> SkipList<T> {
                 let next_node = (*curr_node).get_pointer(0).next;
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -516,9 +516,9 @@ impl<T> IntoIterator for SkipList<T> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: (*self.head).links.get_unchecked_mut(0).next,
+                current: (*(*self.head).links.as_mut_ptr()).next,
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index f191732..1176dad 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -26,11 +26,11 @@ impl<T, U> Node<T, U> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &*mut Node<T, U> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut *mut Node<T, U> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -47,7 +47,7 @@ impl<T, U> Node<T, U> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -396,7 +396,7 @@ impl<T, U> SkipMap<T, U> {
                 let next_node = *(*curr_node).get_pointer(0);
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -589,8 +589,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -626,7 +626,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -681,8 +681,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -723,7 +723,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -756,8 +756,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -805,7 +805,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -956,9 +956,9 @@ impl<T, U> IntoIterator for SkipMap<T, U> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: *(*self.head).links.get_unchecked_mut(0),
+                current: *(*self.head).links.as_mut_ptr(),
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
-- 
2.43.0


From d1ff1b7d858730d54216632a5e2bbe24dfdb981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:42 +0000
Subject: [PATCH 20/27] fix: a radix map emptied by removals accepts insertions
 again

---
 src/radix/tree.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index 980fefd..416274f 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -5,7 +5,14 @@ use std::mem;
 pub type Tree<T> = Option<Box<Node<T>>>;
 
 pub fn insert<T>(tree: &mut Tree<T>, mut key: &[u8], value: T) -> Option<T> {
-    let node = tree.as_mut().expect("Expected non-empty tree.");
+    let node = match tree {
+        Some(ref mut node) => node,
+        // the last key was removed earlier
+        None => {
+            *tree = Some(Box::new(Node::new(key.to_vec(), Some(value))));
+            return None;
+        }
+    };
     let split_index = node
         .key
         .iter()
-- 
2.43.0


From faf2dd1c1d3a0c3e2e368da4ab6026088c7697f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:25 +0000
Subject: [PATCH 21/27] fix: an abandoned skip list iterator destroys each
 remaining element once

---
 src/skiplist/list.rs | 1 -
 src/skiplist/map.rs  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 9a22e23..a45df12 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -576,7 +576,6 @@ impl<T> Drop for SkipListIntoIter<T> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).value);
                 let next_node = (*self.current).get_pointer(0).next;
                 Node::free(mem::replace(&mut self.current, next_node));
             }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 1176dad..75c2c62 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1018,7 +1018,6 @@ impl<T, U> Drop for SkipMapIntoIter<T, U> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).entry);
                 let next_node = *(*self.current).get_pointer(0);
                 Node::free(mem::replace(&mut self.current, next_node));
             }
-- 
2.43.0


From 75014cfbe7954995b399a7e8a84b442c9905743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:25 +0000
Subject: [PATCH 22/27] fix: the intersection of skip maps stays within its
 nodes' links

---
 src/skiplist/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 75c2c62..20f32ec 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -729,7 +729,7 @@ impl<T, U> SkipMap<T, U> {
                 );
 
                 let links_len = (*next_node).links_len;
-                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len + 1) {
+                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len) {
                     *(**curr_node).get_pointer_mut(i) = next_node;
                     *curr_node = next_node;
                 }
-- 
2.43.0


From 25a816dbb3724acd16e06fab825513c06686bea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:25 +0000
Subject: [PATCH 23/27] fix: the difference of skip maps keeps the left map's
 last entries

---
 src/skiplist/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 20f32ec..17bedff 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -798,8 +798,8 @@ impl<T, U> SkipMap<T, U> {
                         }
                     }
                     (false, true) => {
-                        let next_right_node = *(*right.head).get_pointer(0);
-                        next_node = mem::replace(&mut right.head, next_right_node);
+                        let next_left_node = *(*left.head).get_pointer(0);
+                        next_node = mem::replace(&mut left.head, next_left_node);
                     }
                 }
                 ret.len += 1;
-- 
2.43.0


From bd791935982d3c3c1100e8f4f38aff9191c6c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:25 +0000
Subject: [PATCH 24/27] fix: clearing a skip list is safe when a destructor
 panics

---
 src/skiplist/list.rs | 3 ++-
 src/skiplist/map.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index a45df12..b7b0f8a 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -435,11 +435,12 @@ impl<T> SkipList<T> {
         self.len = 0;
         unsafe {
             let mut curr_node = (*self.head).get_pointer(0).next;
+            // a destructor may panic: nothing may lead to the freed nodes any more
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             while !curr_node.is_null() {
                 let next_node = (*curr_node).get_pointer(0).next;
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 17bedff..65036c2 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -392,11 +392,12 @@ impl<T, U> SkipMap<T, U> {
         self.len = 0;
         unsafe {
             let mut curr_node = *(*self.head).get_pointer(0);
+            // a destructor may panic: nothing may lead to the freed nodes any more
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             while !curr_node.is_null() {
                 let next_node = *(*curr_node).get_pointer(0);
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
-- 
2.43.0


From 22c06c6c58fb7781f3227db0045ec2cf7b471ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 25/27] fix: set algebra on skip maps is safe when a comparison
 or destructor panics

---
 src/skiplist/map.rs | 116 +++++++++++++++++++-------------------------
 1 file changed, 50 insertions(+), 66 deletions(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 65036c2..2c0ee8c 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -120,6 +120,13 @@ impl<T, U> SkipMap<T, U> {
         MAX_HEIGHT - (self.len as u32).leading_zeros() as usize
     }
 
+    // Unlinks the first node from the lowest layer.
+    unsafe fn take_first(&mut self) -> *mut Node<T, U> {
+        let node = *(*self.head).get_pointer(0);
+        *(*self.head).get_pointer_mut(0) = *(*node).get_pointer(0);
+        node
+    }
+
     fn gen_random_height(&mut self) -> usize {
         self.rng.next_u32().leading_zeros() as usize
     }
@@ -586,42 +593,37 @@ impl<T, U> SkipMap<T, U> {
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
 
         unsafe {
-            let next_left_node = *(*left.head).get_pointer(0);
-            let left_head = mem::replace(&mut left.head, next_left_node);
-            let next_right_node = *(*right.head).get_pointer(0);
-            let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            // comparisons and destructors may panic: the remaining nodes stay in the lowest layer of
+            // their maps and nothing else leads to them
+            ptr::write_bytes((*left.head).links.as_mut_ptr().add(1), 0, MAX_HEIGHT);
+            ptr::write_bytes((*right.head).links.as_mut_ptr().add(1), 0, MAX_HEIGHT);
 
             loop {
                 let next_node;
-                match (left.head.is_null(), right.head.is_null()) {
+                let left_node = *(*left.head).get_pointer(0);
+                let right_node = *(*right.head).get_pointer(0);
+                match (left_node.is_null(), right_node.is_null()) {
                     (true, true) => break,
                     (false, false) => {
-                        let cmp = (*left.head).entry.cmp(&(*right.head).entry);
+                        let cmp = (*left_node).entry.cmp(&(*right_node).entry);
                         match cmp {
                             cmp::Ordering::Equal => {
-                                let next_right_node = *(*right.head).get_pointer(0);
-                                Node::free(mem::replace(&mut right.head, next_right_node));
+                                Node::free(right.take_first());
                                 continue;
                             }
                             cmp::Ordering::Less => {
-                                let next_left_node = *(*left.head).get_pointer(0);
-                                next_node = mem::replace(&mut left.head, next_left_node);
+                                next_node = left.take_first();
                             }
                             cmp::Ordering::Greater => {
-                                let next_right_node = *(*right.head).get_pointer(0);
-                                next_node = mem::replace(&mut right.head, next_right_node);
+                                next_node = right.take_first();
                             }
                         }
                     }
                     (true, false) => {
-                        let next_right_node = *(*right.head).get_pointer(0);
-                        next_node = mem::replace(&mut right.head, next_right_node);
+                        next_node = right.take_first();
                     }
                     (false, true) => {
-                        let next_left_node = *(*left.head).get_pointer(0);
-                        next_node = mem::replace(&mut left.head, next_left_node);
+                        next_node = left.take_first();
                     }
                 }
                 ret.len += 1;
@@ -638,8 +640,6 @@ impl<T, U> SkipMap<T, U> {
                     *curr_node = next_node;
                 }
             }
-            left.head = left_head;
-            right.head = right_head;
         }
         ret
     }
@@ -678,46 +678,40 @@ impl<T, U> SkipMap<T, U> {
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
 
         unsafe {
-            let next_left_node = *(*left.head).get_pointer(0);
-            let left_head = mem::replace(&mut left.head, next_left_node);
-            let next_right_node = *(*right.head).get_pointer(0);
-            let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            // comparisons and destructors may panic: the remaining nodes stay in the lowest layer of
+            // their maps and nothing else leads to them
+            ptr::write_bytes((*left.head).links.as_mut_ptr().add(1), 0, MAX_HEIGHT);
+            ptr::write_bytes((*right.head).links.as_mut_ptr().add(1), 0, MAX_HEIGHT);
 
             loop {
                 let next_node;
-                match (left.head.is_null(), right.head.is_null()) {
+                let left_node = *(*left.head).get_pointer(0);
+                let right_node = *(*right.head).get_pointer(0);
+                match (left_node.is_null(), right_node.is_null()) {
                     (true, true) => break,
                     (false, false) => {
-                        let cmp = (*left.head).entry.cmp(&(*right.head).entry);
+                        let cmp = (*left_node).entry.cmp(&(*right_node).entry);
                         match cmp {
                             cmp::Ordering::Equal => {
-                                let next_left_node = *(*left.head).get_pointer(0);
-                                let next_right_node = *(*right.head).get_pointer(0);
-                                next_node = mem::replace(&mut left.head, next_left_node);
-                                Node::free(mem::replace(&mut right.head, next_right_node));
+                                next_node = left.take_first();
+                                Node::free(right.take_first());
                             }
                             cmp::Ordering::Less => {
-                                let next_left_node = *(*left.head).get_pointer(0);
-                                Node::free(mem::replace(&mut left.head, next_left_node));
+                                Node::free(left.take_first());
                                 continue;
                             }
                             cmp::Ordering::Greater => {
-                                let next_right_node = *(*right.head).get_pointer(0);
-                                Node::free(mem::replace(&mut right.head, next_right_node));
+                                Node::free(right.take_first());
                                 continue;
                             }
                         }
                     }
                     (true, false) => {
-                        let next_right_node = *(*right.head).get_pointer(0);
-                        Node::free(mem::replace(&mut right.head, next_right_node));
+                        Node::free(right.take_first());
                         continue;
                     }
                     (false, true) => {
-                        let next_left_node = *(*left.head).get_pointer(0);
-                        Node::free(mem::replace(&mut left.head, next_left_node));
+                        Node::free(left.take_first());
                         continue;
                     }
                 }
@@ -735,8 +729,6 @@ impl<T, U> SkipMap<T, U> {
                     *curr_node = next_node;
                 }
             }
-            left.head = left_head;
-            right.head = right_head;
         }
         ret
     }
@@ -753,54 +745,48 @@ impl<T, U> SkipMap<T, U> {
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
 
         unsafe {
-            let next_left_node = *(*left.head).get_pointer(0);
-            let left_head = mem::replace(&mut left.head, next_left_node);
-            let next_right_node = *(*right.head).get_pointer(0);
-            let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            // comparisons and destructors may panic: the remaining nodes stay in the lowest layer of
+            // their maps and nothing else leads to them
+            ptr::write_bytes((*left.head).links.as_mut_ptr().add(1), 0, MAX_HEIGHT);
+            ptr::write_bytes((*right.head).links.as_mut_ptr().add(1), 0, MAX_HEIGHT);
 
             loop {
                 let next_node;
-                match (left.head.is_null(), right.head.is_null()) {
+                let left_node = *(*left.head).get_pointer(0);
+                let right_node = *(*right.head).get_pointer(0);
+                match (left_node.is_null(), right_node.is_null()) {
                     (true, true) => break,
                     (false, false) => {
-                        let cmp = (*left.head).entry.cmp(&(*right.head).entry);
+                        let cmp = (*left_node).entry.cmp(&(*right_node).entry);
                         match cmp {
                             cmp::Ordering::Equal => {
-                                let next_left_node = *(*left.head).get_pointer(0);
-                                let next_right_node = *(*right.head).get_pointer(0);
-                                Node::free(mem::replace(&mut left.head, next_left_node));
-                                Node::free(mem::replace(&mut right.head, next_right_node));
+                                Node::free(left.take_first());
+                                Node::free(right.take_first());
                                 continue;
                             }
                             cmp::Ordering::Less => {
-                                let next_left_node = *(*left.head).get_pointer(0);
-                                next_node = mem::replace(&mut left.head, next_left_node);
+                                next_node = left.take_first();
                             }
                             cmp::Ordering::Greater => {
-                                let next_right_node = *(*right.head).get_pointer(0);
                                 if symmetric {
-                                    next_node = mem::replace(&mut right.head, next_right_node);
+                                    next_node = right.take_first();
                                 } else {
-                                    Node::free(mem::replace(&mut right.head, next_right_node));
+                                    Node::free(right.take_first());
                                     continue;
                                 }
                             }
                         }
                     }
                     (true, false) => {
-                        let next_right_node = *(*right.head).get_pointer(0);
                         if symmetric {
-                            next_node = mem::replace(&mut right.head, next_right_node);
+                            next_node = right.take_first();
                         } else {
-                            Node::free(mem::replace(&mut right.head, next_right_node));
+                            Node::free(right.take_first());
                             continue;
                         }
                     }
                     (false, true) => {
-                        let next_left_node = *(*left.head).get_pointer(0);
-                        next_node = mem::replace(&mut left.head, next_left_node);
+                        next_node = left.take_first();
                     }
                 }
                 ret.len += 1;
@@ -817,8 +803,6 @@ impl<T, U> SkipMap<T, U> {
                     *curr_node = next_node;
                 }
             }
-            left.head = left_head;
-            right.head = right_head;
         }
         ret
     }
-- 
2.43.0


From 4ebad6dd6d7c6ab79036baa35e5edece0f708301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:46 +0000
Subject: [PATCH 26/27] fix: skip list distances stay right when a last element
 is removed

The distance of a node's last link to the end of the list was not reduced, so positions
were wrong after a later concatenation.
---
 src/skiplist/list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index b7b0f8a..46e7c6d 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -228,6 +228,9 @@ impl<T> SkipList<T> {
                     } else {
                         next_link.distance -= 1;
                     }
+                } else {
+                    // the distance to the end of the list, which concatenation relies on
+                    next_link.distance -= 1;
                 }
 
                 curr_height -= 1;
-- 
2.43.0


From 28aa512df73ac6f506deae01ff4cbcc4e614c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:45 +0000
Subject: [PATCH 27/27] fix: skip list nodes are aligned for their elements

---
 src/skiplist/list.rs | 20 +++++++++++---------
 src/skiplist/map.rs  | 22 ++++++++++++----------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 46e7c6d..b8f057b 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -1,5 +1,6 @@
 use rand::Rng;
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::mem;
 use std::ops::{Add, Index, IndexMut};
 use std::ptr;
@@ -37,18 +38,20 @@ impl<T> Node<T> {
         unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
-        let base_size = mem::size_of::<Node<T>>();
+    fn get_layout(links_len: usize) -> Layout {
+        let base_size = mem::size_of::<Self>();
         let link_size = mem::size_of::<Link<T>>();
-        let u64_size = mem::size_of::<u64>();
 
-        (base_size + link_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(base_size + link_size * links_len, mem::align_of::<Self>())
+            .expect("Error: invalid node layout.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Self;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
@@ -57,8 +60,7 @@ impl<T> Node<T> {
 
     unsafe fn deallocate(ptr: *mut Self) {
         let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        alloc::dealloc(ptr as *mut u8, Self::get_layout(links_len));
     }
 
     unsafe fn free(ptr: *mut Self) {
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 2c0ee8c..4ecf621 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1,6 +1,7 @@
 use crate::entry::Entry;
 use rand::Rng;
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::borrow::Borrow;
 use std::cmp;
 use std::mem;
@@ -33,18 +34,20 @@ impl<T, U> Node<T, U> {
         unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
-        let base_size = mem::size_of::<Node<T, U>>();
-        let ptr_size = mem::size_of::<*mut Node<T, U>>();
-        let u64_size = mem::size_of::<u64>();
+    fn get_layout(links_len: usize) -> Layout {
+        let base_size = mem::size_of::<Self>();
+        let link_size = mem::size_of::<*mut Node<T, U>>();
 
-        (base_size + ptr_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(base_size + link_size * links_len, mem::align_of::<Self>())
+            .expect("Error: invalid node layout.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T, U>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Self;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
@@ -53,8 +56,7 @@ impl<T, U> Node<T, U> {
 
     unsafe fn deallocate(ptr: *mut Self) {
         let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        alloc::dealloc(ptr as *mut u8, Self::get_layout(links_len));
     }
 
     unsafe fn free(ptr: *mut Self) {
-- 
2.43.0

