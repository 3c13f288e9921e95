From e93a7948ad62bbd0a2c7a64272bc71132509b71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:51 +0000
Subject: [PATCH 01/68] fix: keep removed bytes of the default identifier when
 plain and sectioned removals add up

---
 costs/src/storage_cost/removal.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/costs/src/storage_cost/removal.rs b/costs/src/storage_cost/removal.rs
index ca5fed1..ac0f687 100644
--- a/costs/src/storage_cost/removal.rs
+++ b/costs/src/storage_cost/removal.rs
@@ -86,6 +86,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, s);
                         }
+                        map.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(map)
                 }
@@ -105,6 +106,7 @@ impl Add for StorageRemovedBytes {
                         } else {
                             old_section_map.insert(UNKNOWN_EPOCH, r);
                         }
+                        smap.insert(default, old_section_map);
                     }
                     SectionedStorageRemoval(smap)
                 }
@@ -152,6 +154,7 @@ impl AddAssign for StorageRemovedBytes {
                         } else {
                             old_int_map.insert(UNKNOWN_EPOCH, *s);
                         }
+                        map.insert(default, old_int_map);
                     } else {
                         let mut new_map = IntMap::new();
                         new_map.insert(UNKNOWN_EPOCH, *s);
-- 
2.43.0


From 6fee085fc05a27fcb6654dc776a6ec3053a64739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 02/68] fix: report zero-segment derived and owned paths as
 empty and as the root

---
 path/src/subtree_path_builder.rs | 10 ++--------
 path/src/subtree_path_iter.rs    |  7 +------
 2 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/path/src/subtree_path_builder.rs b/path/src/subtree_path_builder.rs
index c18ac36..642c04d 100644
--- a/path/src/subtree_path_builder.rs
+++ b/path/src/subtree_path_builder.rs
@@ -126,7 +126,7 @@ impl SubtreePathRelative<'_> {
     }
 
     pub fn is_empty(&self) -> bool {
-        matches!(self, SubtreePathRelative::Empty)
+        self.len() == 0
     }
 }
 
@@ -332,13 +332,7 @@ impl<'b, B: AsRef<[u8]>> SubtreePathBuilder<'b, B> {
     /// Returns `true` if the subtree path is empty, so it points to the root
     /// tree.
     pub fn is_root(&self) -> bool {
-        match self {
-            Self {
-                base,
-                relative: SubtreePathRelative::Empty,
-            } => base.is_root(),
-            _ => false,
-        }
+        self.relative.is_empty() && self.base.is_root()
     }
 }
 
diff --git a/path/src/subtree_path_iter.rs b/path/src/subtree_path_iter.rs
index f5e2aea..a5b63a4 100644
--- a/path/src/subtree_path_iter.rs
+++ b/path/src/subtree_path_iter.rs
@@ -77,12 +77,7 @@ impl<'b, B> SubtreePathIter<'b, B> {
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.next_subtree_path.is_none()
-            && match &self.current_iter {
-                CurrentSubtreePathIter::Single(_) => false,
-                CurrentSubtreePathIter::Slice(slice) => slice.len() == 0,
-                CurrentSubtreePathIter::OwnedBytes(bytes_iter) => bytes_iter.len() == 0,
-            }
+        self.len() == 0
     }
 }
 
-- 
2.43.0


From 7fc569d1175ceeb05cd747c157030a409b1d9adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 03/68] fix: display parent paths derived from a builder root
 first

---
 path/src/subtree_path.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/path/src/subtree_path.rs b/path/src/subtree_path.rs
index 8a31d61..90167ab 100644
--- a/path/src/subtree_path.rs
+++ b/path/src/subtree_path.rs
@@ -89,10 +89,11 @@ impl<B: AsRef<[u8]>> Display for SubtreePath<'_, B> {
                     .join("/");
                 write!(f, "{}", ascii_path)
             }
-            SubtreePathInner::SubtreePathIter(iter) => {
-                let ascii_path = iter
-                    .clone()
-                    .map(bytes_to_hex_or_ascii)
+            SubtreePathInner::SubtreePathIter(_) => {
+                let ascii_path = self
+                    .to_vec()
+                    .into_iter()
+                    .map(|a| bytes_to_hex_or_ascii(a.as_slice()))
                     .collect::<Vec<_>>()
                     .join("/");
                 write!(f, "{}", ascii_path)
-- 
2.43.0


From 400eec660b1cf06f813076011c48d3758604cb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 04/68] fix: bound the memory a declared length can claim when
 decoding an element

---
 grovedb-element/src/element/serialize.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/grovedb-element/src/element/serialize.rs b/grovedb-element/src/element/serialize.rs
index c0f85f3..46328c5 100644
--- a/grovedb-element/src/element/serialize.rs
+++ b/grovedb-element/src/element/serialize.rs
@@ -6,6 +6,10 @@ use grovedb_version::{check_grovedb_v0, version::GroveVersion};
 
 use crate::{element::Element, error::ElementError};
 
+/// How many bytes decoding an element may claim, unless the serialized element
+/// itself is larger (256 MiB, as for proofs).
+const DESERIALIZE_LIMIT: usize = 256 * 1024 * 1024;
+
 impl Element {
     /// Serializes self. Returns vector of u8s.
     pub fn serialize(&self, grove_version: &GroveVersion) -> Result<Vec<u8>, ElementError> {
@@ -34,8 +38,15 @@ impl Element {
             "Element::deserialize",
             grove_version.grovedb_versions.element.deserialize
         );
-        let config = config::standard().with_big_endian().with_no_limit();
-        Ok(bincode::decode_from_slice(bytes, config)
+        let config = config::standard().with_big_endian();
+        // Lengths inside the bytes are not to be trusted: without a limit a
+        // declared length alone makes the decoder allocate that much memory.
+        let decoded = if bytes.len() <= DESERIALIZE_LIMIT {
+            bincode::decode_from_slice(bytes, config.with_limit::<DESERIALIZE_LIMIT>())
+        } else {
+            bincode::decode_from_slice(bytes, config.with_no_limit())
+        };
+        Ok(decoded
             .map_err(|e| {
                 ElementError::CorruptedData(format!("unable to deserialize element {}", e))
             })?
-- 
2.43.0


From 3538473dfe3922e8f68c36ac27d7708459098cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 05/68] fix: find the end of a descending range when no stored
 row follows it

---
 grovedb-query/src/query_item/mod.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/grovedb-query/src/query_item/mod.rs b/grovedb-query/src/query_item/mod.rs
index 6525f2a..463d79d 100644
--- a/grovedb-query/src/query_item/mod.rs
+++ b/grovedb-query/src/query_item/mod.rs
@@ -676,6 +676,20 @@ impl QueryItem {
         }
     }
 
+    /// Positions a storage iterator to the last record before `end`. When no
+    /// record is left at or after `end` there is none to step back from, as an
+    /// iterator which ran off the end of the storage stays invalid.
+    #[cfg(feature = "blockchain")]
+    fn seek_before<I: RawIterator>(iter: &mut I, end: &[u8]) -> CostContext<()> {
+        iter.seek(end).flat_map(|_| {
+            if iter.valid().value {
+                iter.prev()
+            } else {
+                iter.seek_for_prev(end)
+            }
+        })
+    }
+
     /// Positions a storage iterator to the start of this query item, seeking
     /// forward or backward based on `left_to_right`.
     #[cfg(feature = "blockchain")]
@@ -690,7 +704,7 @@ impl QueryItem {
                 if left_to_right {
                     iter.seek(start)
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeInclusive(range_inclusive) => {
@@ -718,7 +732,7 @@ impl QueryItem {
                 if left_to_right {
                     iter.seek_to_first()
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeToInclusive(RangeToInclusive { end }) => {
@@ -755,7 +769,7 @@ impl QueryItem {
                     }
                     ().wrap_with_cost(cost)
                 } else {
-                    iter.seek(end).flat_map(|_| iter.prev())
+                    Self::seek_before(iter, end)
                 }
             }
             QueryItem::RangeAfterToInclusive(range_inclusive) => {
-- 
2.43.0


From 463a15f0fbc5665887cd308517f888580aa96a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 06/68] fix: report what is only in the second set once when
 intersecting query items

---
 grovedb-query/src/query_item/intersect.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/grovedb-query/src/query_item/intersect.rs b/grovedb-query/src/query_item/intersect.rs
index 1153e3a..372254d 100644
--- a/grovedb-query/src/query_item/intersect.rs
+++ b/grovedb-query/src/query_item/intersect.rs
@@ -667,7 +667,7 @@ impl QueryItem {
     /// ours-only, and theirs-only. Both input vectors must be sorted.
     pub fn intersect_many_ordered(
         ours: &mut Vec<Self>,
-        theirs: Vec<Self>,
+        mut theirs: Vec<Self>,
     ) -> QueryItemManyIntersectionResult {
         let mut result = QueryItemManyIntersectionResult::default();
         for our_item in ours.drain(..) {
@@ -676,7 +676,7 @@ impl QueryItem {
             // We add our item
             // In the end the item might be split up
             one_item_pair_intersections.push_ours(our_item);
-            for their_item in theirs.clone() {
+            for their_item in theirs.drain(..) {
                 // We take the vector of our item
                 // It might be empty if it has already been completely consumed
                 // Meaning that all the item was inside of their items
@@ -708,8 +708,13 @@ impl QueryItem {
                     one_item_pair_intersections.push_theirs(their_item)
                 }
             }
+            // only what this item left of theirs meets our next items
+            theirs = one_item_pair_intersections.theirs.take().unwrap_or_default();
             result.merge_in(one_item_pair_intersections)
         }
+        if !theirs.is_empty() {
+            result.theirs = Some(theirs);
+        }
         result
     }
 }
-- 
2.43.0


From 780ab886bf1f0771db56c7aa0fc098b88aa39f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 07/68] fix: refuse mountain range proofs that leave out the
 peaks right of a proved leaf

A proof without a hash for the peaks to the right of the last proved leaf, or
with one too many, let the path of a leaf run through the bagging of the peaks,
so that a true leaf could be shown at a false index against the true root.
---
 grovedb-merkle-mountain-range/src/proof.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/proof.rs b/grovedb-merkle-mountain-range/src/proof.rs
index e1d47e4..3daa56f 100644
--- a/grovedb-merkle-mountain-range/src/proof.rs
+++ b/grovedb-merkle-mountain-range/src/proof.rs
@@ -275,22 +275,30 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
     leaves.dedup_by(|a, b| a.0 == b.0);
     let peaks = get_peaks(mmr_size);
 
-    let mut peaks_hashes: Vec<MmrNode> = Vec::with_capacity(peaks.len() + 1);
+    let mut peaks_hashes: Vec<MmrNode> = Vec::with_capacity(peaks.len());
+    // whether the latest entry of `peaks_hashes` was taken from the proof, so
+    // that it may stand for all remaining (bagged) right peaks
+    let mut may_be_bagged = false;
+    let mut right_peaks_missing = false;
     for peak_pos in peaks {
         let mut leaves: Vec<_> = take_while_vec(&mut leaves, |(pos, _)| *pos <= peak_pos);
         let peak_root = if leaves.len() == 1 && leaves[0].0 == peak_pos {
             // leaf is the peak
+            may_be_bagged = false;
             leaves.remove(0).1
         } else if leaves.is_empty() {
             // if empty, means the next proof is a peak root or rhs bagged root
             if let Some(peak_root) = proof_iter.next() {
+                may_be_bagged = true;
                 peak_root.clone()
             } else {
                 // means that either all right peaks are bagged, or proof is corrupted
                 // so we break loop and check no items left
+                right_peaks_missing = !may_be_bagged;
                 break;
             }
         } else {
+            may_be_bagged = false;
             calculate_peak_root(leaves, peak_pos, &mut proof_iter)?
         };
         peaks_hashes.push(peak_root.clone());
@@ -301,10 +309,14 @@ fn calculate_peaks_hashes<'a, I: Iterator<Item = &'a MmrNode>>(
         return Err(Error::InvalidProof("unprocessed leaves remain".into()));
     }
 
-    // check rhs peaks
-    if let Some(rhs_peaks_hashes) = proof_iter.next() {
-        peaks_hashes.push(rhs_peaks_hashes.clone());
+    // Without a hash for the right peaks, the path of a proved leaf could run
+    // through the bagging of the peaks themselves.
+    if right_peaks_missing {
+        return Err(Error::InvalidProof(
+            "not enough proof items for the right peaks".into(),
+        ));
     }
+
     // ensure nothing left in proof_iter
     if proof_iter.next().is_some() {
         return Err(Error::InvalidProof(
-- 
2.43.0


From 08fbc37ff52bdcf1459b18b3c71eda58672feff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 08/68] fix: keep buffered mountain range nodes when flushing
 them fails

---
 grovedb-merkle-mountain-range/src/mmr_store.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/mmr_store.rs b/grovedb-merkle-mountain-range/src/mmr_store.rs
index 1aae775..cb37458 100644
--- a/grovedb-merkle-mountain-range/src/mmr_store.rs
+++ b/grovedb-merkle-mountain-range/src/mmr_store.rs
@@ -96,14 +96,21 @@ impl<Store: MMRStoreReadOps> MMRBatch<Store> {
 
 impl<Store: MMRStoreWriteOps> MMRBatch<Store> {
     /// Flush all buffered elements to the underlying store.
+    ///
+    /// If the store fails, the whole buffer is kept, so that reads stay
+    /// complete and the flush can be retried.
     pub(crate) fn commit(&mut self) -> CostResult<(), Error> {
         let mut cost = OperationCost::default();
-        for (pos, elems) in self.memory_batch.drain(..) {
-            let result = self.store.append(pos, elems).unwrap_add_cost(&mut cost);
+        for (pos, elems) in self.memory_batch.iter() {
+            let result = self
+                .store
+                .append(*pos, elems.clone())
+                .unwrap_add_cost(&mut cost);
             if let Err(e) = result {
                 return Err(e).wrap_with_cost(cost);
             }
         }
+        self.memory_batch.clear();
         Ok(()).wrap_with_cost(cost)
     }
 }
-- 
2.43.0


From 7cef24d933b5200bfdbed0a530b928a8fc4d8db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 09/68] fix: convert the last leaf index of the largest
 mountain range without overflow

---
 grovedb-merkle-mountain-range/src/helper.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/grovedb-merkle-mountain-range/src/helper.rs b/grovedb-merkle-mountain-range/src/helper.rs
index 8d94885..cc6629a 100644
--- a/grovedb-merkle-mountain-range/src/helper.rs
+++ b/grovedb-merkle-mountain-range/src/helper.rs
@@ -2,7 +2,7 @@
 ///
 /// # Safety (arithmetic)
 ///
-/// Overflows when `index >= 2^63 - 1`. Callers must validate indices
+/// Overflows when `index >= 2^63`. Callers must validate indices
 /// before calling (e.g. check `index < mmr_size_to_leaf_count(mmr_size)`).
 pub fn leaf_index_to_pos(index: u64) -> u64 {
     // mmr_size - H - 1, H is the height(intervals) of last peak
@@ -13,8 +13,8 @@ pub fn leaf_index_to_pos(index: u64) -> u64 {
 ///
 /// # Safety (arithmetic)
 ///
-/// Overflows when `index >= 2^63 - 1` because `2 * leaves_count` exceeds
-/// `u64::MAX`. Callers must validate indices before calling.
+/// Overflows when `index >= 2^63` because the size exceeds `u64::MAX`. Callers
+/// must validate indices before calling.
 pub fn leaf_index_to_mmr_size(index: u64) -> u64 {
     // leaf index start with 0
     let leaves_count = index + 1;
@@ -23,7 +23,9 @@ pub fn leaf_index_to_mmr_size(index: u64) -> u64 {
     // representation
     let peak_count = leaves_count.count_ones() as u64;
 
-    2 * leaves_count - peak_count
+    // 2 * leaves_count - peak_count, without doubling first: the largest range
+    // has 2^63 leaves
+    leaves_count + (leaves_count - peak_count)
 }
 
 /// Return the height of the subtree rooted at `pos` in the MMR.
-- 
2.43.0


From 9c6065da768849715e1552f67874fa4cabd4fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 10/68] fix: let an inclusive range of an empty dense tree
 select no position

---
 grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
index f7afa34..5730980 100644
--- a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
+++ b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
@@ -66,8 +66,7 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             QueryItem::RangeInclusive(r) => {
                 let start = bytes_to_position(r.start())?;
                 let end = bytes_to_position(r.end())?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in start..=clamped_end {
+                for p in start..count.min(end.saturating_add(1)) {
                     positions.insert(p);
                 }
             }
@@ -90,8 +89,7 @@ pub(crate) fn query_to_positions(query: &Query, count: u16) -> Result<Vec<u16>,
             }
             QueryItem::RangeToInclusive(r) => {
                 let end = bytes_to_position(&r.end)?;
-                let clamped_end = end.min(count.saturating_sub(1));
-                for p in 0..=clamped_end {
+                for p in 0..count.min(end.saturating_add(1)) {
                     positions.insert(p);
                 }
             }
-- 
2.43.0


From c9375e37f1bf0f1ae61e6bfd234e6be3b9aa77ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 11/68] fix: bind a dense tree proof of no position to the root

---
 grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
index 5730980..cd2455c 100644
--- a/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
+++ b/grovedb-dense-fixed-sized-merkle-tree/src/proof/mod.rs
@@ -206,6 +206,13 @@ impl DenseTreeProof {
         let mut node_value_hashes: Vec<(u16, [u8; 32])> = Vec::new();
         let mut node_hashes: Vec<(u16, [u8; 32])> = Vec::new();
 
+        // Nothing to prove: the hash of the whole tree binds the (empty) proof
+        // to the root.
+        if expanded.is_empty() && count > 0 {
+            let hash = cost_return_on_error!(cost, tree.hash_position(0));
+            node_hashes.push((0, hash));
+        }
+
         for &pos in &expanded {
             // Get the value for this position
             let opt = cost_return_on_error!(cost, tree.get_value(pos));
-- 
2.43.0


From 3fdeda47b847611f03764a939ed29bd7c16a7091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 12/68] fix: failed append leaves the bulk tree buffer as it
 was

---
 grovedb-bulk-append-tree/src/tree/append.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/grovedb-bulk-append-tree/src/tree/append.rs b/grovedb-bulk-append-tree/src/tree/append.rs
index 5b7e566..56e4d72 100644
--- a/grovedb-bulk-append-tree/src/tree/append.rs
+++ b/grovedb-bulk-append-tree/src/tree/append.rs
@@ -55,6 +55,15 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
         let mut hash_count: u32 = 0;
         let global_position = self.total_count;
 
+        // While the buffer has room the MMR stays as it is. Read its root first:
+        // a failure after the dense insert would leave the buffer one entry
+        // ahead of `total_count`.
+        let current_mmr_root = if self.dense_tree.count() < self.dense_tree.capacity() {
+            self.get_mmr_root()?
+        } else {
+            [0u8; 32] // replaced by the root after compaction
+        };
+
         // 1. Try to insert into the dense tree buffer
         let try_result = self.dense_tree.try_insert(value).unwrap().map_err(|e| {
             BulkAppendError::StorageError(format!("dense tree insert failed: {}", e))
@@ -64,8 +73,7 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
             Some((dense_root, _position)) => {
                 // Inserted successfully, no compaction needed
                 hash_count += self.dense_tree.count() as u32 * 2;
-                let root = self.get_mmr_root()?;
-                (false, root, dense_root)
+                (false, current_mmr_root, dense_root)
             }
             None => {
                 // Dense tree is full — compact existing entries + new value.
-- 
2.43.0


From 5ab82f81c0e02e29e5933dcae85dd1fa75b5f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 13/68] fix: drop staged chunk nodes when a compaction fails

---
 grovedb-bulk-append-tree/src/tree/append.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grovedb-bulk-append-tree/src/tree/append.rs b/grovedb-bulk-append-tree/src/tree/append.rs
index 56e4d72..721b55e 100644
--- a/grovedb-bulk-append-tree/src/tree/append.rs
+++ b/grovedb-bulk-append-tree/src/tree/append.rs
@@ -150,6 +150,7 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
         // Use the overlay from previous compactions so cross-compaction
         // reads work without a storage round-trip. After push+get_root,
         // take the overlay back (don't commit — that happens at session end).
+        let staged_runs = self.mmr_overlay.len();
         let mmr_root = {
             let mmr_store = MmrStore::with_key_size(&self.dense_tree.storage, MmrKeySize::U32);
             let mut mmr =
@@ -166,7 +167,10 @@ impl<'db, S: StorageContext<'db>> BulkAppendTree<S> {
             let root = match root_result {
                 Ok(node) => node.hash(),
                 Err(e) => {
+                    // Restore the overlay without the nodes of this push, so
+                    // that the append can be retried.
                     self.mmr_overlay = mmr.batch.take_overlay();
+                    self.mmr_overlay.truncate(staged_runs);
                     return Err(BulkAppendError::MmrError(format!(
                         "MMR get_root failed: {}",
                         e
-- 
2.43.0


From e1d3358463d0bfe34935be59190d49deb4f08eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:41 +0000
Subject: [PATCH 14/68] fix: deserialize query items by the names they are
 serialized with

---
 grovedb-query/src/query_item/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/grovedb-query/src/query_item/mod.rs b/grovedb-query/src/query_item/mod.rs
index 463d79d..b78737b 100644
--- a/grovedb-query/src/query_item/mod.rs
+++ b/grovedb-query/src/query_item/mod.rs
@@ -131,17 +131,28 @@ impl<'de> Deserialize<'de> for QueryItem {
         D: Deserializer<'de>,
     {
         #[derive(Deserialize)]
-        #[serde(field_identifier, rename_all = "snake_case")]
+        // The names `serialize` writes; the snake case names stay accepted.
+        #[serde(field_identifier)]
         enum Field {
+            #[serde(alias = "key")]
             Key,
+            #[serde(alias = "range")]
             Range,
+            #[serde(alias = "range_inclusive")]
             RangeInclusive,
+            #[serde(alias = "range_full")]
             RangeFull,
+            #[serde(alias = "range_from")]
             RangeFrom,
+            #[serde(alias = "range_to")]
             RangeTo,
+            #[serde(alias = "range_to_inclusive")]
             RangeToInclusive,
+            #[serde(alias = "range_after")]
             RangeAfter,
+            #[serde(alias = "range_after_to")]
             RangeAfterTo,
+            #[serde(alias = "range_after_to_inclusive")]
             RangeAfterToInclusive,
         }
 
-- 
2.43.0


From 3269dcdb2f13841d9ecb12a6df5fc17bc422ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 15/68] fix: merged queries keep every subtree their inputs
 asked for

---
 grovedb-query/src/merge.rs           | 260 +++++++++------------------
 grovedb-query/src/subquery_branch.rs |   5 +
 grovedb/src/query/mod.rs             |   3 +-
 3 files changed, 90 insertions(+), 178 deletions(-)

diff --git a/grovedb-query/src/merge.rs b/grovedb-query/src/merge.rs
index fbba226..9c14431 100644
--- a/grovedb-query/src/merge.rs
+++ b/grovedb-query/src/merge.rs
@@ -1,9 +1,6 @@
 use indexmap::IndexMap;
 
-use crate::{
-    common_path::CommonPathResult, query_item::QueryItem, Query, QueryItemIntersectionResult,
-    SubqueryBranch,
-};
+use crate::{common_path::CommonPathResult, query_item::QueryItem, Query, SubqueryBranch};
 
 impl SubqueryBranch {
     fn merge_subquery(
@@ -80,8 +77,7 @@ impl SubqueryBranch {
                         } else {
                             Some(left_path_leftovers)
                         };
-                        merged_query.insert_key(left_top_key.clone());
-                        merged_query.merge_conditional_boxed_subquery(
+                        merged_query.merge_item_with_branch(
                             QueryItem::Key(left_top_key),
                             SubqueryBranch {
                                 subquery_path: maybe_left_path_leftovers,
@@ -95,8 +91,7 @@ impl SubqueryBranch {
                             Some(right_path_leftovers)
                         };
 
-                        merged_query.insert_key(right_top_key.clone());
-                        merged_query.merge_conditional_boxed_subquery(
+                        merged_query.merge_item_with_branch(
                             QueryItem::Key(right_top_key),
                             SubqueryBranch {
                                 subquery_path: maybe_right_path_leftovers,
@@ -118,10 +113,9 @@ impl SubqueryBranch {
                             Some(left_path_leftovers)
                         };
 
-                        merged_query.insert_key(first_key.clone());
                         // our subquery stays the same as we didn't change level
                         // add a conditional subquery for other
-                        merged_query.merge_conditional_boxed_subquery(
+                        merged_query.merge_item_with_branch(
                             QueryItem::Key(first_key),
                             SubqueryBranch {
                                 subquery_path: maybe_left_path_leftovers,
@@ -143,10 +137,9 @@ impl SubqueryBranch {
                         } else {
                             Some(right_path_leftovers)
                         };
-                        merged_query.insert_key(other_first.clone());
                         // our subquery stays the same as we didn't change level
                         // add a conditional subquery for other
-                        merged_query.merge_conditional_boxed_subquery(
+                        merged_query.merge_item_with_branch(
                             QueryItem::Key(other_first),
                             SubqueryBranch {
                                 subquery_path: maybe_right_path_leftovers,
@@ -175,8 +168,6 @@ impl SubqueryBranch {
 
                 let our_top_key = our_subquery_path.remove(0);
 
-                merged_subquery.insert_key(our_top_key.clone());
-
                 let maybe_our_subquery_path = if our_subquery_path.is_empty() {
                     None
                 } else {
@@ -184,7 +175,7 @@ impl SubqueryBranch {
                 };
                 // our subquery stays the same as we didn't change level
                 // add a conditional subquery for other
-                merged_subquery.merge_conditional_boxed_subquery(
+                merged_subquery.merge_item_with_branch(
                     // there are no conditional subquery branches yes
                     QueryItem::Key(our_top_key),
                     SubqueryBranch {
@@ -211,8 +202,6 @@ impl SubqueryBranch {
 
                 let their_top_key = their_subquery_path.remove(0);
 
-                merged_subquery.insert_key(their_top_key.clone());
-
                 let maybe_their_subquery_path = if their_subquery_path.is_empty() {
                     None
                 } else {
@@ -220,7 +209,7 @@ impl SubqueryBranch {
                 };
                 // their subquery stays the same as we didn't change level
                 // add a conditional subquery for other
-                merged_subquery.merge_conditional_boxed_subquery(
+                merged_subquery.merge_item_with_branch(
                     // there are no conditional subquery branches yes
                     QueryItem::Key(their_top_key),
                     SubqueryBranch {
@@ -443,65 +432,7 @@ impl Query {
         // ordering
         let mut merged_query = queries.swap_remove(0);
         for query in queries {
-            let Query {
-                mut items,
-                default_subquery_branch,
-                conditional_subquery_branches,
-                left_to_right: _,
-                add_parent_tree_on_subquery,
-            } = query;
-            // Preserve add_parent_tree_on_subquery if any query requests it
-            if add_parent_tree_on_subquery {
-                merged_query.add_parent_tree_on_subquery = true;
-            }
-            // the searched for items are the union of all items
-            merged_query.insert_items(items.clone());
-
-            // // We now need to deal with subqueries
-            // let QueryItemManyIntersectionResult{ in_both, ours, theirs } =
-            // QueryItem::intersect_many_ordered(&mut merged_query.items, items);
-            // // for the items that are in both we should set them to the merged subquery
-            // branch
-            //
-            // // for the items that are in ours and theirs we should add conditional
-            // subqueries if let Some(ours) = ours {
-            //     for our_item in ours {
-            //         merged_query
-            //             .merge_conditional_boxed_subquery(our_item,
-            // conditional_subquery_branch)     }
-            // }
-            //
-            // if let Some(theirs) = theirs {
-            //     for their_item in theirs {
-            //         merged_query
-            //             .merge_conditional_boxed_subquery(their_item,
-            // conditional_subquery_branch)     }
-            // }
-
-            if let Some(conditional_subquery_branches) = conditional_subquery_branches {
-                // if there are conditional subqueries
-                // we need to remove from our items the conditional items
-
-                for (conditional_item, conditional_subquery_branch) in conditional_subquery_branches
-                {
-                    merged_query.merge_conditional_boxed_subquery(
-                        conditional_item.clone(),
-                        conditional_subquery_branch,
-                    );
-                    if !items.is_empty() {
-                        let intersection_result =
-                            QueryItem::intersect_many_ordered(&mut items, vec![conditional_item]);
-                        items = intersection_result.ours.unwrap_or_default();
-                    }
-                }
-            }
-            // if there are no conditional subquery items then things are easy
-            // we create a conditional subquery item for all our items and add it to the
-            // query
-            for item in items {
-                merged_query
-                    .merge_conditional_boxed_subquery(item, default_subquery_branch.clone());
-            }
+            merged_query.merge_with(query);
         }
         merged_query
     }
@@ -520,6 +451,7 @@ impl Query {
         if add_parent_tree_on_subquery {
             self.add_parent_tree_on_subquery = true;
         }
+        let own_items = self.items.clone();
         self.insert_items(items.clone());
 
         // let intersection_result = QueryItem::intersect_many_ordered(&mut self.items,
@@ -531,7 +463,8 @@ impl Query {
         // self.merge_default_subquery_branch(default_subquery_branch);
         if let Some(conditional_subquery_branches) = conditional_subquery_branches {
             for (conditional_item, conditional_subquery_branch) in conditional_subquery_branches {
-                self.merge_conditional_boxed_subquery(
+                self.merge_branch_keeping_default(
+                    &own_items,
                     conditional_item.clone(),
                     conditional_subquery_branch,
                 );
@@ -544,10 +477,52 @@ impl Query {
             }
         }
         for item in items {
-            self.merge_conditional_boxed_subquery(item, default_subquery_branch.clone());
+            self.merge_branch_keeping_default(&own_items, item, default_subquery_branch.clone());
         }
     }
 
+    /// Adds an item to the query together with the branch to follow below it,
+    /// merged into what the query follows below it so far.
+    pub fn merge_item_with_branch(&mut self, item: QueryItem, branch: SubqueryBranch) {
+        let own_items = self.items.clone();
+        self.insert_item(item.clone());
+        self.merge_branch_keeping_default(&own_items, item, branch);
+    }
+
+    /// Merges a conditional branch in for an item. The keys that `own_items`
+    /// holds and that follow the default branch get it as a conditional branch
+    /// first, as a conditional branch replaces the default one.
+    fn merge_branch_keeping_default(
+        &mut self,
+        own_items: &[QueryItem],
+        item: QueryItem,
+        branch: SubqueryBranch,
+    ) {
+        if branch.is_empty() {
+            return;
+        }
+        if !self.default_subquery_branch.is_empty() {
+            let mut following_default =
+                QueryItem::intersect_many_ordered(&mut own_items.to_vec(), vec![item.clone()])
+                    .in_both
+                    .unwrap_or_default();
+            for conditional_item in self.conditional_subquery_branches.iter().flatten() {
+                following_default = QueryItem::intersect_many_ordered(
+                    &mut following_default,
+                    vec![conditional_item.0.clone()],
+                )
+                .ours
+                .unwrap_or_default();
+            }
+            for piece in following_default {
+                self.conditional_subquery_branches
+                    .get_or_insert_default()
+                    .insert(piece, self.default_subquery_branch.clone());
+            }
+        }
+        self.merge_conditional_boxed_subquery(item, branch);
+    }
+
     /// Adds a conditional subquery. A conditional subquery replaces the default
     /// subquery and subquery_path if the item matches for the key. If
     /// multiple conditional subquery items match, then the first one that
@@ -557,9 +532,7 @@ impl Query {
         query_item_merging_in: QueryItem,
         subquery_branch_merging_in: SubqueryBranch,
     ) {
-        if subquery_branch_merging_in.subquery.is_some()
-            || subquery_branch_merging_in.subquery_path.is_some()
-        {
+        if !subquery_branch_merging_in.is_empty() {
             self.conditional_subquery_branches = Some(
                 Self::merge_conditional_subquery_branches_with_new_at_query_item(
                     self.conditional_subquery_branches.take(),
@@ -603,109 +576,44 @@ impl Query {
             // 33333
             let mut sub_query_items_merging_in_vec = vec![query_item_merging_in];
             for (original_query_item, subquery_branch) in conditional_subquery_branches {
+                // What is being merged in may meet the original in several places, each
+                // of them takes a piece out of it
+                let mut original_pieces = vec![original_query_item];
+                let mut merged_subquery_branch = None;
                 let mut new_query_items_merging_in_vec = vec![];
-                let mut hit = false;
                 for sub_query_item_merging_in in sub_query_items_merging_in_vec {
-                    let QueryItemIntersectionResult {
-                        in_both,
-                        ours_left,
-                        ours_right,
-                        theirs_left,
-                        theirs_right,
-                    } = original_query_item.intersect(&sub_query_item_merging_in);
-                    if let Some(in_both) = in_both {
-                        if !hit {
-                            hit = true;
-                        }
+                    let intersection_result = QueryItem::intersect_many_ordered(
+                        &mut original_pieces,
+                        vec![sub_query_item_merging_in],
+                    );
+                    original_pieces = intersection_result.ours.unwrap_or_default();
+                    for in_both in intersection_result.in_both.unwrap_or_default() {
                         // merge the overlapping subquery branches
-                        let merged_subquery_branch =
-                            subquery_branch.merge(&subquery_branch_merging_in);
-                        merged_items.insert(in_both, merged_subquery_branch);
-
-                        match (ours_left, ours_right, theirs_left, theirs_right) {
-                            (None, None, None, None) => {}
-                            (Some(ours_left), None, None, None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                            }
-                            (None, Some(ours_right), None, None) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                            }
-                            (Some(ours_left), Some(ours_right), None, None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                            }
-                            (None, None, Some(theirs_left), None) => {
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (Some(ours_left), None, Some(theirs_left), None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (None, Some(ours_right), Some(theirs_left), None) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (Some(ours_left), Some(ours_right), Some(theirs_left), None) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                            }
-                            (None, None, None, Some(theirs_right)) => {
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (Some(ours_left), None, None, Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, Some(ours_right), None, Some(theirs_right)) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (Some(ours_left), Some(ours_right), None, Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, None, Some(theirs_left), Some(theirs_right)) => {
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-
-                            (Some(ours_left), None, Some(theirs_left), Some(theirs_right)) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (None, Some(ours_right), Some(theirs_left), Some(theirs_right)) => {
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                            (
-                                Some(ours_left),
-                                Some(ours_right),
-                                Some(theirs_left),
-                                Some(theirs_right),
-                            ) => {
-                                merged_items.insert(ours_left, subquery_branch.clone());
-                                merged_items.insert(ours_right, subquery_branch.clone());
-                                new_query_items_merging_in_vec.push(theirs_left);
-                                new_query_items_merging_in_vec.push(theirs_right);
-                            }
-                        }
-                    } else {
-                        // there was no overlap
-                        // re-add to merged_items
-                        new_query_items_merging_in_vec.push(sub_query_item_merging_in);
+                        let merged_subquery_branch = merged_subquery_branch
+                            .get_or_insert_with(|| {
+                                subquery_branch.merge(&subquery_branch_merging_in)
+                            })
+                            .clone();
+                        // the first branch that matches is used, an item that is already
+                        // there goes first
+                        merged_items
+                            .entry(in_both)
+                            .or_insert(merged_subquery_branch);
                     }
+                    new_query_items_merging_in_vec
+                        .extend(intersection_result.theirs.unwrap_or_default());
                 }
-                if !hit {
-                    merged_items.insert(original_query_item, subquery_branch.clone());
+                for original_piece in original_pieces {
+                    merged_items
+                        .entry(original_piece)
+                        .or_insert_with(|| subquery_branch.clone());
                 }
                 sub_query_items_merging_in_vec = new_query_items_merging_in_vec;
             }
             for split_item in sub_query_items_merging_in_vec {
-                merged_items.insert(split_item, subquery_branch_merging_in.clone());
+                merged_items
+                    .entry(split_item)
+                    .or_insert_with(|| subquery_branch_merging_in.clone());
             }
         } else {
             merged_items.insert(query_item_merging_in, subquery_branch_merging_in);
diff --git a/grovedb-query/src/subquery_branch.rs b/grovedb-query/src/subquery_branch.rs
index b66f531..aad4734 100644
--- a/grovedb-query/src/subquery_branch.rs
+++ b/grovedb-query/src/subquery_branch.rs
@@ -76,6 +76,11 @@ impl<'de, Context> BorrowDecode<'de, Context> for SubqueryBranch {
 }
 
 impl SubqueryBranch {
+    /// Whether nothing follows below a key on this branch
+    pub(crate) fn is_empty(&self) -> bool {
+        self.subquery_path.is_none() && self.subquery.is_none()
+    }
+
     /// Returns the depth of the subquery branch
     /// This depth is how many GroveDB layers down we could query at maximum
     #[inline]
diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index 3fd9ecc..34ee648 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -239,7 +239,6 @@ impl PathQuery {
             let mut subquery_path =
                 subquery_path.ok_or(Error::CorruptedCodeExecution("subquery path must exist"))?;
             let key = subquery_path.remove(0); // must exist
-            merged_query.insert_item(QueryItem::Key(key.clone()));
             let rest_of_path = if subquery_path.is_empty() {
                 None
             } else {
@@ -249,7 +248,7 @@ impl PathQuery {
                 subquery_path: rest_of_path,
                 subquery,
             };
-            merged_query.merge_conditional_boxed_subquery(QueryItem::Key(key), subquery_branch);
+            merged_query.merge_item_with_branch(QueryItem::Key(key), subquery_branch);
         }
 
         Ok(PathQuery::new_unsized(common_path, merged_query))
-- 
2.43.0


From 1cd427fdf26b3592502d1c7796a81695c5f76081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 16/68] fix: terminal keys follow the first matching
 conditional branch

---
 grovedb-query/src/query.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/grovedb-query/src/query.rs b/grovedb-query/src/query.rs
index df79177..b01c76e 100644
--- a/grovedb-query/src/query.rs
+++ b/grovedb-query/src/query.rs
@@ -390,7 +390,12 @@ impl Query {
                              {max_results}, current length is {current_len}",
                         )));
                     }
-                    already_added_keys.insert(key.clone());
+                    // only keys the query selects, below the first branch that matches
+                    if !self.items.iter().any(|item| item.contains(&key))
+                        || !already_added_keys.insert(key.clone())
+                    {
+                        continue;
+                    }
                     let mut path = current_path.clone();
                     if let Some(subquery_path) = &subquery_branch.subquery_path {
                         if let Some(subquery) = &subquery_branch.subquery {
@@ -442,6 +447,17 @@ impl Query {
                             subquery.terminal_keys_inner(path, max_results, result, depth + 1)?;
                         added += added_here;
                         current_len += added_here;
+                    } else {
+                        // nothing follows below, the key itself is terminal
+                        if current_len == max_results {
+                            return Err(Error::RequestAmountExceeded(format!(
+                                "terminal keys limit exceeded for conditional key, set max is \
+                                 {max_results}, current length is {current_len}",
+                            )));
+                        }
+                        result.push((path, key));
+                        added += 1;
+                        current_len += 1;
                     }
                 }
             }
-- 
2.43.0


From 76fa3fdf1bbe52868b36ba116594aacd2468b73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 17/68] fix: the proof decoder advances by the bytes it read

It advanced by the canonical length of the decoded operation, so after a
longer spelling (large form with a short value, padded varint) it read the
tail of that operation again as further operations.
---
 grovedb-query/src/proofs/encoding.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/grovedb-query/src/proofs/encoding.rs b/grovedb-query/src/proofs/encoding.rs
index 8cfadb3..cd3ecff 100644
--- a/grovedb-query/src/proofs/encoding.rs
+++ b/grovedb-query/src/proofs/encoding.rs
@@ -1048,7 +1048,12 @@ impl Op {
     }
 
     /// Decode an Op from bytes
-    pub fn decode(bytes: &[u8]) -> Result<Self, Error> {
+    pub fn decode(mut bytes: &[u8]) -> Result<Self, Error> {
+        Self::decode_from(&mut bytes)
+    }
+
+    /// Decode an Op from the start of `bytes`, leaving what follows it.
+    fn decode_from(bytes: &mut &[u8]) -> Result<Self, Error> {
         Decode::decode(bytes).map_err(|e| match e {
             EdError::UnexpectedByte(byte) => Error::InvalidProofError(format!(
                 "failed to decode an proofs::Op structure (UnexpectedByte: {byte})"
@@ -1104,9 +1109,11 @@ impl Iterator for Decoder<'_> {
         }
 
         Some((|| {
-            let bytes = &self.bytes[self.offset..];
-            let op = Op::decode(bytes)?;
-            self.offset += op.encoding_length();
+            let mut rest = &self.bytes[self.offset..];
+            let op = Op::decode_from(&mut rest)?;
+            // advance by what was read: a non-canonical encoding is longer
+            // than the one `encoding_length` describes
+            self.offset = self.bytes.len() - rest.len();
             Ok(op)
         })())
     }
-- 
2.43.0


From 635b06e38ad7775bf318e15b30d43f8780c9d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 18/68] fix: a query proof must run in the direction of its
 query

---
 merk/src/proofs/query/verify.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 8a53417..3315e0d 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -151,7 +151,20 @@ impl QueryProofVerify for Query {
 
         let mut decoder = Decoder::new(bytes);
 
-        let root_wrapped = execute(decoder.by_ref(), true, |node| {
+        // Bounds are checked by looking at the keys in the order in which they
+        // are visited, so the whole proof has to run in the queried direction.
+        let ops = decoder.by_ref().map(|op| {
+            let op = op?;
+            let op_left_to_right = matches!(op, Op::Push(_) | Op::Parent | Op::Child);
+            if op_left_to_right != left_to_right {
+                return Err(Error::InvalidProofError(
+                    "Proof operation runs against the direction of the query".to_string(),
+                ));
+            }
+            Ok(op)
+        });
+
+        let root_wrapped = execute(ops, true, |node| {
             let mut execute_node = |key: &Vec<u8>,
                                     value: Option<&Vec<u8>>,
                                     value_hash: CryptoHash,
-- 
2.43.0


From cd2f1d594da6370fb37c4a95b7d163e988047d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 19/68] fix: proof nodes cannot hang below an abridged subtree

---
 merk/src/proofs/tree.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/merk/src/proofs/tree.rs b/merk/src/proofs/tree.rs
index b733c68..27c528f 100644
--- a/merk/src/proofs/tree.rs
+++ b/merk/src/proofs/tree.rs
@@ -517,6 +517,17 @@ where
             .ok_or_else(|| Error::InvalidProofError("Stack underflow".to_string()))
     }
 
+    // A pushed hash stands for a whole subtree: nodes attached below it would be
+    // visited although the root hash does not cover them.
+    fn check_covered(parent: &Tree, child: &Tree) -> Result<(), Error> {
+        if matches!(parent.node, Node::Hash(_)) && !matches!(child.node, Node::Hash(_)) {
+            return Err(Error::InvalidProofError(
+                "Tried to attach a node to an abridged subtree".to_string(),
+            ));
+        }
+        Ok(())
+    }
+
     for op in ops {
         op_count += 1;
         if op_count > MAX_PROOF_OPS {
@@ -532,6 +543,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_covered(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
@@ -550,6 +562,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_covered(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
@@ -568,6 +581,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_covered(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
@@ -586,6 +600,7 @@ where
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                     cost_return_on_error_no_add!(cost, try_pop(&mut stack)),
                 );
+                cost_return_on_error_no_add!(cost, check_covered(&parent, &child));
                 cost_return_on_error!(
                     &mut cost,
                     parent.attach(
-- 
2.43.0


From 03645bbc1ee5db1a8c869cf2fad827e0fc6c83ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 20/68] fix: mountain range results come in leaf order whatever
 order the proof lists them

---
 grovedb/src/operations/proof/verify.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 64ea665..7944ec0 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -840,6 +840,9 @@ impl GroveDb {
             ));
         }
 
+        // The proof may list its leaves in any order, results are in leaf order.
+        let verified_leaves: BTreeMap<u64, Vec<u8>> = verified_leaves.into_iter().collect();
+
         // Add each verified leaf to the result set
         for (leaf_index, value) in verified_leaves {
             let key = leaf_index.to_be_bytes().to_vec();
-- 
2.43.0


From f4732bb12d141a9b440dbf5c70dc401d89a834cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:39 +0000
Subject: [PATCH 21/68] fix: verified layers reject disguised empty trees and
 raw references

---
 grovedb/src/operations/proof/verify.rs | 65 +++++++++++++++-----------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 7944ec0..b08eb99 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -486,6 +486,45 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    // A proof shows the referenced value in the place of a
+                    // reference. The bytes of a reference itself are not part
+                    // of the hash of the nodes that could carry them.
+                    if element.is_reference() {
+                        return Err(Error::InvalidProof(
+                            query.clone(),
+                            format!(
+                                "V1 proof has an unresolved reference at key {}",
+                                hex::encode(key)
+                            ),
+                        ));
+                    }
+
+                    // For empty trees verify that the value_hash matches
+                    // combine_hash(H(value), NULL_HASH), whether the query
+                    // returns them or looks into them. Without this check, an
+                    // attacker could swap tree types (e.g. SumTree→Tree), or
+                    // hide the contents of a tree, in KVValueHash nodes without
+                    // breaking the merk proof, since the value bytes are not
+                    // part of the KVValueHash tree hash computation.
+                    if element.is_any_tree() && !element.is_non_empty_tree() {
+                        let expected_value_hash =
+                            combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
+                                .value()
+                                .to_owned();
+                        if hash != &expected_value_hash {
+                            return Err(Error::InvalidProof(
+                                query.clone(),
+                                format!(
+                                    "V1 empty tree value hash mismatch at key {}: expected {}, \
+                                     got {}",
+                                    hex::encode(key),
+                                    hex::encode(hash),
+                                    hex::encode(expected_value_hash)
+                                ),
+                            ));
+                        }
+                    }
+
                     if let Some(lower_layer) = layer_proof.lower_layers.get(key) {
                         // MmrTree/BulkAppendTree have root_key=None (no child Merk data),
                         // so they match on (..) rather than (Some(_), ..)
@@ -645,32 +684,6 @@ impl GroveDb {
                             && (options.include_empty_trees_in_result
                                 || !matches!(element, Element::Tree(None, _)))
                     {
-                        // For empty trees in the result set (no lower layer
-                        // proof), verify that the value_hash matches
-                        // combine_hash(H(value), NULL_HASH). Without this
-                        // check, an attacker could swap tree types (e.g.
-                        // SumTree→Tree) in KVValueHash nodes without breaking
-                        // the merk proof, since the value bytes are not part of
-                        // the KVValueHash tree hash computation.
-                        if element.is_any_tree() && !element.is_non_empty_tree() {
-                            let expected_value_hash =
-                                combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
-                                    .value()
-                                    .to_owned();
-                            if hash != &expected_value_hash {
-                                return Err(Error::InvalidProof(
-                                    query.clone(),
-                                    format!(
-                                        "V1 empty tree value hash mismatch at key {}: \
-                                         expected {}, got {}",
-                                        hex::encode(key),
-                                        hex::encode(hash),
-                                        hex::encode(expected_value_hash)
-                                    ),
-                                ));
-                            }
-                        }
-
                         // For non-empty Merk trees without a subquery (no
                         // lower layer proof), the prover must use
                         // KVValueHashFeatureTypeWithChildHash so the merk
-- 
2.43.0


From 36a9ae4b626d1b489e63790933a433e83fa51582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 22/68] fix: a tree returned for itself is checked against the
 layer shown below it

---
 grovedb/src/operations/proof/verify.rs | 113 +++++++++++++++++++++++--
 1 file changed, 108 insertions(+), 5 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index b08eb99..f76ac87 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -541,12 +541,37 @@ impl GroveDb {
                             | Element::BulkAppendTree(..)
                             | Element::DenseAppendOnlyFixedSizeTree(..) => {
                                 path.push(key);
-                                *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
-                                    // Query targets the tree itself, not its contents
+                                    // Query targets the tree itself, not its contents.
+                                    // The layer below it still has to account for the
+                                    // value hash, as it does when it is queried.
+                                    if !proved_key_value.child_hash_verified {
+                                        let lower_hash = Self::lower_layer_root_hash(
+                                            lower_layer,
+                                            &element,
+                                            query,
+                                        )?;
+                                        let combined_root_hash = combine_hash(
+                                            value_hash(value_bytes).value(),
+                                            &lower_hash,
+                                        )
+                                        .value()
+                                        .to_owned();
+                                        if hash != &combined_root_hash {
+                                            return Err(Error::InvalidProof(
+                                                query.clone(),
+                                                format!(
+                                                    "V1 mismatch in lower layer hash, expected \
+                                                     {}, got {}",
+                                                    hex::encode(hash),
+                                                    hex::encode(combined_root_hash)
+                                                ),
+                                            ));
+                                        }
+                                    }
                                     let path_key_optional_value =
                                         ProvedPathKeyOptionalValue::from_proved_key_value(
-                                            path.iter().map(|p| p.to_vec()).collect(),
+                                            current_path.iter().map(|p| p.to_vec()).collect(),
                                             proved_key_value,
                                         );
                                     result.push(
@@ -560,6 +585,7 @@ impl GroveDb {
                                         break;
                                     }
                                 } else {
+                                    *last_parent_tree_type = element.tree_feature_type();
                                     // Known limitation: this parent tree result
                                     // is pushed without decrementing limit_left.
                                     // Will be addressed by per-level limits
@@ -751,6 +777,83 @@ impl GroveDb {
         Ok(root_hash)
     }
 
+    /// Computes the root hash of a lower layer whose contents are not queried.
+    fn lower_layer_root_hash(
+        layer_proof: &LayerProof,
+        element: &Element,
+        query: &PathQuery,
+    ) -> Result<CryptoHash, Error> {
+        let invalid = |e: String| Error::InvalidProof(query.clone(), e);
+        let bulk_root = |bytes: &[u8]| {
+            let (total_count, height) = match element {
+                Element::BulkAppendTree(total_count, height, _)
+                | Element::CommitmentTree(total_count, height, _) => (*total_count, *height),
+                _ => {
+                    return Err(invalid(
+                        "BulkAppendTree proof attached to incompatible element".to_string(),
+                    ));
+                }
+            };
+            grovedb_bulk_append_tree::BulkAppendTreeProof::decode_from_slice(bytes)
+                .map_err(|e| Error::CorruptedData(format!("{}", e)))?
+                .verify_and_compute_root(height, total_count)
+                .map(|(root, _)| root)
+                .map_err(|e| invalid(format!("{}", e)))
+        };
+        match &layer_proof.merk_proof {
+            ProofBytes::Merk(bytes) => {
+                let mut decoder = Decoder::new(bytes);
+                let tree = execute(decoder.by_ref(), true, |_| Ok(()))
+                    .unwrap()
+                    .map_err(|e| invalid(format!("{}", e)))?;
+                if decoder.remaining_bytes() > 0 {
+                    return Err(invalid(format!(
+                        "Proof has {} unconsumed trailing bytes",
+                        decoder.remaining_bytes()
+                    )));
+                }
+                Ok(tree.hash().unwrap())
+            }
+            ProofBytes::MMR(bytes) => {
+                let proof = grovedb_merkle_mountain_range::MmrTreeProof::decode_from_slice(bytes)
+                    .map_err(|e| Error::CorruptedData(format!("{}", e)))?;
+                if proof.leaves().is_empty() && proof.mmr_size() == 0 {
+                    return Ok(NULL_HASH);
+                }
+                proof
+                    .verify_and_get_root()
+                    .map(|(root, _)| root)
+                    .map_err(|e| invalid(format!("{}", e)))
+            }
+            ProofBytes::BulkAppendTree(bytes) => bulk_root(bytes),
+            ProofBytes::CommitmentTree(bytes) => {
+                let (sinsemilla_root, bulk_bytes) = bytes
+                    .split_at_checked(32)
+                    .ok_or_else(|| invalid("CommitmentTree proof too short".to_string()))?;
+                let mut hasher = blake3::Hasher::new();
+                hasher.update(b"ct_state");
+                hasher.update(sinsemilla_root);
+                hasher.update(&bulk_root(bulk_bytes)?);
+                Ok(*hasher.finalize().as_bytes())
+            }
+            ProofBytes::DenseTree(bytes) => {
+                let (count, height) = match element {
+                    Element::DenseAppendOnlyFixedSizeTree(count, height, _) => (*count, *height),
+                    _ => {
+                        return Err(invalid(
+                            "DenseTree proof attached to non-DenseTree element".to_string(),
+                        ));
+                    }
+                };
+                grovedb_dense_fixed_sized_merkle_tree::DenseTreeProof::decode_from_slice(bytes)
+                    .map_err(|e| Error::CorruptedData(format!("{}", e)))?
+                    .verify_and_get_root(height, count)
+                    .map(|(root, _): (CryptoHash, Vec<(u16, Vec<u8>)>)| root)
+                    .map_err(|e| invalid(format!("{}", e)))
+            }
+        }
+    }
+
     /// Verify an MMR lower layer proof and add results.
     /// Returns the computed MMR root hash, which the caller uses as the
     /// child hash for Merk authentication (`combine_hash(value_hash ||
@@ -1480,12 +1583,11 @@ impl GroveDb {
                             | Element::ProvableCountTree(Some(_), ..)
                             | Element::ProvableCountSumTree(Some(_), ..) => {
                                 path.push(key);
-                                *last_parent_tree_type = element.tree_feature_type();
                                 if query.query_items_at_path(&path, grove_version)?.is_none() {
                                     // We are actually looking for the tree
                                     let path_key_optional_value =
                                         ProvedPathKeyOptionalValue::from_proved_key_value(
-                                            path.iter().map(|p| p.to_vec()).collect(),
+                                            current_path.iter().map(|p| p.to_vec()).collect(),
                                             proved_key_value,
                                         );
                                     #[cfg(feature = "proof_debug")]
@@ -1507,6 +1609,7 @@ impl GroveDb {
                                         break;
                                     }
                                 } else {
+                                    *last_parent_tree_type = element.tree_feature_type();
                                     // Known limitation: this parent tree result
                                     // is pushed without decrementing limit_left.
                                     // Will be addressed by per-level limits
-- 
2.43.0


From 3e897ca2ec0c0dd2f8185669a49bdf01de646de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 23/68] fix: the verifier counts empty trees towards the limit
 like the prover

---
 grovedb/src/operations/proof/verify.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index f76ac87..c73a973 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -753,6 +753,15 @@ impl GroveDb {
                                 hex::encode(key),
                             ),
                         ));
+                    } else {
+                        // An empty tree that is looked into, or not shown, counts
+                        // towards the limit, as it does for queries and provers.
+                        limit_left
+                            .iter_mut()
+                            .for_each(|limit| *limit = limit.saturating_sub(1));
+                        if limit_left == &Some(0) {
+                            break;
+                        }
                     }
                 }
             }
@@ -1783,6 +1792,15 @@ impl GroveDb {
                                 hex::encode(key),
                             ),
                         ));
+                    } else {
+                        // An empty tree that is looked into, or not shown, counts
+                        // towards the limit, as it does for queries and provers.
+                        limit_left
+                            .iter_mut()
+                            .for_each(|limit| *limit = limit.saturating_sub(1));
+                        if limit_left == &Some(0) {
+                            break;
+                        }
                     }
                 }
             }
-- 
2.43.0


From afcdf474079709069863f09129aca0effe2b5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 24/68] fix: an empty conditional branch leads nowhere when
 proofs are made and checked

---
 grovedb/src/query/mod.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index 34ee648..fbb493f 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -593,6 +593,8 @@ pub enum HasSubquery<'a> {
     NoSubquery,
     Always,
     Conditionally(Cow<'a, IndexMap<QueryItem, SubqueryBranch>>),
+    /// Keys that no conditional branch takes have a subquery.
+    AlwaysUnlessConditionally(Cow<'a, IndexMap<QueryItem, SubqueryBranch>>),
 }
 
 impl fmt::Display for HasSubquery<'_> {
@@ -600,8 +602,12 @@ impl fmt::Display for HasSubquery<'_> {
         match self {
             HasSubquery::NoSubquery => write!(f, "NoSubquery"),
             HasSubquery::Always => write!(f, "Always"),
-            HasSubquery::Conditionally(map) => {
-                writeln!(f, "Conditionally {{")?;
+            HasSubquery::Conditionally(map) | HasSubquery::AlwaysUnlessConditionally(map) => {
+                if matches!(self, HasSubquery::Conditionally(_)) {
+                    writeln!(f, "Conditionally {{")?;
+                } else {
+                    writeln!(f, "AlwaysUnlessConditionally {{")?;
+                }
                 for (query_item, subquery_branch) in map.iter() {
                     writeln!(f, "  {query_item}: {subquery_branch},")?;
                 }
@@ -614,11 +620,17 @@ impl fmt::Display for HasSubquery<'_> {
 impl HasSubquery<'_> {
     /// Checks to see if we have a subquery on a specific key
     pub fn has_subquery_on_key(&self, key: &[u8]) -> bool {
+        // The first conditional branch that takes the key decides, and it can
+        // decide that there is nothing below the key.
+        let conditional = |map: &IndexMap<QueryItem, SubqueryBranch>| {
+            map.iter()
+                .find(|(query_item, _)| query_item.contains(key))
+                .map(|(_, branch)| branch.subquery.is_some() || branch.subquery_path.is_some())
+        };
         match self {
             HasSubquery::NoSubquery => false,
-            HasSubquery::Conditionally(conditionally) => conditionally
-                .keys()
-                .any(|query_item| query_item.contains(key)),
+            HasSubquery::Conditionally(map) => conditional(map).unwrap_or(false),
+            HasSubquery::AlwaysUnlessConditionally(map) => conditional(map).unwrap_or(true),
             HasSubquery::Always => true,
         }
     }
@@ -698,7 +710,16 @@ impl<'a> SinglePathSubquery<'a> {
         let has_subquery = if query.default_subquery_branch.subquery.is_some()
             || query.default_subquery_branch.subquery_path.is_some()
         {
-            HasSubquery::Always
+            match query.conditional_subquery_branches.as_ref() {
+                Some(conditional)
+                    if conditional.values().any(|branch| {
+                        branch.subquery.is_none() && branch.subquery_path.is_none()
+                    }) =>
+                {
+                    HasSubquery::AlwaysUnlessConditionally(Cow::Borrowed(conditional))
+                }
+                _ => HasSubquery::Always,
+            }
         } else if let Some(conditional) = query.conditional_subquery_branches.as_ref() {
             HasSubquery::Conditionally(Cow::Borrowed(conditional))
         } else {
-- 
2.43.0


From 205cfe0b55a9c0c9e908f43489e9e0836abe53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:47 +0000
Subject: [PATCH 25/68] fix: references in provable count sum trees are proved
 with their count

---
 grovedb/src/operations/proof/generate.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 2f3c8cc..0068527 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -319,7 +319,8 @@ impl GroveDb {
             let count_for_ref = match op {
                 Op::Push(Node::KVValueHashFeatureType(_, _, _, ft))
                 | Op::PushInverted(Node::KVValueHashFeatureType(_, _, _, ft)) => match ft {
-                    TreeFeatureType::ProvableCountedMerkNode(count) => Some(*count),
+                    TreeFeatureType::ProvableCountedMerkNode(count)
+                    | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
                     _ => None,
                 },
                 _ => None,
@@ -1033,7 +1034,8 @@ impl GroveDb {
             let count_for_ref = match op {
                 Op::Push(Node::KVValueHashFeatureType(_, _, _, ft))
                 | Op::PushInverted(Node::KVValueHashFeatureType(_, _, _, ft)) => match ft {
-                    TreeFeatureType::ProvableCountedMerkNode(count) => Some(*count),
+                    TreeFeatureType::ProvableCountedMerkNode(count)
+                    | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
                     _ => None,
                 },
                 _ => None,
-- 
2.43.0


From 8278827eef7767a86614195a8ba709583255f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 26/68] fix: query items that select nothing no longer hide
 what other items select

Verifying a query like [Key(g), RangeAfterTo(g..g)] from right to left waited
for the empty range at g and left g out of the results.
---
 merk/src/proofs/query/verify.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 3315e0d..1a00490 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -144,7 +144,17 @@ impl QueryProofVerify for Query {
 
         let mut output = Vec::with_capacity(self.len());
         let mut last_push = None;
-        let mut query = self.directional_iter(left_to_right).peekable();
+        // Items that cannot select any key (like `RangeAfterTo` from a key to itself)
+        // would be waited for at the keys they touch, hiding what other items select.
+        let mut query = self
+            .directional_iter(left_to_right)
+            .filter(|item| match (item.lower_bound(), item.upper_bound()) {
+                ((Some(lower), exclusive), (Some(upper), inclusive)) => {
+                    lower < upper || (lower == upper && !exclusive && inclusive)
+                }
+                _ => true,
+            })
+            .peekable();
         let mut in_range = false;
         let original_limit = limit;
         let mut current_limit = limit;
-- 
2.43.0


From f7e8b1d4a493ef54682fb0d376a35de07e07f7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 27/68] fix: displaying an untrusted proof no longer fails on
 values that are not elements

format!("{proof}") panicked on such proofs.
---
 grovedb/src/operations/proof/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/operations/proof/mod.rs b/grovedb/src/operations/proof/mod.rs
index 1b9729f..bc2431f 100644
--- a/grovedb/src/operations/proof/mod.rs
+++ b/grovedb/src/operations/proof/mod.rs
@@ -644,7 +644,10 @@ fn decode_merk_proof(proof: &[u8]) -> Result<String, fmt::Error> {
     for (i, op) in ops.enumerate() {
         match op {
             Ok(op) => {
-                result.push_str(&format!("\n    {}: {}", i, op_to_string(&op)?));
+                // values of untrusted proofs need not be elements
+                let op =
+                    op_to_string(&op).unwrap_or_else(|_| "<value is not an element>".to_string());
+                result.push_str(&format!("\n    {}: {}", i, op));
             }
             Err(e) => {
                 result.push_str(&format!("\n    {}: Error decoding op: {}", i, e));
-- 
2.43.0


From aa46f718870a20fb9b632e1700dcfc8e051b0e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 28/68] fix: strict verification refuses layers below
 append-only tree layers

---
 grovedb/src/operations/proof/verify.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index c73a973..66bb034 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -605,6 +605,22 @@ impl GroveDb {
                                         );
                                     }
 
+                                    // Append-only trees hold no trees, so nothing
+                                    // below their layer can be required.
+                                    if options.verify_proof_succinctness
+                                        && !matches!(lower_layer.merk_proof, ProofBytes::Merk(_))
+                                        && !lower_layer.lower_layers.is_empty()
+                                    {
+                                        return Err(Error::InvalidProof(
+                                            query.clone(),
+                                            format!(
+                                                "V1 proof contains extra lower layers below the \
+                                                 append-only tree at key {}",
+                                                hex::encode(key),
+                                            ),
+                                        ));
+                                    }
+
                                     // Dispatch based on lower layer proof type
                                     let lower_hash = match &lower_layer.merk_proof {
                                         ProofBytes::Merk(_) => {
-- 
2.43.0


From d8df34ac0be3b873c74d2c3c6a0b024bc9171679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 29/68] fix: dense tree results come in position order whatever
 order the proof lists them

---
 grovedb/src/operations/proof/verify.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 66bb034..24461ee 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -1224,7 +1224,9 @@ impl GroveDb {
         // verify_for_query validates height+count from the authenticated Element,
         // checks completeness (all queried positions present) and soundness
         // (no unrequested positions), then returns only matching entries.
-        let (computed_root, verified_entries): ([u8; 32], Vec<(u16, Vec<u8>)>) = dense_proof
+        // The proof may list its entries in any order, results are in position
+        // order.
+        let (computed_root, verified_entries): ([u8; 32], BTreeMap<u16, Vec<u8>>) = dense_proof
             .verify_for_query(&level_query, element_height, element_count)
             .map_err(|e| Error::InvalidProof(query.clone(), format!("{}", e)))?;
 
-- 
2.43.0


From 20736d5ba154e914214506c98181c4ec846890cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 30/68] fix: bulk append tree queries for the last position are
 verified like others

---
 grovedb/src/operations/proof/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 24461ee..ae30dff 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -1374,7 +1374,7 @@ impl GroveDb {
             }
         }
 
-        if min_start == u64::MAX {
+        if items.is_empty() {
             return Err(Error::InvalidInput(
                 "No valid range items found in BulkAppendTree query",
             ));
-- 
2.43.0


From 7a8696247abb39d55d654ffeed269d218815bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 31/68] fix: parent tree info is that of the queried tree

When the tree at the query's path was empty or absent, the info of the deepest
tree on the way to it was returned instead.
---
 grovedb/src/operations/proof/verify.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index ae30dff..ac82f93 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -585,7 +585,11 @@ impl GroveDb {
                                         break;
                                     }
                                 } else {
-                                    *last_parent_tree_type = element.tree_feature_type();
+                                    // only the tree that is queried, not those on
+                                    // the way to it
+                                    if path.len() == query.path.len() {
+                                        *last_parent_tree_type = element.tree_feature_type();
+                                    }
                                     // Known limitation: this parent tree result
                                     // is pushed without decrementing limit_left.
                                     // Will be addressed by per-level limits
@@ -770,6 +774,9 @@ impl GroveDb {
                             ),
                         ));
                     } else {
+                        if current_path.len() + 1 == query.path.len() {
+                            *last_parent_tree_type = element.tree_feature_type();
+                        }
                         // An empty tree that is looked into, or not shown, counts
                         // towards the limit, as it does for queries and provers.
                         limit_left
@@ -1636,7 +1643,11 @@ impl GroveDb {
                                         break;
                                     }
                                 } else {
-                                    *last_parent_tree_type = element.tree_feature_type();
+                                    // only the tree that is queried, not those on
+                                    // the way to it
+                                    if path.len() == query.path.len() {
+                                        *last_parent_tree_type = element.tree_feature_type();
+                                    }
                                     // Known limitation: this parent tree result
                                     // is pushed without decrementing limit_left.
                                     // Will be addressed by per-level limits
@@ -1811,6 +1822,9 @@ impl GroveDb {
                             ),
                         ));
                     } else {
+                        if current_path.len() + 1 == query.path.len() {
+                            *last_parent_tree_type = element.tree_feature_type();
+                        }
                         // An empty tree that is looked into, or not shown, counts
                         // towards the limit, as it does for queries and provers.
                         limit_left
-- 
2.43.0


From f2a4e4f24d7a66415ae43290cd1a837638ebb50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 32/68] fix: legacy proofs cannot hide an element behind an
 empty tree

---
 grovedb/src/operations/proof/verify.rs | 52 +++++++++++++-------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index ac82f93..0b40a8b 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -1603,6 +1603,32 @@ impl GroveDb {
 
                     verified_keys.insert(key.clone());
 
+                    // For empty trees verify that the value_hash matches
+                    // combine_hash(H(value), NULL_HASH), whether the query
+                    // returns them or not. Without this check, an attacker
+                    // could swap tree types (e.g. SumTree→Tree), or hide what
+                    // is stored under the key, in KVValueHash nodes without
+                    // breaking the merk proof, since the value bytes are not
+                    // part of the KVValueHash tree hash computation.
+                    if element.is_any_tree() && !element.is_non_empty_tree() {
+                        let expected_value_hash =
+                            combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
+                                .value()
+                                .to_owned();
+                        if hash != &expected_value_hash {
+                            return Err(Error::InvalidProof(
+                                query.clone(),
+                                format!(
+                                    "empty tree value hash mismatch at key {}: expected \
+                                     {}, got {}",
+                                    hex::encode(key),
+                                    hex::encode(hash),
+                                    hex::encode(expected_value_hash)
+                                ),
+                            ));
+                        }
+                    }
+
                     if let Some(lower_layer) = layer_proof.lower_layers.get(key) {
                         #[cfg(feature = "proof_debug")]
                         {
@@ -1761,32 +1787,6 @@ impl GroveDb {
                             && (options.include_empty_trees_in_result
                                 || !matches!(element, Element::Tree(None, _)))
                     {
-                        // For empty trees in the result set (no lower layer
-                        // proof), verify that the value_hash matches
-                        // combine_hash(H(value), NULL_HASH). Without this
-                        // check, an attacker could swap tree types (e.g.
-                        // SumTree→Tree) in KVValueHash nodes without breaking
-                        // the merk proof, since the value bytes are not part of
-                        // the KVValueHash tree hash computation.
-                        if element.is_any_tree() && !element.is_non_empty_tree() {
-                            let expected_value_hash =
-                                combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
-                                    .value()
-                                    .to_owned();
-                            if hash != &expected_value_hash {
-                                return Err(Error::InvalidProof(
-                                    query.clone(),
-                                    format!(
-                                        "empty tree value hash mismatch at key {}: expected \
-                                         {}, got {}",
-                                        hex::encode(key),
-                                        hex::encode(hash),
-                                        hex::encode(expected_value_hash)
-                                    ),
-                                ));
-                            }
-                        }
-
                         // V0 proofs do not require
                         // KVValueHashFeatureTypeWithChildHash for non-empty
                         // trees without subqueries — that check is V1-only.
-- 
2.43.0


From e747a8be6315b899b0c360d960457b497d0ca763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 33/68] fix: trunk chunk proofs with a minimum depth are
 verified with it

---
 grovedb/src/operations/proof/verify.rs | 39 ++++++++++++++++++++------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 0b40a8b..92ca32f 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -1,7 +1,8 @@
 use std::collections::{BTreeMap, BTreeSet};
 
 use grovedb_merk::{
-    calculate_chunk_depths, calculate_max_tree_depth_from_count,
+    calculate_chunk_depths, calculate_chunk_depths_with_minimum,
+    calculate_max_tree_depth_from_count,
     element::tree_type::ElementTreeTypeExtensions,
     proofs::{
         execute,
@@ -2142,6 +2143,7 @@ impl GroveDb {
         let mut current_layer = &proof.root_layer;
         let mut current_path: Vec<Vec<u8>> = Vec::new();
         let mut count: Option<u64> = None;
+        let mut is_provable_count_tree = false;
         let mut grovedb_root_hash: Option<CryptoHash> = None;
 
         // Walk through each path segment, verifying layer proofs
@@ -2189,6 +2191,10 @@ impl GroveDb {
                         if i == query.path.len() - 1 {
                             let element = Element::deserialize(value_bytes, grove_version)?;
                             count = Self::extract_count_from_element(&element);
+                            is_provable_count_tree = matches!(
+                                element,
+                                Element::ProvableCountTree(..) | Element::ProvableCountSumTree(..)
+                            );
                         }
                     }
                     break;
@@ -2273,8 +2279,7 @@ impl GroveDb {
         }
 
         let tree_depth = calculate_max_tree_depth_from_count(count);
-        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
-            .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
+        let chunk_depths = Self::trunk_chunk_depths(query, tree_depth, is_provable_count_tree)?;
 
         // Now we're at the target layer - decode and execute the trunk proof
         let mut decoder = Decoder::new(&current_layer.merk_proof);
@@ -2391,6 +2396,7 @@ impl GroveDb {
         let mut current_layer = &proof.root_layer;
         let mut current_path: Vec<Vec<u8>> = Vec::new();
         let mut count: Option<u64> = None;
+        let mut is_provable_count_tree = false;
         let mut grovedb_root_hash: CryptoHash = [0u8; 32];
 
         // Walk through each path segment, verifying layer proofs
@@ -2439,6 +2445,10 @@ impl GroveDb {
                         if i == query.path.len() - 1 {
                             let element = Element::deserialize(value_bytes, grove_version)?;
                             count = Self::extract_count_from_element(&element);
+                            is_provable_count_tree = matches!(
+                                element,
+                                Element::ProvableCountTree(..) | Element::ProvableCountSumTree(..)
+                            );
                         }
                     }
                     break;
@@ -2522,9 +2532,7 @@ impl GroveDb {
         } else {
             let tree_depth = calculate_max_tree_depth_from_count(count);
             let _chunk_depths =
-                calculate_chunk_depths(tree_depth, query.max_depth).map_err(|e| {
-                    Error::CorruptedData(format!("invalid chunk depth parameters: {}", e))
-                })?;
+                Self::trunk_chunk_depths(query, tree_depth, is_provable_count_tree)?;
 
             let mut decoder = Decoder::new(target_merk_bytes);
             let ops: Vec<Op> = decoder
@@ -2598,8 +2606,7 @@ impl GroveDb {
         // Non-empty tree: extract elements
         let target_tree = target_tree_opt.unwrap();
         let tree_depth = calculate_max_tree_depth_from_count(count);
-        let chunk_depths = calculate_chunk_depths(tree_depth, query.max_depth)
-            .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))?;
+        let chunk_depths = Self::trunk_chunk_depths(query, tree_depth, is_provable_count_tree)?;
 
         let max_depth = chunk_depths.first().copied().unwrap_or(0) as usize;
         let mut elements = BTreeMap::new();
@@ -2624,6 +2631,22 @@ impl GroveDb {
         Ok((grovedb_root_hash, trunk_result))
     }
 
+    /// The depths of the chunks of a tree, as the prover splits them: a minimum
+    /// depth applies to provable count trees only.
+    fn trunk_chunk_depths(
+        query: &PathTrunkChunkQuery,
+        tree_depth: u8,
+        is_provable_count_tree: bool,
+    ) -> Result<Vec<u8>, Error> {
+        match query.min_depth {
+            Some(min_depth) if is_provable_count_tree => {
+                calculate_chunk_depths_with_minimum(tree_depth, query.max_depth, min_depth)
+            }
+            _ => calculate_chunk_depths(tree_depth, query.max_depth),
+        }
+        .map_err(|e| Error::CorruptedData(format!("invalid chunk depth parameters: {}", e)))
+    }
+
     /// Recursively extract elements and leaf keys from a proof tree.
     ///
     /// Elements are nodes with key-value data that can be deserialized.
-- 
2.43.0


From 144c7444b0951c76aa49d677188cc95632256584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 34/68] fix: counts of chunk proof leaves are given only where
 the proof binds them

---
 grovedb/src/operations/proof/verify.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 92ca32f..b8fe527 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -2783,12 +2783,18 @@ impl GroveDb {
             // should match this node's hash.
             let node_hash = tree.hash().unwrap();
 
-            // Extract count from TreeFeatureType if available
+            // Extract count from TreeFeatureType if available. Only counts of
+            // provable count trees are part of the node hash, others are not
+            // verified.
             // Note: KVHashCount is not included as it never reaches this code path
             let count = match &tree.node {
                 Node::KVValueHashFeatureType(_, _, _, feature_type)
                 | Node::KVValueHashFeatureTypeWithChildHash(_, _, _, feature_type, _) => {
-                    feature_type.count()
+                    match feature_type {
+                        TreeFeatureType::ProvableCountedMerkNode(count)
+                        | TreeFeatureType::ProvableCountedSummedMerkNode(count, _) => Some(*count),
+                        _ => None,
+                    }
                 }
                 Node::KVCount(_, _, count) => Some(*count),
                 Node::KVRefValueHashCount(_, _, _, count) => Some(*count),
-- 
2.43.0


From c3acc9ab3af39a4e4a2bb57144d99a913ecbb97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 35/68] fix: chunk proofs cannot pass an element off as an
 empty tree

---
 grovedb/src/operations/proof/verify.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index b8fe527..e5e8e0c 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -2724,10 +2724,15 @@ impl GroveDb {
                 let computed_vh = value_hash(&value).value().to_owned();
                 if computed_vh != *node_value_hash {
                     // For tree elements, value_hash = combine_hash(H(value),
-                    // child_root_hash). We can't decompose the combined hash,
-                    // but the hash chain verification already validates tree
-                    // elements through the merk proof structure.
-                    if !element.is_any_tree() {
+                    // child_root_hash). We can't decompose the combined hash
+                    // of a tree that is not empty, but the hash chain
+                    // verification already validates tree elements through the
+                    // merk proof structure. Nothing is below an empty tree, so
+                    // an element can't be passed off as one.
+                    let is_valid_tree = element.is_any_tree()
+                        && (element.is_non_empty_tree()
+                            || combine_hash(&computed_vh, &NULL_HASH).value() == node_value_hash);
+                    if !is_valid_tree {
                         return Err(Error::InvalidProof(
                             PathQuery::new_unsized(Vec::new(), Query::default()),
                             format!(
-- 
2.43.0


From 7ad9d89261021d6e4ca5b93aaa8e574b6eb8ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 36/68] fix: displaying an untrusted proof stops at the first
 undecodable operation

---
 grovedb/src/operations/proof/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grovedb/src/operations/proof/mod.rs b/grovedb/src/operations/proof/mod.rs
index bc2431f..e4d038c 100644
--- a/grovedb/src/operations/proof/mod.rs
+++ b/grovedb/src/operations/proof/mod.rs
@@ -651,6 +651,8 @@ fn decode_merk_proof(proof: &[u8]) -> Result<String, fmt::Error> {
             }
             Err(e) => {
                 result.push_str(&format!("\n    {}: Error decoding op: {}", i, e));
+                // the decoder is not past the operation, it would fail on it forever
+                break;
             }
         }
     }
-- 
2.43.0


From a4de4df3e48fcc63d63def8f787ee967b88233f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 37/68] fix: the height of a tree with the greatest counts is
 not overstated

---
 merk/src/proofs/branch/depth.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/merk/src/proofs/branch/depth.rs b/merk/src/proofs/branch/depth.rs
index 70e3325..b000222 100644
--- a/merk/src/proofs/branch/depth.rs
+++ b/merk/src/proofs/branch/depth.rs
@@ -52,7 +52,10 @@ pub fn calculate_max_tree_depth_from_count(count: u64) -> u8 {
 
     loop {
         // Calculate N(height+1) = F(height+3) - 1
-        let f_next = f_prev.saturating_add(f_curr);
+        let Some(f_next) = f_prev.checked_add(f_curr) else {
+            // height+1 requires more than u64::MAX nodes
+            return height;
+        };
         let next_min_nodes = f_next.saturating_sub(1);
 
         if next_min_nodes > count {
-- 
2.43.0


From d8fd1301c0083b267f82f754ea3a01ecc96a393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 38/68] fix: terminal keys follow the conditional branch of
 every matching key

---
 grovedb-query/src/query.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/grovedb-query/src/query.rs b/grovedb-query/src/query.rs
index b01c76e..bd6c4be 100644
--- a/grovedb-query/src/query.rs
+++ b/grovedb-query/src/query.rs
@@ -474,6 +474,16 @@ impl Query {
                     // we already had this key in the conditional subqueries
                     continue; // skip this key
                 }
+                // a conditional range also matches keys longer than those it enumerates
+                let subquery_branch = self
+                    .conditional_subquery_branches
+                    .as_ref()
+                    .and_then(|branches| {
+                        branches
+                            .iter()
+                            .find(|(conditional_item, _)| conditional_item.contains(&key))
+                    })
+                    .map_or(&self.default_subquery_branch, |(_, branch)| branch);
                 if current_len > max_results {
                     return Err(Error::RequestAmountExceeded(format!(
                         "terminal keys limit exceeded for items, set max is {max_results}, \
@@ -481,8 +491,8 @@ impl Query {
                     )));
                 }
                 let mut path = current_path.clone();
-                if let Some(subquery_path) = &self.default_subquery_branch.subquery_path {
-                    if let Some(subquery) = &self.default_subquery_branch.subquery {
+                if let Some(subquery_path) = &subquery_branch.subquery_path {
+                    if let Some(subquery) = &subquery_branch.subquery {
                         // a subquery path with a subquery
                         // push the key to the path
                         path.push(key);
@@ -516,7 +526,7 @@ impl Query {
                         added += 1;
                         current_len += 1;
                     }
-                } else if let Some(subquery) = &self.default_subquery_branch.subquery {
+                } else if let Some(subquery) = &subquery_branch.subquery {
                     // a subquery without a subquery path
                     // push the key to the path
                     path.push(key);
-- 
2.43.0


From d3cd7d44a3a6b5b20c331f22a4317d3f27d3b4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 39/68] fix: chunks in bulk append tree proofs hold exactly the
 entries of their chunk

A chunk blob of nine bytes could claim a million empty values, which were all
collected before anything else was checked.
---
 grovedb-bulk-append-tree/src/proof/mod.rs | 39 ++++++++++++++++-------
 grovedb/src/operations/proof/verify.rs    | 20 +++++++++---
 2 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/grovedb-bulk-append-tree/src/proof/mod.rs b/grovedb-bulk-append-tree/src/proof/mod.rs
index 7ee0a0d..a10938f 100644
--- a/grovedb-bulk-append-tree/src/proof/mod.rs
+++ b/grovedb-bulk-append-tree/src/proof/mod.rs
@@ -495,12 +495,7 @@ impl BulkAppendTreeProof {
         let mut values = Vec::new();
 
         for (chunk_idx, blob) in &result.chunk_blobs {
-            let entries = deserialize_chunk_blob(blob).map_err(|e| {
-                BulkAppendError::CorruptedData(format!(
-                    "failed to deserialize chunk blob {}: {}",
-                    chunk_idx, e
-                ))
-            })?;
+            let entries = chunk_entries(*chunk_idx, blob, chunk_item_count)?;
             let chunk_start = chunk_idx * chunk_item_count;
             for (i, value) in entries.into_iter().enumerate() {
                 let global_pos = chunk_start + i as u64;
@@ -546,6 +541,31 @@ impl BulkAppendTreeProof {
     }
 }
 
+/// Deserialize the blob of a completed chunk, which holds exactly
+/// `chunk_item_count` entries. A blob with more would claim positions beyond
+/// its chunk, and very many of them when its entries are empty.
+fn chunk_entries(
+    chunk_idx: u64,
+    blob: &[u8],
+    chunk_item_count: u64,
+) -> Result<Vec<Vec<u8>>, BulkAppendError> {
+    let entries = deserialize_chunk_blob(blob).map_err(|e| {
+        BulkAppendError::CorruptedData(format!(
+            "failed to deserialize chunk blob {}: {}",
+            chunk_idx, e
+        ))
+    })?;
+    if entries.len() as u64 != chunk_item_count {
+        return Err(BulkAppendError::CorruptedData(format!(
+            "chunk blob {} has {} entries, expected {}",
+            chunk_idx,
+            entries.len(),
+            chunk_item_count
+        )));
+    }
+    Ok(entries)
+}
+
 /// Result of a verified BulkAppendTree proof.
 #[derive(Debug, Clone)]
 pub struct BulkAppendTreeProofResult {
@@ -582,12 +602,7 @@ impl BulkAppendTreeProofResult {
 
         // Extract from chunk blobs
         for (chunk_idx, blob) in &self.chunk_blobs {
-            let values = deserialize_chunk_blob(blob).map_err(|e| {
-                BulkAppendError::CorruptedData(format!(
-                    "failed to deserialize chunk blob {}: {}",
-                    chunk_idx, e
-                ))
-            })?;
+            let values = chunk_entries(*chunk_idx, blob, chunk_item_count)?;
 
             let chunk_start = chunk_idx * chunk_item_count;
             for (i, value) in values.into_iter().enumerate() {
diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index e5e8e0c..1e70611 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -1053,7 +1053,7 @@ impl GroveDb {
             grovedb_bulk_append_tree::BulkAppendTreeProof::decode_from_slice(bulk_bytes)
                 .map_err(|e| Error::CorruptedData(format!("{}", e)))?;
 
-        let (bulk_state_root, proof_result) = bulk_proof
+        let (bulk_state_root, mut proof_result) = bulk_proof
             .verify_and_compute_root(element_height, element_total_count)
             .map_err(|e| Error::InvalidProof(query.clone(), format!("{}", e)))?;
 
@@ -1072,14 +1072,24 @@ impl GroveDb {
         let (start, end) = Self::extract_range_from_query_items(&sub_query.items)?;
         let end = end.min(proof_result.total_count);
 
-        let values = proof_result
-            .values_in_range(start, end)
-            .map_err(|e| Error::CorruptedData(format!("{}", e)))?;
-
         // Completeness: every position the query expects must be present in
         // the proof values. Build the expected set and check coverage.
         let expected_positions =
             Self::expand_query_to_u64_positions(&sub_query.items, element_total_count)?;
+
+        // Only chunks that hold an expected position are read: a few bytes can
+        // claim a chunk of very many empty values.
+        proof_result.chunk_blobs.retain(|(chunk_idx, _)| {
+            let chunk_start = chunk_idx << element_height;
+            expected_positions
+                .range(chunk_start..=chunk_start | ((1u64 << element_height) - 1))
+                .next()
+                .is_some()
+        });
+        let values = proof_result
+            .values_in_range(start, end)
+            .map_err(|e| Error::CorruptedData(format!("{}", e)))?;
+
         let proved_positions: BTreeSet<u64> = values.iter().map(|(pos, _)| *pos).collect();
         let missing: Vec<u64> = expected_positions
             .difference(&proved_positions)
-- 
2.43.0


From 6c7c66603e8a2583844805ffacfdfad943943937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 40/68] fix: terminal keys take the first conditional branch
 that matches a key

---
 grovedb-query/src/query.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grovedb-query/src/query.rs b/grovedb-query/src/query.rs
index bd6c4be..b2f2291 100644
--- a/grovedb-query/src/query.rs
+++ b/grovedb-query/src/query.rs
@@ -396,6 +396,11 @@ impl Query {
                     {
                         continue;
                     }
+                    // a range before this item also matches keys it does not enumerate
+                    let subquery_branch = conditional_subquery_branches
+                        .iter()
+                        .find(|(conditional_item, _)| conditional_item.contains(&key))
+                        .map_or(subquery_branch, |(_, branch)| branch);
                     let mut path = current_path.clone();
                     if let Some(subquery_path) = &subquery_branch.subquery_path {
                         if let Some(subquery) = &subquery_branch.subquery {
-- 
2.43.0


From c0f8f7c12f8345a475c98cc51371d91c5fcb80e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 41/68] fix: batches replacing flagged values without changing
 flags use the costs of the value given

---
 merk/src/tree/just_in_time_value_update.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/merk/src/tree/just_in_time_value_update.rs b/merk/src/tree/just_in_time_value_update.rs
index fd20267..3fd1133 100644
--- a/merk/src/tree/just_in_time_value_update.rs
+++ b/merk/src/tree/just_in_time_value_update.rs
@@ -50,6 +50,8 @@ impl TreeNode {
                 None
             };
 
+            let costs_assume_old_flags = new_value_with_old_flags.is_some();
+
             let (mut current_tree_plus_hook_size, mut storage_costs) = self
                 .kv_with_parent_hook_size_and_storage_cost_change_for_value(
                     old_specialized_cost,
@@ -71,6 +73,13 @@ impl TreeNode {
                     self.value_mut_ref(),
                 )?;
                 if !flags_changed {
+                    if costs_assume_old_flags && i == 0 {
+                        // the old flags were not taken over, so the costs are those of the value
+                        // as it was given
+                        storage_costs = self
+                            .kv_with_parent_hook_size_and_storage_cost(old_specialized_cost)?
+                            .1;
+                    }
                     break;
                 } else {
                     self.inner.kv.value_defined_cost = value_defined_cost;
-- 
2.43.0


From a1522e4f9aaf55615c41d41c33c0cd9b8f4239f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 42/68] fix: deleting a non-empty tree updates the opened
 parent tree, not one of the deleted tree's type

---
 grovedb/src/operations/delete/mod.rs | 29 ++++------------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/grovedb/src/operations/delete/mod.rs b/grovedb/src/operations/delete/mod.rs
index 7ea2184..7a148f1 100644
--- a/grovedb/src/operations/delete/mod.rs
+++ b/grovedb/src/operations/delete/mod.rs
@@ -32,7 +32,7 @@ use grovedb_costs::{
     CostResult, CostsExt, OperationCost,
 };
 use grovedb_merk::element::{
-    costs::ElementCostExtensions, decode::ElementDecodeExtensions,
+    decode::ElementDecodeExtensions,
     delete::ElementDeleteFromStorageExtensions, tree_type::ElementTreeTypeExtensions,
 };
 #[cfg(feature = "minimal")]
@@ -747,7 +747,7 @@ impl GroveDb {
             )
         );
         let uses_sum_tree = subtree_to_delete_from.tree_type;
-        if let Some(tree_type) = element.tree_type() {
+        if element.is_any_tree() {
             let subtree_merk_path = path.derive_owned_with_child(key);
             let subtree_merk_path_ref = SubtreePath::from(&subtree_merk_path);
 
@@ -838,32 +838,11 @@ impl GroveDb {
                         );
                     }
                 }
-                // todo: verify why we need to open the same? merk again
-                let storage = self
-                    .db
-                    .get_transactional_storage_context(path.clone(), Some(batch), transaction)
-                    .unwrap_add_cost(&mut cost);
-
-                let mut merk_to_delete_tree_from = cost_return_on_error!(
-                    &mut cost,
-                    Merk::open_layered_with_root_key(
-                        storage,
-                        subtree_to_delete_from.root_key(),
-                        tree_type,
-                        Some(&Element::value_defined_cost_for_serialized_value),
-                        grove_version,
-                    )
-                    .map_err(|e| {
-                        Error::CorruptedData(format!(
-                            "cannot open a subtree with given root key: {e}"
-                        ))
-                    })
-                );
                 // We are deleting a tree, a tree uses 3 bytes
                 cost_return_on_error_into!(
                     &mut cost,
                     Element::delete_with_sectioned_removal_bytes(
-                        &mut merk_to_delete_tree_from,
+                        &mut subtree_to_delete_from,
                         key,
                         Some(options.as_merk_options()),
                         true,
@@ -876,7 +855,7 @@ impl GroveDb {
                     SubtreePath<B>,
                     Merk<PrefixedRocksDbTransactionContext>,
                 > = HashMap::default();
-                merk_cache.insert(path.clone(), merk_to_delete_tree_from);
+                merk_cache.insert(path.clone(), subtree_to_delete_from);
                 cost_return_on_error!(
                     &mut cost,
                     self.propagate_changes_with_batch_transaction(
-- 
2.43.0


From 9988505006ef22f32aa87f08d6c5586c0b668057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 43/68] fix: a tree holding a non-empty append-only tree can be
 deleted

---
 grovedb/src/operations/auxiliary.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/operations/auxiliary.rs b/grovedb/src/operations/auxiliary.rs
index 63512c5..fdd18f2 100644
--- a/grovedb/src/operations/auxiliary.rs
+++ b/grovedb/src/operations/auxiliary.rs
@@ -186,7 +186,10 @@ impl GroveDb {
                 if value.is_any_tree() {
                     let mut sub_path = q.clone();
                     sub_path.push(key.to_vec());
-                    queue.push(sub_path.clone());
+                    // append-only trees hold no elements, so nothing is below them
+                    if !value.uses_non_merk_data_storage() {
+                        queue.push(sub_path.clone());
+                    }
                     result.push(sub_path);
                 }
             }
-- 
2.43.0


From 1701682b3fd13edf482cbbb414d6d5d0fe9c9f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 44/68] fix: direct queries with limit 0 return nothing

---
 grovedb/src/element/query.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/grovedb/src/element/query.rs b/grovedb/src/element/query.rs
index 1584abd..062b548 100644
--- a/grovedb/src/element/query.rs
+++ b/grovedb/src/element/query.rs
@@ -211,6 +211,9 @@ impl ElementQueryExtensions for Element {
 
         if sized_query.query.left_to_right {
             for item in sized_query.query.iter() {
+                if limit == Some(0) {
+                    break;
+                }
                 cost_return_on_error!(
                     &mut cost,
                     Self::query_item(
@@ -228,12 +231,12 @@ impl ElementQueryExtensions for Element {
                         grove_version,
                     )
                 );
-                if limit == Some(0) {
-                    break;
-                }
             }
         } else {
             for item in sized_query.query.rev_iter() {
+                if limit == Some(0) {
+                    break;
+                }
                 cost_return_on_error!(
                     &mut cost,
                     Self::query_item(
@@ -251,9 +254,6 @@ impl ElementQueryExtensions for Element {
                         grove_version,
                     )
                 );
-                if limit == Some(0) {
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From 28a5ebb3e393f337534e91edf5db44c0e87db03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 45/68] fix: refreshing a reference keeps its count in count
 trees

---
 grovedb/src/batch/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index f01baaf..668c017 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -2087,7 +2087,12 @@ where
                         .wrap_with_cost(cost);
                     };
 
-                    let merk_feature_type = in_tree_type.empty_tree_feature_type();
+                    let merk_feature_type = cost_return_on_error_into!(
+                        &mut cost,
+                        element
+                            .get_feature_type(in_tree_type)
+                            .wrap_with_cost(OperationCost::default())
+                    );
 
                     let path_reference = cost_return_on_error_into!(
                         &mut cost,
-- 
2.43.0


From eb0399099655244a7fbedc2721c4f15103afbb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 46/68] fix: clearing an append-only tree resets its element in
 the parent tree

---
 grovedb/src/operations/delete/mod.rs | 81 ++++++++++++++++++++++++++--
 1 file changed, 78 insertions(+), 3 deletions(-)

diff --git a/grovedb/src/operations/delete/mod.rs b/grovedb/src/operations/delete/mod.rs
index 7a148f1..a4101cd 100644
--- a/grovedb/src/operations/delete/mod.rs
+++ b/grovedb/src/operations/delete/mod.rs
@@ -32,11 +32,15 @@ use grovedb_costs::{
     CostResult, CostsExt, OperationCost,
 };
 use grovedb_merk::element::{
-    decode::ElementDecodeExtensions,
-    delete::ElementDeleteFromStorageExtensions, tree_type::ElementTreeTypeExtensions,
+    decode::ElementDecodeExtensions, delete::ElementDeleteFromStorageExtensions,
+    tree_type::ElementTreeTypeExtensions,
 };
 #[cfg(feature = "minimal")]
-use grovedb_merk::{proofs::Query, KVIterator, MaybeTree};
+use grovedb_merk::element::{
+    get::ElementFetchFromStorageExtensions, insert::ElementInsertToStorageExtensions,
+};
+#[cfg(feature = "minimal")]
+use grovedb_merk::{proofs::Query, tree::NULL_HASH, KVIterator, MaybeTree};
 #[cfg(feature = "minimal")]
 use grovedb_merk::{Error as MerkError, Merk, MerkOptions};
 use grovedb_path::SubtreePath;
@@ -268,6 +272,77 @@ impl GroveDb {
                     .map_err(Into::into)
             );
 
+            // The parent element holds the entry count and commits to the
+            // contents, so it goes back to what it is for an empty tree.
+            let Some((parent_path, parent_key)) = subtree_path.derive_parent() else {
+                return Err(Error::CorruptedData(
+                    "a non-merk tree can not be the root tree".to_owned(),
+                ))
+                .wrap_with_cost(cost);
+            };
+            let batch = StorageBatch::new();
+            let mut parent_merk = cost_return_on_error!(
+                &mut cost,
+                self.open_transactional_merk_at_path(
+                    parent_path.clone(),
+                    tx.as_ref(),
+                    Some(&batch),
+                    grove_version,
+                )
+            );
+            let element = cost_return_on_error_into!(
+                &mut cost,
+                Element::get(&parent_merk, parent_key, true, grove_version)
+            );
+            let (emptied_element, empty_root) = match element {
+                Element::MmrTree(_, flags) => (Element::new_mmr_tree(0, flags), NULL_HASH),
+                Element::BulkAppendTree(_, chunk_power, flags) => {
+                    (Element::BulkAppendTree(0, chunk_power, flags), NULL_HASH)
+                }
+                Element::DenseAppendOnlyFixedSizeTree(_, height, flags) => {
+                    (Element::new_dense_tree(0, height, flags), NULL_HASH)
+                }
+                Element::CommitmentTree(_, chunk_power, flags) => (
+                    Element::CommitmentTree(0, chunk_power, flags),
+                    grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT,
+                ),
+                _ => {
+                    return Err(Error::CorruptedData(
+                        "element of a non-merk tree is not a non-merk tree".to_owned(),
+                    ))
+                    .wrap_with_cost(cost);
+                }
+            };
+            cost_return_on_error_into!(
+                &mut cost,
+                emptied_element.insert_subtree(
+                    &mut parent_merk,
+                    parent_key,
+                    empty_root,
+                    None,
+                    grove_version,
+                )
+            );
+            let mut merk_cache: HashMap<SubtreePath<B>, Merk<PrefixedRocksDbTransactionContext>> =
+                HashMap::default();
+            merk_cache.insert(parent_path.clone(), parent_merk);
+            cost_return_on_error!(
+                &mut cost,
+                self.propagate_changes_with_transaction(
+                    merk_cache,
+                    parent_path,
+                    tx.as_ref(),
+                    &batch,
+                    grove_version,
+                )
+            );
+            cost_return_on_error!(
+                &mut cost,
+                self.db
+                    .commit_multi_context_batch(batch, Some(tx.as_ref()))
+                    .map_err(Into::into)
+            );
+
             return tx.commit_local().map(|_| true).wrap_with_cost(cost);
         }
 
-- 
2.43.0


From b61425a2695db5873ca41395bcfc173c1a54c084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 47/68] fix: batches inserting a commitment tree honor
 insert-if-not-exists and override validation

---
 grovedb/src/batch/mod.rs | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 668c017..aafb6be 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1934,7 +1934,8 @@ where
                         | Element::ProvableCountSumTree(..)
                         | Element::MmrTree(..)
                         | Element::BulkAppendTree(..)
-                        | Element::DenseAppendOnlyFixedSizeTree(..) => {
+                        | Element::DenseAppendOnlyFixedSizeTree(..)
+                        | Element::CommitmentTree(..) => {
                             // Check existence for InsertIfNotExists on subtrees
                             if is_insert_if_not_exists
                                 || batch_apply_options.validate_insertion_does_not_override
@@ -1967,30 +1968,17 @@ where
                                     .get_feature_type(in_tree_type)
                                     .wrap_with_cost(OperationCost::default())
                             );
+                            let empty_root_hash = match &element {
+                                Element::CommitmentTree(..) => {
+                                    grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT
+                                }
+                                _ => NULL_HASH,
+                            };
                             cost_return_on_error_into!(
                                 &mut cost,
                                 element.insert_subtree_into_batch_operations(
                                     key_info.get_key_clone(),
-                                    NULL_HASH,
-                                    false,
-                                    &mut batch_operations,
-                                    merk_feature_type,
-                                    grove_version,
-                                )
-                            );
-                        }
-                        Element::CommitmentTree(..) => {
-                            let merk_feature_type = cost_return_on_error_into!(
-                                &mut cost,
-                                element
-                                    .get_feature_type(in_tree_type)
-                                    .wrap_with_cost(OperationCost::default())
-                            );
-                            cost_return_on_error_into!(
-                                &mut cost,
-                                element.insert_subtree_into_batch_operations(
-                                    key_info.get_key_clone(),
-                                    grovedb_commitment_tree::EMPTY_COMMITMENT_TREE_STATE_ROOT,
+                                    empty_root_hash,
                                     false,
                                     &mut batch_operations,
                                     merk_feature_type,
-- 
2.43.0


From 8578fce618f1fb8bcf8a5c330cabe2e6488359ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 48/68] fix: references to what a batch skips inserting record
 the hash of the existing element

---
 grovedb/src/batch/mod.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index aafb6be..c92552b 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1524,7 +1524,28 @@ where
 
         // However the operation might either be merged or unmerged, if it is unmerged
         // we need to merge it with the state first
-        if let Some(op) = ops_by_qualified_paths.get(qualified_path) {
+        let mut pending_op = ops_by_qualified_paths.get(qualified_path);
+
+        // An insertion that is skipped because the element already exists doesn't
+        // change what is referenced
+        if let (
+            Some(GroveOp::InsertIfNotExists {
+                error_if_exists: false,
+                ..
+            }),
+            Some((key, reference_path)),
+        ) = (pending_op, qualified_path.split_last())
+        {
+            let existing_element = cost_return_on_error!(
+                &mut cost,
+                self.get_and_deserialize_referenced_element(key, reference_path, grove_version)
+            );
+            if existing_element.is_some() {
+                pending_op = None;
+            }
+        }
+
+        if let Some(op) = pending_op {
             // the path is being modified, inserted or deleted in the batch of operations
             match op {
                 GroveOp::ReplaceTreeRootKey { .. }
-- 
2.43.0


From 72c0692b9e2274beb5d3379292d703562eb055ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 49/68] fix: batches putting a reference on a tree honor the
 tree override validation

---
 grovedb/src/batch/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index c92552b..66d8f9e 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1834,10 +1834,8 @@ where
                         _ => unreachable!(),
                     };
 
-                    // Check tree-override protection for all non-reference elements.
-                    if batch_apply_options.validate_insertion_does_not_override_tree
-                        && !matches!(&element, Element::Reference(..))
-                    {
+                    // Check tree-override protection
+                    if batch_apply_options.validate_insertion_does_not_override_tree {
                         let merk = self.merks.get_mut(path).expect("the Merk is cached");
                         let maybe_existing = cost_return_on_error_into!(
                             &mut cost,
-- 
2.43.0


From 71a0e89b8c9af8cdc836e930c2380a9199f85918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 50/68] fix: partial batches resolve references and trees
 written before the pause

---
 grovedb/src/batch/batch_structure.rs | 27 ++++++++++++++++++++++++++-
 grovedb/src/batch/mod.rs             | 13 +++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/batch/batch_structure.rs b/grovedb/src/batch/batch_structure.rs
index 850d337..ec80442 100644
--- a/grovedb/src/batch/batch_structure.rs
+++ b/grovedb/src/batch/batch_structure.rs
@@ -93,6 +93,7 @@ where
     ) -> CostResult<BatchStructure<C, F, SR>, Error> {
         Self::continue_from_ops(
             None,
+            BTreeMap::new(),
             ops,
             update_element_flags_function,
             split_remove_bytes_function,
@@ -103,6 +104,7 @@ where
     /// Create batch structure from a list of ops. Returns CostResult.
     pub(super) fn continue_from_ops(
         previous_ops: Option<OpsByLevelPath>,
+        previous_ops_by_qualified_paths: BTreeMap<Vec<Vec<u8>>, GroveOp>,
         ops: Vec<QualifiedGroveDbOp>,
         update_element_flags_function: F,
         split_remove_bytes_function: SR,
@@ -115,7 +117,30 @@ where
             ops_by_level_paths.iter().map(|(k, _)| k).max().unwrap_or(0);
 
         // qualified paths meaning path + key
-        let mut ops_by_qualified_paths: BTreeMap<Vec<Vec<u8>>, GroveOp> = BTreeMap::new();
+        let mut ops_by_qualified_paths = previous_ops_by_qualified_paths;
+
+        // What was applied before a pause is still pending, so its trees can't be
+        // opened from storage (the cost of opening them has been counted then)
+        let mut counted_cost = OperationCost::default();
+        for (qualified_path, grove_op) in ops_by_qualified_paths.iter() {
+            if let GroveOp::InsertWithKnownToNotAlreadyExist { element }
+            | GroveOp::InsertIfNotExists { element, .. }
+            | GroveOp::InsertOrReplace { element }
+            | GroveOp::Replace { element }
+            | GroveOp::Patch { element, .. } = grove_op
+                && let Some(tree_type) = element.tree_type()
+                && let Some((key, path)) = qualified_path.split_last()
+            {
+                cost_return_on_error!(
+                    &mut counted_cost,
+                    merk_tree_cache.insert(
+                        &KeyInfoPath::from_known_path(path.iter().map(|k| k.as_slice())),
+                        &KeyInfo::KnownKey(key.clone()),
+                        tree_type
+                    )
+                );
+            }
+        }
 
         for op in ops.into_iter() {
             let QualifiedGroveDbOp {
diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 66d8f9e..7d14644 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -2899,6 +2899,7 @@ impl GroveDb {
     fn continue_partial_apply_body<'db, S: StorageContext<'db>>(
         &self,
         previous_leftover_operations: Option<OpsByLevelPath>,
+        previous_ops_by_qualified_paths: BTreeMap<Vec<Vec<u8>>, GroveOp>,
         additional_ops: Vec<QualifiedGroveDbOp>,
         batch_apply_options: Option<BatchApplyOptions>,
         update_element_flags_function: impl FnMut(
@@ -2929,6 +2930,7 @@ impl GroveDb {
             &mut cost,
             BatchStructure::continue_from_ops(
                 previous_leftover_operations,
+                previous_ops_by_qualified_paths,
                 additional_ops,
                 update_element_flags_function,
                 split_removed_bytes_function,
@@ -3991,6 +3993,16 @@ impl GroveDb {
             batch_apply_options.batch_pause_height = Some(1);
         }
 
+        // references in the part after the pause may lead to what the first part changes
+        let ops_by_qualified_paths: BTreeMap<Vec<Vec<u8>>, GroveOp> = ops
+            .iter()
+            .filter_map(|op| {
+                let mut qualified_path = op.path.to_path();
+                qualified_path.push(op.key.as_ref()?.get_key_clone());
+                Some((qualified_path, op.op.clone()))
+            })
+            .collect();
+
         // With the only one difference (if there is a transaction) do the following:
         // 2. If nothing left to do and we were on a non-leaf subtree or we're done with
         //    one subtree and moved to another then add propagation operation to the
@@ -4078,6 +4090,7 @@ impl GroveDb {
             &mut cost,
             self.continue_partial_apply_body(
                 left_over_operations,
+                ops_by_qualified_paths,
                 new_operations,
                 Some(batch_apply_options),
                 update_element_flags_function,
-- 
2.43.0


From 56923d79d5483d2b59843281fced7603bdf13486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 51/68] fix: references record the hash of flagged sum items
 replaced in the same batch

---
 .../batch/just_in_time_reference_update.rs    | 82 +++++++++----------
 1 file changed, 39 insertions(+), 43 deletions(-)

diff --git a/grovedb/src/batch/just_in_time_reference_update.rs b/grovedb/src/batch/just_in_time_reference_update.rs
index 2ffff27..ca4e760 100644
--- a/grovedb/src/batch/just_in_time_reference_update.rs
+++ b/grovedb/src/batch/just_in_time_reference_update.rs
@@ -9,6 +9,7 @@ use grovedb_costs::{
     CostResult, CostsExt, OperationCost,
 };
 use grovedb_merk::{
+    element::costs::ElementCostExtensions,
     tree::{kv::KV, value_hash, TreeNode},
     tree_type::TreeType,
     CryptoHash, Merk,
@@ -46,50 +47,51 @@ where
         ) -> Result<(StorageRemovedBytes, StorageRemovedBytes), Error>,
     {
         let mut cost = OperationCost::default();
-        if old_element.is_sum_item() {
-            return if new_element.is_sum_item() {
-                let maybe_old_flags = old_element.get_flags_owned();
-                if maybe_old_flags.is_some() {
-                    let mut updated_new_element_with_old_flags = new_element.clone();
-                    updated_new_element_with_old_flags.set_flags(maybe_old_flags.clone());
-                    // There are no storage flags, we can just hash new element
-                    let new_serialized_bytes = cost_return_on_error_into_no_add!(
-                        cost,
-                        updated_new_element_with_old_flags.serialize(grove_version)
-                    );
-                    let val_hash = value_hash(&new_serialized_bytes).unwrap_add_cost(&mut cost);
-                    Ok(val_hash).wrap_with_cost(cost)
-                } else {
-                    let val_hash = value_hash(serialized).unwrap_add_cost(&mut cost);
-                    Ok(val_hash).wrap_with_cost(cost)
-                }
-            } else {
-                Err(Error::NotSupported(
-                    "going from a sum item to a not sum item is not supported".to_string(),
-                ))
-                .wrap_with_cost(cost)
-            };
-        } else if new_element.is_sum_item() {
+        let is_sum_item = new_element.is_sum_item();
+        if old_element.is_sum_item() && !is_sum_item {
+            return Err(Error::NotSupported(
+                "going from a sum item to a not sum item is not supported".to_string(),
+            ))
+            .wrap_with_cost(cost);
+        } else if is_sum_item && !old_element.is_sum_item() {
             return Err(Error::NotSupported(
                 "going from an item to a sum item is not supported".to_string(),
             ))
             .wrap_with_cost(cost);
         }
+
+        // sum items have a specialized cost
+        let storage_cost_for_serialized = |serialized: &[u8]| {
+            if is_sum_item {
+                Element::specialized_costs_for_key_value(
+                    key,
+                    serialized,
+                    in_tree_type.inner_node_type(),
+                    grove_version,
+                )
+            } else {
+                Ok(KV::node_value_byte_cost_size(
+                    key.len() as u32,
+                    serialized.len() as u32,
+                    in_tree_type.inner_node_type(),
+                ))
+            }
+        };
+
         let mut maybe_old_flags = old_element.get_flags_owned();
 
-        let old_storage_cost = KV::node_value_byte_cost_size(
-            key.len() as u32,
-            old_serialized_element.len() as u32,
-            in_tree_type.inner_node_type(),
+        let old_storage_cost = cost_return_on_error_into_no_add!(
+            cost,
+            storage_cost_for_serialized(old_serialized_element)
         );
 
         let original_new_element = new_element.clone();
 
         let mut serialization_to_use = Cow::Borrowed(serialized);
 
-        let mut new_storage_cost = if maybe_old_flags.is_some() {
+        let mut new_storage_cost = if maybe_old_flags.is_some() && !is_sum_item {
             // we need to get the new storage_cost as if it had the same storage flags as
-            // before
+            // before (as on insertion, where sum items are left out)
             let mut updated_new_element_with_old_flags = original_new_element.clone();
             updated_new_element_with_old_flags.set_flags(maybe_old_flags.clone());
 
@@ -97,17 +99,12 @@ where
                 cost,
                 updated_new_element_with_old_flags.serialize(grove_version)
             );
-            KV::node_value_byte_cost_size(
-                key.len() as u32,
-                serialized_with_old_flags.len() as u32,
-                in_tree_type.inner_node_type(),
+            cost_return_on_error_into_no_add!(
+                cost,
+                storage_cost_for_serialized(&serialized_with_old_flags)
             )
         } else {
-            KV::node_value_byte_cost_size(
-                key.len() as u32,
-                serialized.len() as u32,
-                in_tree_type.inner_node_type(),
-            )
+            cost_return_on_error_into_no_add!(cost, storage_cost_for_serialized(serialized))
         };
 
         let mut i = 0;
@@ -163,10 +160,9 @@ where
                     new_element_cloned.serialize(grove_version)
                 );
 
-                new_storage_cost = KV::node_value_byte_cost_size(
-                    key.len() as u32,
-                    new_serialized_bytes.len() as u32,
-                    in_tree_type.inner_node_type(),
+                new_storage_cost = cost_return_on_error_into_no_add!(
+                    cost,
+                    storage_cost_for_serialized(&new_serialized_bytes)
                 );
 
                 if serialization_to_use == new_serialized_bytes {
-- 
2.43.0


From 5ad6ec87d82c2caf6507a266f4606c0e00145cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 52/68] fix: storage errors while opening a subtree are not
 taken for a missing subtree

---
 grovedb/src/util/compat.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/grovedb/src/util/compat.rs b/grovedb/src/util/compat.rs
index 8312c67..c4a738d 100644
--- a/grovedb/src/util/compat.rs
+++ b/grovedb/src/util/compat.rs
@@ -4,7 +4,7 @@ use grovedb_merk::{
         costs::ElementCostExtensions, get::ElementFetchFromStorageExtensions,
         tree_type::ElementTreeTypeExtensions,
     },
-    Merk, TreeType,
+    Error as MerkError, Merk, TreeType,
 };
 use grovedb_path::SubtreePath;
 use grovedb_storage::{
@@ -48,8 +48,15 @@ where
             .unwrap_add_cost(&mut cost);
         let element = cost_return_on_error!(
             &mut cost,
-            Element::get_from_storage(&parent_storage, parent_key, grove_version)
-                .map_err(|e| C::parent_key_not_found(e.into(), parent_path, parent_key))
+            Element::get_from_storage(&parent_storage, parent_key, grove_version).map_err(|e| {
+                match e {
+                    // other errors, like those of the storage, don't mean that it's missing
+                    MerkError::PathKeyNotFound(_) => {
+                        C::parent_key_not_found(e.into(), parent_path, parent_key)
+                    }
+                    e => e.into(),
+                }
+            })
         );
         if let Some((root_key, tree_type)) = element.root_key_and_tree_type_owned() {
             Merk::open_layered_with_root_key(
-- 
2.43.0


From 1feddf649547d077a77282c8565095e3feb0a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 53/68] fix: restored trees sum and count what their elements
 say

Chunk proofs do not carry what a node adds to the aggregates of its tree:
sums and counts were lost when a sum or count tree was synced, and provable
count trees, whose nodes arrive with the count of their whole subtree, were
refused unless very small. Finalizing now derives both from the elements.
---
 merk/src/merk/restore.rs | 103 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 102 insertions(+), 1 deletion(-)

diff --git a/merk/src/merk/restore.rs b/merk/src/merk/restore.rs
index 576ef08..73a1197 100644
--- a/merk/src/merk/restore.rs
+++ b/merk/src/merk/restore.rs
@@ -31,10 +31,12 @@
 
 use std::collections::BTreeMap;
 
+use grovedb_element::Element;
 use grovedb_storage::{Batch, StorageContext};
 use grovedb_version::version::GroveVersion;
 
 use crate::{
+    element::tree_type::ElementTreeTypeExtensions,
     merk,
     merk::MerkSource,
     proofs::{
@@ -47,7 +49,9 @@ use crate::{
         tree::{execute, Child, Tree as ProofTree},
         Node, Op,
     },
-    tree::{combine_hash, kv::ValueDefinedCostType, value_hash, RefWalker, TreeNode},
+    tree::{
+        combine_hash, kv::ValueDefinedCostType, value_hash, AggregateData, RefWalker, TreeNode,
+    },
     tree_type::TreeType,
     CryptoHash, Error,
     Error::{CostsError, StorageError},
@@ -564,6 +568,98 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
             .map_err(StorageError)
     }
 
+    /// Recomputes the feature types of all nodes and the aggregate data of all
+    /// links bottom-up from the stored elements.
+    ///
+    /// Chunk proofs do not carry what a node contributes to the sums and
+    /// counts of its tree: nodes either hold no feature type at all, or the
+    /// count of their whole subtree as that is what node hashes commit to.
+    /// Every contribution follows from the element itself though. Values that
+    /// are not elements keep what the chunk said. Called by `finalize()` for
+    /// trees that aggregate.
+    fn rewrite_aggregates(&mut self, grove_version: &GroveVersion) -> Result<(), Error> {
+        fn rewrite_node<'s, 'db, S: StorageContext<'db>>(
+            mut walker: RefWalker<MerkSource<'s, S>>,
+            tree_type: TreeType,
+            batch: &mut <S as StorageContext<'db>>::Batch,
+            grove_version: &GroveVersion,
+        ) -> Result<AggregateData, Error> {
+            let node = walker.tree();
+            let feature_type = match Element::deserialize(node.value_as_slice(), grove_version) {
+                Ok(element) => element.get_feature_type(tree_type)?,
+                Err(_) => node.feature_type(),
+            };
+            let mut rewritten = TreeNode::new_with_value_hash(
+                node.key().to_vec(),
+                node.value_as_slice().to_vec(),
+                *node.value_hash(),
+                feature_type,
+            )
+            .unwrap();
+
+            // links as stored
+            let mut stored = TreeNode::decode(
+                node.key().to_vec(),
+                node.encode().as_slice(),
+                None::<&fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>>,
+                grove_version,
+            )
+            .map_err(|_| {
+                Error::CorruptedState("failed to decode tree node during aggregate rewrite")
+            })?;
+
+            for side in [LEFT, RIGHT] {
+                let mut link = stored.slot_mut(side).take();
+                if let Some(Link::Reference { aggregate_data, .. }) = &mut link {
+                    let child = walker
+                        .walk(
+                            side,
+                            None::<&fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>>,
+                            grove_version,
+                        )
+                        .value?
+                        .ok_or(Error::CorruptedState("expected child to exist behind link"))?;
+                    *aggregate_data = rewrite_node(child, tree_type, batch, grove_version)?;
+                }
+                *rewritten.slot_mut(side) = link;
+            }
+
+            batch
+                .put(rewritten.key(), &rewritten.encode(), None, None)
+                .map_err(CostsError)?;
+
+            rewritten.aggregate_data()
+        }
+
+        let mut batch = self.merk.storage.new_batch();
+        let Some(mut tree) = self.merk.tree.take() else {
+            return Ok(());
+        };
+        let walker = RefWalker::new(&mut tree, self.merk.source());
+        rewrite_node(walker, self.merk.tree_type, &mut batch, grove_version)?;
+        self.merk.tree.set(Some(tree));
+
+        // costs intentionally discarded — restorer does not track them
+        self.merk
+            .storage
+            .commit_batch(batch)
+            .value
+            .map_err(StorageError)?;
+
+        // the loaded nodes still hold what the chunks said
+        self.merk
+            .load_base_root(
+                None::<&fn(&[u8], &GroveVersion) -> Option<ValueDefinedCostType>>,
+                grove_version,
+            )
+            .value
+            .map_err(|_| {
+                Error::ChunkRestoringError(ChunkError::InternalError(
+                    "failed to reload base root after aggregate rewrite",
+                ))
+            })
+    }
+
     /// Rebuild restoration state from partial storage state
     #[allow(dead_code)]
     fn attempt_state_recovery(&mut self, grove_version: &GroveVersion) -> Result<(), Error> {
@@ -625,6 +721,11 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                 })?;
         }
 
+        // Chunks do not say what nodes add to the aggregates of their tree.
+        if self.merk.tree_type != TreeType::NormalTree {
+            self.rewrite_aggregates(grove_version)?;
+        }
+
         if !self
             .merk
             .verify(self.merk.tree_type != TreeType::NormalTree, grove_version)
-- 
2.43.0


From bd74f81bf99b6f67978445501ff44a2e7425765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 54/68] fix: subtrees whose root key is the empty key can be
 synced

Global chunk ids encoded an empty root key like no root key at all.
---
 grovedb/src/replication.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/grovedb/src/replication.rs b/grovedb/src/replication.rs
index 69e1317..5990180 100644
--- a/grovedb/src/replication.rs
+++ b/grovedb/src/replication.rs
@@ -276,6 +276,10 @@ pub(crate) mod utils {
 
     use crate::{replication::ChunkIdentifier, Error};
 
+    /// Stands for the length of an empty root key in global chunk ids, as a
+    /// length of zero means that there is no root key. No key is this long.
+    const EMPTY_ROOT_KEY_LEN: u16 = u16::MAX;
+
     /// Converts a path, represented as a slice of byte vectors (`&[Vec<u8>]`),
     /// into a human-readable string representation for debugging purposes.
     ///
@@ -363,8 +367,13 @@ pub(crate) mod utils {
             ));
         }
         let (root_key_size_bytes, remaining) = remaining.split_at(root_key_size_length);
-        let root_key_len =
-            u16::from_be_bytes([root_key_size_bytes[0], root_key_size_bytes[1]]) as usize;
+        let root_key_len = u16::from_be_bytes([root_key_size_bytes[0], root_key_size_bytes[1]]);
+        let has_root_key = root_key_len != 0;
+        let root_key_len = if root_key_len == EMPTY_ROOT_KEY_LEN {
+            0
+        } else {
+            root_key_len as usize
+        };
         if remaining.len() < root_key_len {
             return Err(Error::CorruptedData(
                 "unable to decode root key".to_string(),
@@ -386,7 +395,7 @@ pub(crate) mod utils {
             .try_into()
             .map_err(|e| Error::CorruptedData(format!("unable to construct subtree: {e}")))?;
 
-        if !root_key.is_empty() {
+        if has_root_key {
             Ok((
                 subtree_prefix,
                 Some(root_key.to_vec()),
@@ -426,10 +435,13 @@ pub(crate) mod utils {
         res.extend(subtree_prefix);
 
         if let Some(root_key) = root_key_opt {
-            let key_len: u16 = root_key
-                .len()
-                .try_into()
-                .map_err(|e| Error::InternalError(format!("root_key length exceeds u16: {e}")))?;
+            let key_len: u16 = if root_key.is_empty() {
+                EMPTY_ROOT_KEY_LEN
+            } else {
+                root_key.len().try_into().map_err(|e| {
+                    Error::InternalError(format!("root_key length exceeds u16: {e}"))
+                })?
+            };
             res.extend_from_slice(&key_len.to_be_bytes());
             res.extend(root_key);
         } else {
-- 
2.43.0


From a032844434a545c437d6e0a6a03667527553963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 55/68] fix: state sync checks the element of an empty subtree
 against its hash

No chunk is processed for an empty subtree, so nothing tied its element,
which a chunk of the parent carries apart from its hash, to that hash.
---
 grovedb/src/replication/state_sync_session.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/grovedb/src/replication/state_sync_session.rs b/grovedb/src/replication/state_sync_session.rs
index 2e75a75..fa74b27 100644
--- a/grovedb/src/replication/state_sync_session.rs
+++ b/grovedb/src/replication/state_sync_session.rs
@@ -7,7 +7,7 @@ use std::{
 };
 
 use grovedb_merk::{
-    tree::{kv::ValueDefinedCostType, value_hash},
+    tree::{combine_hash, kv::ValueDefinedCostType, value_hash},
     tree_type::TreeType,
     CryptoHash, Restorer,
 };
@@ -39,6 +39,11 @@ struct SubtreeStateSyncInfo<'db> {
     /// Current Chunk restorer
     restorer: Restorer<PrefixedRocksDbImmediateStorageContext<'db>>,
 
+    /// Hash of the parent's element, and the value hash the parent records for
+    /// it, which combines that with the root hash of this subtree.
+    /// `None` for the root.
+    element_hashes: Option<(CryptoHash, CryptoHash)>,
+
     /// Set of global chunk ids requested to be fetched and pending for
     /// processing. For the description of global chunk id check
     /// fetch_chunk().
@@ -139,6 +144,7 @@ impl<'tx> SubtreeStateSyncInfo<'tx> {
     pub fn new(restorer: Restorer<PrefixedRocksDbImmediateStorageContext<'tx>>) -> Self {
         SubtreeStateSyncInfo {
             restorer,
+            element_hashes: None,
             root_key: None,
             tree_type: TreeType::NormalTree,
             pending_chunks: Default::default(),
@@ -349,6 +355,7 @@ impl<'db> MultiStateSyncSession<'db> {
         {
             let restorer = Restorer::new(merk, hash, actual_hash);
             let mut sync_info = SubtreeStateSyncInfo::new(restorer);
+            sync_info.element_hashes = actual_hash.map(|actual_hash| (actual_hash, hash));
             sync_info.pending_chunks.insert(vec![]);
             sync_info.root_key = root_key.clone();
             sync_info.tree_type = tree_type;
@@ -543,6 +550,14 @@ impl<'db> MultiStateSyncSession<'db> {
                                 "empty subtree has non-null root hash".to_string(),
                             ));
                         }
+                        // No chunk ties the element to the hash its parent records.
+                        if let Some((actual_hash, hash)) = prefix_data.element_hashes {
+                            if combine_hash(&actual_hash, &merk_root).unwrap() != hash {
+                                return Err(Error::InternalError(
+                                    "empty subtree doesn't match its element's hash".to_string(),
+                                ));
+                            }
+                        }
                     } else if let Err(err) = prefix_data.restorer.finalize(grove_version) {
                         return Err(Error::InternalError(format!(
                             "Unable to finalize Merk: {:?}",
-- 
2.43.0


From ff46f62f24ec4bfcd84f257627c0d6d312b0fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:45 +0000
Subject: [PATCH 56/68] fix: chunks with an item in place of a tree or
 reference are refused

Chunks carry trees and references apart from their value hash; an item sent
that way was taken without comparing its own hash.
---
 merk/src/merk/restore.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/merk/src/merk/restore.rs b/merk/src/merk/restore.rs
index 73a1197..922a0a4 100644
--- a/merk/src/merk/restore.rs
+++ b/merk/src/merk/restore.rs
@@ -31,7 +31,7 @@
 
 use std::collections::BTreeMap;
 
-use grovedb_element::Element;
+use grovedb_element::{Element, ElementType};
 use grovedb_storage::{Batch, StorageContext};
 use grovedb_version::version::GroveVersion;
 
@@ -232,6 +232,20 @@ impl<'db, S: StorageContext<'db>> Restorer<S> {
                     | Node::KVValueHash(..)
                     | Node::KVCount(..)
             ) {
+                // Items are hashed as they are: a hash sent along that is not
+                // theirs is that of the tree or reference they stand in for.
+                if let Node::KVValueHashFeatureType(_, value, hash, _)
+                | Node::KVValueHash(_, value, hash) = node
+                {
+                    if ElementType::from_serialized_value(value)
+                        .is_ok_and(|element_type| element_type.has_simple_value_hash())
+                        && value_hash(value).unwrap() != *hash
+                    {
+                        return Err(Error::ChunkRestoringError(ChunkError::InvalidChunkProof(
+                            "item doesn't match its value hash",
+                        )));
+                    }
+                }
                 kv_count += 1;
                 Ok(())
             } else if matches!(node, Node::Hash(..)) {
-- 
2.43.0


From 9ea310df41d6eb78f3ade4b01fea5e6fb9b58179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 57/68] fix: the limit of a proof counts the positions queried
 of a bulk append tree

---
 grovedb/src/operations/proof/generate.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 0068527..8236a17 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -1512,11 +1512,15 @@ impl GroveDb {
                 })
         );
 
-        // Convert query items to a position range
-        let (start, end) = cost_return_on_error_no_add!(
-            cost,
-            Self::query_items_to_range(&sub_query.items, total_count)
-        );
+        // Count the positions the query items select
+        let mut selected = 0u64;
+        for item in sub_query.items.iter() {
+            let (start, end) = cost_return_on_error_no_add!(
+                cost,
+                Self::query_items_to_range(std::slice::from_ref(item), total_count)
+            );
+            selected = selected.saturating_add(end.saturating_sub(start));
+        }
 
         // Open aux storage
         let path_vec: Vec<Vec<u8>> = subtree_path.iter().map(|s| s.to_vec()).collect();
@@ -1553,9 +1557,9 @@ impl GroveDb {
                 .map_err(|e| Error::CorruptedData(format!("{}", e)))
         );
 
-        // Update limit: count individual values in the queried range
+        // Update limit: count individual values the query selects
         if let Some(limit) = overall_limit.as_mut() {
-            let count = (end.min(total_count) - start).min(u16::MAX as u64) as u16;
+            let count = selected.min(u16::MAX as u64) as u16;
             *limit = limit.saturating_sub(count);
         }
 
-- 
2.43.0


From 0a1c5f3fb5f4460a48314f84c05a6e6957e13560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 58/68] fix: limited proofs of adjacent ranges, and past
 boundaries, can be verified

---
 merk/src/proofs/query/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/merk/src/proofs/query/mod.rs b/merk/src/proofs/query/mod.rs
index 22352d5..e15d39b 100644
--- a/merk/src/proofs/query/mod.rs
+++ b/merk/src/proofs/query/mod.rs
@@ -209,14 +209,19 @@ where
         // 6. The same logic applies to range queries. If we are searching for
         // items 1 to 4 it would not make sense to push this to the right of 6.
 
-        let (mut found_item, on_boundary_not_found, mut left_proof_items, mut right_proof_items) =
-            proof_query_items.process_key(&key);
+        let (
+            mut found_item,
+            mut on_boundary_not_found,
+            mut left_proof_items,
+            mut right_proof_items,
+        ) = proof_query_items.process_key(&key);
 
         if let Some(current_limit) = proof_status.limit
             && current_limit == 0
         {
             left_proof_items = ProofItems::default();
             found_item = false;
+            on_boundary_not_found = false;
             right_proof_items = ProofItems::default();
         }
 
@@ -257,7 +262,8 @@ where
                     left_proof_items = ProofItems::default();
                 }
                 found_item = false;
-            } else if found_item && !on_boundary_not_found {
+                on_boundary_not_found = false;
+            } else if found_item {
                 // if limit is not zero, reserve a limit slot for the current node
                 // before generating proof for the right subtree
                 new_limit = Some(current_limit - 1);
-- 
2.43.0


From 1aaaace7759abb4c119324ad19e11f53b546110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 59/68] fix: proofs into bulk append trees nothing was appended
 to can be verified

---
 grovedb/src/operations/proof/verify.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index 1e70611..ce20014 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -858,7 +858,13 @@ impl GroveDb {
                     .map(|(root, _)| root)
                     .map_err(|e| invalid(format!("{}", e)))
             }
-            ProofBytes::BulkAppendTree(bytes) => bulk_root(bytes),
+            ProofBytes::BulkAppendTree(bytes) => {
+                let root = bulk_root(bytes)?;
+                if matches!(element, Element::BulkAppendTree(0, ..)) {
+                    return Ok(NULL_HASH);
+                }
+                Ok(root)
+            }
             ProofBytes::CommitmentTree(bytes) => {
                 let (sinsemilla_root, bulk_bytes) = bytes
                     .split_at_checked(32)
@@ -1137,7 +1143,11 @@ impl GroveDb {
             }
         }
 
-        // Return computed state_root as child Merk hash
+        // Return computed state_root as child Merk hash. A BulkAppendTree nothing
+        // was appended to is recorded with NULL_HASH.
+        if matches!(element, Element::BulkAppendTree(0, ..)) {
+            return Ok(NULL_HASH);
+        }
         Ok(bulk_state_root)
     }
 
-- 
2.43.0


From f73964be4ddb81ef02dccf3742f7a7a5c718a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 60/68] fix: references to trees can be proved

---
 grovedb/src/operations/proof/verify.rs | 14 ++++++++++++--
 merk/src/proofs/query/verify.rs        | 11 +++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/grovedb/src/operations/proof/verify.rs b/grovedb/src/operations/proof/verify.rs
index ce20014..e9edb7f 100644
--- a/grovedb/src/operations/proof/verify.rs
+++ b/grovedb/src/operations/proof/verify.rs
@@ -507,7 +507,12 @@ impl GroveDb {
                     // hide the contents of a tree, in KVValueHash nodes without
                     // breaking the merk proof, since the value bytes are not
                     // part of the KVValueHash tree hash computation.
-                    if element.is_any_tree() && !element.is_non_empty_tree() {
+                    // Where a reference leads to an empty tree, the node's hash
+                    // covers the value.
+                    if element.is_any_tree()
+                        && !element.is_non_empty_tree()
+                        && !proved_key_value.child_hash_verified
+                    {
                         let expected_value_hash =
                             combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
                                 .value()
@@ -1631,7 +1636,12 @@ impl GroveDb {
                     // is stored under the key, in KVValueHash nodes without
                     // breaking the merk proof, since the value bytes are not
                     // part of the KVValueHash tree hash computation.
-                    if element.is_any_tree() && !element.is_non_empty_tree() {
+                    // Where a reference leads to an empty tree, the node's hash
+                    // covers the value.
+                    if element.is_any_tree()
+                        && !element.is_non_empty_tree()
+                        && !proved_key_value.child_hash_verified
+                    {
                         let expected_value_hash =
                             combine_hash(value_hash(value_bytes).value(), &NULL_HASH)
                                 .value()
diff --git a/merk/src/proofs/query/verify.rs b/merk/src/proofs/query/verify.rs
index 1a00490..b3c19ab 100644
--- a/merk/src/proofs/query/verify.rs
+++ b/merk/src/proofs/query/verify.rs
@@ -413,7 +413,8 @@ impl QueryProofVerify for Query {
                     {
                         println!("Processing KVRefValueHash node");
                     }
-                    execute_node(key, Some(value), *value_hash, false)?;
+                    // the node's hash covers the referenced value
+                    execute_node(key, Some(value), *value_hash, true)?;
                 }
                 Node::KVCount(key, value, _count) => {
                     #[cfg(feature = "proof_debug")]
@@ -451,7 +452,8 @@ impl QueryProofVerify for Query {
                     {
                         println!("Processing KVRefValueHashCount node");
                     }
-                    execute_node(key, Some(value), *value_hash, false)?;
+                    // the node's hash covers the referenced value
+                    execute_node(key, Some(value), *value_hash, true)?;
                 }
                 Node::KVValueHashFeatureTypeWithChildHash(
                     key,
@@ -597,8 +599,9 @@ pub struct ProvedKeyOptionalValue {
     /// Proof
     pub proof: CryptoHash,
     /// Whether the merk verifier confirmed combine_hash(H(value), child_hash)
-    /// == value_hash for this element (true only for
-    /// KVValueHashFeatureTypeWithChildHash nodes).
+    /// == value_hash for this element (KVValueHashFeatureTypeWithChildHash
+    /// nodes), or the node stands for a reference, whose hash covers the
+    /// referenced value instead (KVRefValueHash and KVRefValueHashCount nodes).
     pub child_hash_verified: bool,
 }
 
-- 
2.43.0


From 35bb3cae155c33208e8520812e641357391875d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 61/68] fix: unknown-version errors name the operation that
 refused

The version checks of the delete-up-tree operations, of terminal_keys, of the
aggregate sum query, of get_query and of average_case_for_get_tree carried the
names of other operations, so that the error blamed one that had not run.
---
 grovedb/src/element/aggregate_sum_query/mod.rs  | 2 +-
 grovedb/src/element/query.rs                    | 2 +-
 grovedb/src/operations/delete/delete_up_tree.rs | 8 ++++----
 grovedb/src/operations/delete/worst_case.rs     | 2 +-
 grovedb/src/operations/get/average_case.rs      | 2 +-
 grovedb/src/operations/get/query.rs             | 4 ++--
 grovedb/src/query/mod.rs                        | 2 +-
 7 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/grovedb/src/element/aggregate_sum_query/mod.rs b/grovedb/src/element/aggregate_sum_query/mod.rs
index a0dbb16..38a1ab5 100644
--- a/grovedb/src/element/aggregate_sum_query/mod.rs
+++ b/grovedb/src/element/aggregate_sum_query/mod.rs
@@ -390,7 +390,7 @@ impl ElementAggregateSumQueryExtensions for Element {
         use crate::util::{compat, TxRef};
 
         check_grovedb_v0_with_cost!(
-            "path_query_push",
+            "aggregate_sum_path_query_push",
             grove_version
                 .grovedb_versions
                 .element
diff --git a/grovedb/src/element/query.rs b/grovedb/src/element/query.rs
index 062b548..9f10c85 100644
--- a/grovedb/src/element/query.rs
+++ b/grovedb/src/element/query.rs
@@ -127,7 +127,7 @@ impl ElementQueryExtensions for Element {
         grove_version: &GroveVersion,
     ) -> CostResult<QueryResultElements, Error> {
         check_grovedb_v0_with_cost!(
-            "insert_subtree_into_batch_operations",
+            "get_query",
             grove_version.grovedb_versions.element.get_query
         );
 
diff --git a/grovedb/src/operations/delete/delete_up_tree.rs b/grovedb/src/operations/delete/delete_up_tree.rs
index f9f64c4..8db5ae2 100644
--- a/grovedb/src/operations/delete/delete_up_tree.rs
+++ b/grovedb/src/operations/delete/delete_up_tree.rs
@@ -79,7 +79,7 @@ impl GroveDb {
         P: Into<SubtreePath<'b, B>>,
     {
         check_grovedb_v0_with_cost!(
-            "delete",
+            "delete_up_tree_while_empty",
             grove_version
                 .grovedb_versions
                 .operations
@@ -120,7 +120,7 @@ impl GroveDb {
         grove_version: &GroveVersion,
     ) -> CostResult<u16, Error> {
         check_grovedb_v0_with_cost!(
-            "delete",
+            "delete_up_tree_while_empty_with_sectional_storage",
             grove_version
                 .grovedb_versions
                 .operations
@@ -181,7 +181,7 @@ impl GroveDb {
         grove_version: &GroveVersion,
     ) -> CostResult<Vec<QualifiedGroveDbOp>, Error> {
         check_grovedb_v0_with_cost!(
-            "delete",
+            "delete_operations_for_delete_up_tree_while_empty",
             grove_version
                 .grovedb_versions
                 .operations
@@ -213,7 +213,7 @@ impl GroveDb {
         grove_version: &GroveVersion,
     ) -> CostResult<Option<Vec<QualifiedGroveDbOp>>, Error> {
         check_grovedb_v0_with_cost!(
-            "delete",
+            "add_delete_operations_for_delete_up_tree_while_empty",
             grove_version
                 .grovedb_versions
                 .operations
diff --git a/grovedb/src/operations/delete/worst_case.rs b/grovedb/src/operations/delete/worst_case.rs
index 9b13ffb..2e35822 100644
--- a/grovedb/src/operations/delete/worst_case.rs
+++ b/grovedb/src/operations/delete/worst_case.rs
@@ -30,7 +30,7 @@ impl GroveDb {
         grove_version: &GroveVersion,
     ) -> CostResult<Vec<QualifiedGroveDbOp>, Error> {
         check_grovedb_v0_with_cost!(
-            "delete",
+            "worst_case_delete_operations_for_delete_up_tree_while_empty",
             grove_version
                 .grovedb_versions
                 .operations
diff --git a/grovedb/src/operations/get/average_case.rs b/grovedb/src/operations/get/average_case.rs
index c70e90b..868e18a 100644
--- a/grovedb/src/operations/get/average_case.rs
+++ b/grovedb/src/operations/get/average_case.rs
@@ -146,7 +146,7 @@ impl GroveDb {
         grove_version: &GroveVersion,
     ) -> Result<OperationCost, Error> {
         check_grovedb_v0!(
-            "average_case_for_get",
+            "average_case_for_get_tree",
             grove_version
                 .grovedb_versions
                 .operations
diff --git a/grovedb/src/operations/get/query.rs b/grovedb/src/operations/get/query.rs
index b17aa66..6e482b5 100644
--- a/grovedb/src/operations/get/query.rs
+++ b/grovedb/src/operations/get/query.rs
@@ -570,7 +570,7 @@ where {
         grove_version: &GroveVersion,
     ) -> CostResult<AggregateSumQueryResult, Error> {
         check_grovedb_v0_with_cost!(
-            "query_sums",
+            "query_aggregate_sums",
             grove_version
                 .grovedb_versions
                 .operations
@@ -606,7 +606,7 @@ where {
         grove_version: &GroveVersion,
     ) -> CostResult<AggregateSumQueryResult, Error> {
         check_grovedb_v0_with_cost!(
-            "query_sums",
+            "query_aggregate_sums",
             grove_version
                 .grovedb_versions
                 .operations
diff --git a/grovedb/src/query/mod.rs b/grovedb/src/query/mod.rs
index fbb493f..17b1160 100644
--- a/grovedb/src/query/mod.rs
+++ b/grovedb/src/query/mod.rs
@@ -159,7 +159,7 @@ impl PathQuery {
         grove_version: &GroveVersion,
     ) -> Result<Vec<PathKey>, Error> {
         check_grovedb_v0!(
-            "merge",
+            "terminal_keys",
             grove_version
                 .grovedb_versions
                 .path_query_methods
-- 
2.43.0


From f384516a73e21bfc9a15428159fc7931a2e2e223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 62/68] fix: the limit of a proof is not used up by trees above
 empty append-only trees

When all that a level's subqueries reached were append-only trees without
matching rows, the prover counted the level as an empty result and took one
from the limit. The verifier does not, so it missed the last row of the proof
and refused it.
---
 grovedb/src/operations/proof/generate.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/grovedb/src/operations/proof/generate.rs b/grovedb/src/operations/proof/generate.rs
index 8236a17..208e87a 100644
--- a/grovedb/src/operations/proof/generate.rs
+++ b/grovedb/src/operations/proof/generate.rs
@@ -1235,8 +1235,6 @@ impl GroveDb {
                                 let mut lower_path = path.clone();
                                 lower_path.push(key.as_slice());
 
-                                let previous_limit = *overall_limit;
-
                                 let layer_proof = cost_return_on_error!(
                                     &mut cost,
                                     self.prove_subqueries_v1(
@@ -1249,9 +1247,9 @@ impl GroveDb {
                                     )
                                 );
 
-                                if previous_limit != *overall_limit {
-                                    has_a_result_at_level |= true;
-                                }
+                                // The tree itself is a result at this level, even
+                                // when an append-only tree below it has no rows.
+                                has_a_result_at_level |= true;
                                 lower_layers.insert(key.clone(), layer_proof);
                             }
 
-- 
2.43.0


From e5c0e1e8071f724ae37a1acf483d5c9701353725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:34 +0000
Subject: [PATCH 63/68] fix: a commit under an unknown feature version is
 refused

Merk::commit took every version number above 0 for version 1 instead of
refusing those it does not know.
---
 merk/src/merk/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/merk/src/merk/mod.rs b/merk/src/merk/mod.rs
index 3f86f37..ed4ffaf 100644
--- a/merk/src/merk/mod.rs
+++ b/merk/src/merk/mod.rs
@@ -63,7 +63,7 @@ use grovedb_costs::{
     CostResult, CostsExt, FeatureSumLength, OperationCost, TreeCostType,
 };
 use grovedb_storage::{self, Batch, RawIterator, StorageContext};
-use grovedb_version::version::GroveVersion;
+use grovedb_version::{check_grovedb_v0_or_v1_with_cost, version::GroveVersion};
 use source::MerkSource;
 
 use crate::{
@@ -389,6 +389,7 @@ where
     where
         K: AsRef<[u8]>,
     {
+        check_grovedb_v0_or_v1_with_cost!("commit", grove_version.merk_versions.batch.commit);
         let mut cost = OperationCost::default();
         let options = options.unwrap_or_default();
         let mut batch = self.storage.new_batch();
@@ -503,8 +504,8 @@ where
 
         // write to db
         let commit_result = self.storage.commit_batch(batch).map_err(StorageError);
-        if grove_version.merk_versions.batch.commit >= 1 {
-            // V1+: preserve accumulated batch costs (seek counts, storage costs)
+        if grove_version.merk_versions.batch.commit == 1 {
+            // V1: preserve accumulated batch costs (seek counts, storage costs)
             commit_result.add_cost(cost)
         } else {
             // V0: discard batch costs (legacy behavior)
-- 
2.43.0


From 3a736ac043038c99043d59400ec387e6e1151271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 64/68] fix: a tree inserted in a batch keeps its type when
 operations below it leave it empty

A batch that inserts a sum, count or other aggregating tree and has an
operation below it that leaves it empty (deleting a key that is not
there, for example) stored a plain tree: the type was inferred from the
aggregate data, which an empty merk does not have.
---
 grovedb/src/batch/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 7d14644..72ffe89 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -2608,6 +2608,18 @@ impl GroveDb {
                                                 | GroveOp::InsertIfNotExists { element, .. }
                                                 | GroveOp::Replace { element }
                                                 | GroveOp::Patch { element, .. } => {
+                                                    // A tree left empty has no aggregate data
+                                                    // that could tell its type
+                                                    let aggregate_data = match element.tree_type() {
+                                                        Some(tree_type)
+                                                            if calculated_root_key.is_none() =>
+                                                        {
+                                                            tree_type
+                                                                .empty_tree_feature_type()
+                                                                .into()
+                                                        }
+                                                        _ => aggregate_data,
+                                                    };
                                                     // Standard Merk trees
                                                     if let Element::Tree(_, flags) = element {
                                                         *mutable_occupied_entry =
-- 
2.43.0


From 0d8c6c4fc1eb493309d9f45d8455a50fc48a89ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 65/68] fix: a range from the start of a proof's map notices
 what was left out below its end

---
 merk/src/proofs/query/map.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/merk/src/proofs/query/map.rs b/merk/src/proofs/query/map.rs
index 610a823..0c1155c 100644
--- a/merk/src/proofs/query/map.rs
+++ b/merk/src/proofs/query/map.rs
@@ -154,26 +154,25 @@ impl Range<'_> {
     /// Returns an error if the proof does not properly prove the end of the
     /// range.
     fn check_end_bound(&self) -> Result<(), Error> {
-        let excluded_data = match self.prev_key {
-            // unbounded end, ensure proof has not excluded data at global right
-            // edge of tree
+        // get the first node past what was iterated (if any)
+        let start = match self.prev_key {
+            Some(ref key) => Bound::Excluded(key.to_vec()),
+            // unbounded start and no entry before the end of the range
+            None => Bound::Unbounded,
+        };
+        let maybe_end_node = self
+            .map
+            .entries
+            .range((start, Bound::<Vec<u8>>::Unbounded))
+            .next();
+
+        let excluded_data = match maybe_end_node {
+            // reached global right edge of tree, ensure proof has not excluded
+            // data there
             None => !self.map.right_edge,
 
-            // bounded end (inclusive or exclusive), ensure we had an exact
-            // match or next node is contiguous
-            Some(ref key) => {
-                // get neighboring node to the right (if any)
-                let range = (Bound::Excluded(key.to_vec()), Bound::<Vec<u8>>::Unbounded);
-                let maybe_end_node = self.map.entries.range(range).next();
-
-                match maybe_end_node {
-                    // reached global right edge of tree
-                    None => !self.map.right_edge,
-
-                    // got end node, must be contiguous
-                    Some((_, (contiguous, _))) => !contiguous,
-                }
-            }
+            // got end node, must be contiguous
+            Some((_, (contiguous, _))) => !contiguous,
         };
 
         if excluded_data {
-- 
2.43.0


From 4c460dbfe1a67b201222a9302fcde21a739fc41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:16 +0000
Subject: [PATCH 66/68] fix: a range ending exactly at a shown key of a proof's
 map is proven up to there

---
 merk/src/proofs/query/map.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/merk/src/proofs/query/map.rs b/merk/src/proofs/query/map.rs
index 0c1155c..ffd5185 100644
--- a/merk/src/proofs/query/map.rs
+++ b/merk/src/proofs/query/map.rs
@@ -105,12 +105,17 @@ impl Map {
     /// yield an error.
     pub fn range<'a, R: RangeBounds<&'a [u8]>>(&'a self, bounds: R) -> Range<'a> {
         let start_key = bound_to_inner(bounds.start_bound()).map(|x| (*x).into());
+        let last_key = match bounds.end_bound() {
+            Bound::Included(key) => Some(key.to_vec()),
+            Bound::Excluded(_) | Bound::Unbounded => None,
+        };
         let bounds = bounds_to_vec(bounds);
 
         Range {
             map: self,
             prev_key: start_key.as_ref().cloned(),
             start_key,
+            last_key,
             iter: self.entries.range(bounds),
         }
     }
@@ -146,6 +151,7 @@ fn bounds_to_vec<'a, R: RangeBounds<&'a [u8]>>(bounds: R) -> impl RangeBounds<Ve
 pub struct Range<'a> {
     map: &'a Map,
     start_key: Option<Vec<u8>>,
+    last_key: Option<Vec<u8>>,
     iter: btree_map::Range<'a, Vec<u8>, (bool, Vec<u8>)>,
     prev_key: Option<Vec<u8>>,
 }
@@ -154,6 +160,13 @@ impl Range<'_> {
     /// Returns an error if the proof does not properly prove the end of the
     /// range.
     fn check_end_bound(&self) -> Result<(), Error> {
+        // don't check what follows if we have an exact match for upper bound
+        if let Some(ref last_key) = self.last_key
+            && self.map.entries.contains_key(last_key)
+        {
+            return Ok(());
+        }
+
         // get the first node past what was iterated (if any)
         let start = match self.prev_key {
             Some(ref key) => Bound::Excluded(key.to_vec()),
-- 
2.43.0


From 58ae925f7b6f1fb6eb25e8c0ffc680803e8af38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:21 +0000
Subject: [PATCH 67/68] fix: a value put over a sum item is no longer charged
 as a sum item

---
 merk/src/tree/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/merk/src/tree/mod.rs b/merk/src/tree/mod.rs
index 37e04e2..f9aa9be 100644
--- a/merk/src/tree/mod.rs
+++ b/merk/src/tree/mod.rs
@@ -954,6 +954,9 @@ impl TreeNode {
         let mut cost = OperationCost::default();
 
         self.inner.kv = self.inner.kv.put_value_no_update_of_hashes(value);
+        // The value replaced may have been of a fixed cost, which does not apply to
+        // the new one.
+        self.inner.kv.value_defined_cost = None;
         self.inner.kv.feature_type = feature_type;
 
         if self.old_value.is_some() {
@@ -1064,6 +1067,9 @@ impl TreeNode {
         let mut cost = OperationCost::default();
 
         self.inner.kv = self.inner.kv.put_value_no_update_of_hashes(value);
+        // The value replaced may have been of a fixed cost, which does not apply to
+        // the new one.
+        self.inner.kv.value_defined_cost = None;
         self.inner.kv.feature_type = feature_type;
 
         if self.old_value.is_some() {
-- 
2.43.0


From 31e136ec26f7aa7a88dddaa3ea4fae4591ccdade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:45 +0000
Subject: [PATCH 68/68] fix: the last hop a batch follows may not lead to
 another reference

---
 grovedb/src/batch/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/grovedb/src/batch/mod.rs b/grovedb/src/batch/mod.rs
index 72ffe89..a8d8e21 100644
--- a/grovedb/src/batch/mod.rs
+++ b/grovedb/src/batch/mod.rs
@@ -1216,9 +1216,9 @@ where
         // element at this point we can extract the value hash from the
         // reference element directly
         if recursions_allowed == 1 {
-            let referenced_element_value_hash_opt = cost_return_on_error!(
+            let referenced_value_and_value_hash_opt = cost_return_on_error!(
                 &mut cost,
-                merk.get_value_hash(
+                merk.get_value_and_value_hash(
                     key.as_ref(),
                     true,
                     Some(Element::value_defined_cost_for_serialized_value),
@@ -1227,9 +1227,9 @@ where
                 .map_err(|e| Error::CorruptedData(e.to_string()))
             );
 
-            let referenced_element_value_hash = cost_return_on_error!(
+            let (referenced_value, referenced_element_value_hash) = cost_return_on_error!(
                 &mut cost,
-                referenced_element_value_hash_opt
+                referenced_value_and_value_hash_opt
                     .ok_or({
                         let reference_string = reference_path
                             .iter()
@@ -1245,6 +1245,15 @@ where
                     .wrap_with_cost(OperationCost::default())
             );
 
+            // another reference would need a further hop
+            let referenced_element = cost_return_on_error_into_no_add!(
+                cost,
+                Element::deserialize(referenced_value.as_slice(), grove_version)
+            );
+            if matches!(referenced_element, Element::Reference(..)) {
+                return Err(Error::ReferenceLimit).wrap_with_cost(cost);
+            }
+
             Ok(referenced_element_value_hash).wrap_with_cost(cost)
         } else if let Some(referenced_path) = intermediate_reference_info {
             let path = cost_return_on_error_into_no_add!(
-- 
2.43.0

