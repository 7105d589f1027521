From 0afaf0ea87bb2a1101cb6485d304f7173f49043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 01/11] fix: prepend to an empty tree left the root cache stale

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index d6f97d0..0cdb30c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2526,6 +2526,7 @@ impl<B: BTreeTrait> BTree<B> {
             let parent = self.in_nodes.get_mut(parent_idx.unwrap()).unwrap();
             let ans = data.arena;
             parent.children.push(data).unwrap();
+            self.update_root_cache();
             return Cursor {
                 leaf: ans.unwrap().into(),
                 offset: 0,
-- 
2.43.0


From edcfabdcb1326f64daa5233a724191c5c4c88061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 02/11] fix: dropping a Drain over nothing panicked (empty
 tree, or empty range at the end)

---
 src/iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index e8314a9..7f913de 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -139,7 +139,11 @@ impl<'a, B: BTreeTrait> Drop for Drain<'a, B> {
             end_path,
             leaf_before_drain_range,
             leaf_after_drain_range,
-        } = *self.store.take().unwrap();
+        } = match self.store.take() {
+            Some(store) => *store,
+            // the range is empty, nothing was removed
+            None => return,
+        };
         // the deepest internal node level
         let mut level = start_path.len() - 2;
         let mut deleted = Vec::new();
-- 
2.43.0


From d28e1177eb3544435c61bd23e63b6070b2eb3896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 03/11] fix: insert_many_by_cursor into an empty tree panicked

---
 src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0cdb30c..30aed7c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -716,6 +716,7 @@ impl<B: BTreeTrait> BTree<B> {
             let (new_root, _) = self.create_subtrees_from_elem(data);
             self.in_nodes.remove(self.root.unwrap()).unwrap();
             self.root = new_root;
+            self.update_root_cache();
             return;
         }
 
@@ -753,8 +754,10 @@ impl<B: BTreeTrait> BTree<B> {
     /// Returns (newly created subtree's root, height)
     fn create_subtrees_from_elem(&mut self, data: Vec<B::Elem>) -> (ArenaIndex, usize) {
         let mut height = 0;
-        let mut nodes = Vec::with_capacity(data.len() / MAX_CHILDREN_NUM + 1);
-        for elem in data.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+        // a node must keep a free slot
+        let max_child_size = MAX_CHILDREN_NUM - 2;
+        let mut nodes = Vec::with_capacity(data.len() / max_child_size + 1);
+        for elem in data.into_iter().chunks(max_child_size).into_iter() {
             let parent_index = self.in_nodes.insert(Node {
                 parent: None,
                 parent_slot: 0,
@@ -763,7 +766,7 @@ impl<B: BTreeTrait> BTree<B> {
 
             nodes.push(parent_index);
             let parent = self.in_nodes.get_mut(parent_index).unwrap();
-            for (i, elem) in elem.enumerate() {
+            for elem in elem {
                 let leaf = {
                     // alloc new leaf child
                     let elem_cache = B::get_elem_cache(&elem);
@@ -780,13 +783,13 @@ impl<B: BTreeTrait> BTree<B> {
                         cache: elem_cache,
                     }
                 };
-                parent.children[i] = leaf;
+                parent.children.push(leaf).unwrap();
             }
         }
 
         while nodes.len() > 1 {
-            let mut new_nodes = Vec::with_capacity(nodes.len() / MAX_CHILDREN_NUM + 1);
-            for chunk in nodes.into_iter().chunks(MAX_CHILDREN_NUM).into_iter() {
+            let mut new_nodes = Vec::with_capacity(nodes.len() / max_child_size + 1);
+            for chunk in nodes.into_iter().chunks(max_child_size).into_iter() {
                 let parent_index = self.in_nodes.insert(Node {
                     parent: None,
                     parent_slot: 0,
@@ -800,10 +803,13 @@ impl<B: BTreeTrait> BTree<B> {
                     let child = child.unwrap();
                     let mut cache = B::Cache::default();
                     B::calc_cache_internal(&mut cache, &child.children);
-                    parent.children[i] = Child {
-                        arena: ArenaIndex::Internal(child_idx),
-                        cache,
-                    };
+                    parent
+                        .children
+                        .push(Child {
+                            arena: ArenaIndex::Internal(child_idx),
+                            cache,
+                        })
+                        .unwrap();
                     child.parent = Some(ArenaIndex::Internal(parent_index));
                     child.parent_slot = i as u8;
                 }
-- 
2.43.0


From e23ddd63b42bacc59add522e0b65ee0874ceb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 04/11] fix: insert_many_by_cursor merged new elements into a
 leaf that is not adjacent

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 30aed7c..3d628da 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -729,7 +729,8 @@ impl<B: BTreeTrait> BTree<B> {
             ..
         } = self.split_leaf_if_needed(cursor);
         let mut inserted = 0;
-        if let Some(left) = left_neighbour {
+        // the left neighbour only touches the insert position when inserting at a leaf's start
+        if let Some(left) = left_neighbour.filter(|_| cursor.offset == 0) {
             let left_node = self.leaf_nodes.get_mut(left.0).unwrap();
             let mut i = 0;
             while i < data.len() && left_node.elem.can_merge(&data[i]) {
-- 
2.43.0


From 5006b7f47ab9a5e4636c277a0a5f4022e0773376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 05/11] fix: merging adjacent elements of a batch could reorder
 and drop elements

---
 src/lib.rs | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3d628da..079a556 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2741,28 +2741,13 @@ impl<B: BTreeTrait> BTree<B> {
 
 fn merge_adj<E: Mergeable + Debug>(data: &mut Vec<E>) {
     // Merge adjacent elements
-    let mut i = 0;
-    let last = data.len() - 1;
-    let mut to_delete_start = 0;
-    let mut del_len = 0;
-    while i < last {
-        if data[i].can_merge(&data[i + 1]) {
-            let (a, b) = arref::mut_twice(data.as_mut_slice(), i, i + 1).unwrap();
-            a.merge_right(b);
-            if del_len == 0 {
-                to_delete_start = i + 1;
-            }
-
-            data.swap(i + 1, to_delete_start + del_len);
-            del_len += 1;
-            i += 1;
+    data.dedup_by(|right, left| {
+        let can_merge = left.can_merge(right);
+        if can_merge {
+            left.merge_right(right);
         }
-        i += 1;
-    }
-
-    if del_len > 0 {
-        data.drain(to_delete_start..to_delete_start + del_len);
-    }
+        can_merge
+    });
 }
 
 pub enum PreviousCache<'a, B: BTreeTrait> {
-- 
2.43.0


From 93e9f17c7d8d2249c23acfbefb93eb0a902485ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 06/11] fix: Rope::clear kept a cursor into the cleared tree

---
 src/generic_impl/rope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generic_impl/rope.rs b/src/generic_impl/rope.rs
index e1c0c71..ccc91bd 100644
--- a/src/generic_impl/rope.rs
+++ b/src/generic_impl/rope.rs
@@ -241,6 +241,7 @@ impl Rope {
 
     pub fn clear(&mut self) {
         self.tree.clear();
+        self.cursor = None;
     }
 
     #[allow(unused)]
-- 
2.43.0


From 1a35d40aa2d1a2d2d7f12c14a63473c2b65e3d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 07/11] fix: shift_path_by_one_offset lost the offset when
 crossing a node boundary

---
 src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 079a556..ff2cc33 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -843,7 +843,6 @@ impl<B: BTreeTrait> BTree<B> {
             if elem_slot_index == parent.children.len() {
                 if let Some(next) = self.next_same_level_in_node(ArenaIndex::Internal(parent_idx)) {
                     elem_slot_index = 0;
-                    path.offset = 0;
                     parent_idx = next.unwrap_internal();
                     parent = self.in_nodes.get(parent_idx).unwrap();
                 } else {
-- 
2.43.0


From 2bde877242380ef394bc1ec4e74e0f01eaf2751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 08/11] fix: OrdTreeMap::delete of an absent key removed a
 neighbouring entry

---
 src/generic_impl/ord.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generic_impl/ord.rs b/src/generic_impl/ord.rs
index cd570fe..34ea35c 100644
--- a/src/generic_impl/ord.rs
+++ b/src/generic_impl/ord.rs
@@ -77,6 +77,9 @@ impl<Key: Clone + Ord + Debug + 'static, Value: Clone + Debug + 'static> OrdTree
     #[inline(always)]
     pub fn delete(&mut self, key: &Key) -> Option<(Key, Value)> {
         let q = self.tree.query::<OrdTrait<Key, Value>>(key)?;
+        if !q.found {
+            return None;
+        }
         match self.tree.remove_leaf(q.cursor) {
             Some(v) => {
                 self.len -= 1;
-- 
2.43.0


From 59f3039be14abebd6698d80d74aaeba272cf707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 09/11] fix: update_leaves_with_arg_in_ranges panicked or
 updated elements outside an empty range

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index ff2cc33..c679bad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1404,6 +1404,7 @@ impl<B: BTreeTrait> BTree<B> {
         mut args: Vec<(LeafIndex, Range<usize>, A)>,
         mut f: impl FnMut(&mut B::Elem, &A),
     ) -> Vec<LeafIndex> {
+        args.retain(|x| !x.1.is_empty());
         args.sort_by_key(|x| x.0);
         let mut new_leaves = Vec::new();
         let mut dirty_map: LeafDirtyMap<B::CacheDiff> = Default::default();
-- 
2.43.0


From a989cb478c29062a8fc74dcc6e034b5905c0d26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 10/11] fix: iter_range over everything panicked on an empty
 tree

---
 src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c679bad..19e53db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1728,16 +1728,20 @@ impl<B: BTreeTrait> BTree<B> {
         range: impl RangeBounds<Cursor>,
     ) -> impl Iterator<Item = ElemSlice<'_, B::Elem>> + '_ {
         let start = match range.start_bound() {
-            std::ops::Bound::Included(start) => *start,
+            std::ops::Bound::Included(start) => Some(*start),
             std::ops::Bound::Excluded(_) => unreachable!(),
-            std::ops::Bound::Unbounded => self.start_cursor().unwrap(),
+            std::ops::Bound::Unbounded => self.start_cursor(),
         };
         let (inclusive, end) = match range.end_bound() {
-            std::ops::Bound::Included(end) => (true, *end),
-            std::ops::Bound::Excluded(end) => (false, *end),
-            std::ops::Bound::Unbounded => (true, self.end_cursor().unwrap()),
+            std::ops::Bound::Included(end) => (true, Some(*end)),
+            std::ops::Bound::Excluded(end) => (false, Some(*end)),
+            std::ops::Bound::Unbounded => (true, self.end_cursor()),
         };
-        self._iter_range(start, end, inclusive)
+        // an empty tree has neither a start nor an end
+        start
+            .zip(end)
+            .into_iter()
+            .flat_map(move |(start, end)| self._iter_range(start, end, inclusive))
     }
 
     fn _iter_range(
-- 
2.43.0


From e0468577d2aa2ef80b3d485b5efacc5da53eeb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:53 +0000
Subject: [PATCH 11/11] fix: update_leaf left the removed element in the caches
 of its ancestors

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 19e53db..6d7e82a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1306,7 +1306,7 @@ impl<B: BTreeTrait> BTree<B> {
 
         let deleted = node.elem.can_remove();
 
-        if need_update_cache {
+        if need_update_cache && !deleted {
             self.recursive_update_cache(node_idx.into(), B::USE_DIFF, None);
         }
 
@@ -1318,6 +1318,7 @@ impl<B: BTreeTrait> BTree<B> {
             let slot = Self::get_leaf_slot(node_idx.0, parent);
             parent.children.remove(slot);
             let is_lack = parent.is_lack();
+            self.recursive_update_cache(parent_idx, B::USE_DIFF, None);
             if is_lack {
                 self.handle_lack_recursively(parent_idx);
             }
-- 
2.43.0

