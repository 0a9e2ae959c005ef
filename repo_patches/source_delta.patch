From c87babed8651deeb7cee6a5ca9b9429a4f6ff5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 1/8] fix: BTreeSet::is_subset accepts an equal set

---
 src/btree/btree_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btree/btree_set.rs b/src/btree/btree_set.rs
index 8676567..505f7b2 100644
--- a/src/btree/btree_set.rs
+++ b/src/btree/btree_set.rs
@@ -125,7 +125,7 @@ impl<T, const N: usize> BTreeSet<T, N> {
         T: Ord,
     {
         self.is_empty()
-            || (self.len() < other.len()
+            || (self.len() <= other.len()
                 && self.difference(other).next().is_none())
     }
 
-- 
2.43.0


From c2866689a7176596daed8d20f3e3f16484570730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 2/8] fix: AvlMap::retain visits the entries in ascending key
 order

---
 src/avl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avl.rs b/src/avl.rs
index e0b793a..2598493 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -705,11 +705,12 @@ where
     };
 
     let (left, left_len) = retain(root.left.clone(), f);
+    let mut v = root.val.clone();
+    let keep = f(&root.key, &mut v);
     let (right, right_len) = retain(root.right.clone(), f);
     let len = left_len + right_len;
-    let mut v = root.val.clone();
 
-    if f(&root.key, &mut v) {
+    if keep {
         (join(left, root.key.clone(), v, right), len + 1)
     } else {
         (join2(left, None, right), len)
-- 
2.43.0


From 9fc4cb52a8778f659fd673ad36d8762f29ead6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 3/8] fix: fixed::BTreeMap iterators yield from the back in
 descending order

---
 src/btree/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index 30a6f5a..5a272c4 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1169,7 +1169,7 @@ where
                 Err(arc) => Some(Descend(Leased(arc))),
             }
         } else if self.next_elem_x < self.end_elems {
-            self.next_elem_x -= 1;
+            self.end_elems -= 1;
             let kv = match &mut self.n {
                 Owned(n) => unsafe {
                     let k = n.elems.keys[self.end_elems].assume_init_read();
@@ -1285,7 +1285,7 @@ impl<E, N, NI: NodeIterator<E, N>> DoubleEndedIterator for InnerIter<E, N, NI> {
     fn next_back(&mut self) -> Option<Self::Item> {
         use IterAction::*;
         while let Some(w) = self.work.back_mut() {
-            match w.next() {
+            match w.next_back() {
                 Some(Return(kv)) => {
                     self.len -= 1;
                     return Some(kv);
-- 
2.43.0


From f7ff657e7c5e71f51b0bbd4f040fd5beffa26ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 4/8] fix: exact-size iterators report exact size hints

---
 src/avl.rs             | 44 +++++++++++++++++++++++++++++++++++++++++-
 src/avl/avl_set.rs     |  8 ++++++++
 src/btree.rs           | 12 ++++++++++++
 src/btree/btree_set.rs |  8 ++++++++
 src/btree/core.rs      |  4 ++++
 5 files changed, 75 insertions(+), 1 deletion(-)

diff --git a/src/avl.rs b/src/avl.rs
index 2598493..9518d1b 100644
--- a/src/avl.rs
+++ b/src/avl.rs
@@ -1694,7 +1694,9 @@ impl<K, V> AvlMap<K, V> {
             }
         }
 
-        InnerIter::<IterMutNode<'_, K, V>> { work, len }
+        RangeMut {
+            iter: InnerIter { work, len },
+        }
     }
 
     /// Removes the entry for the given key and returns the unmapped value.
@@ -1962,6 +1964,10 @@ impl<Node: IterNode> Iterator for InnerIter<Node> {
             }
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len, Some(self.len))
+    }
 }
 
 impl<Node: IterNode> DoubleEndedIterator for InnerIter<Node> {
@@ -2027,6 +2033,10 @@ impl<'a, K, V> Iterator for Iter<'a, K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<'a, K, V> DoubleEndedIterator for Iter<'a, K, V> {
@@ -2073,6 +2083,10 @@ impl<'a, K: Clone, V: Clone> Iterator for IterMut<'a, K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<'a, K: Clone, V: Clone> DoubleEndedIterator for IterMut<'a, K, V> {
@@ -2113,6 +2127,30 @@ impl<'a, K, V> DoubleEndedIterator for Range<'a, K, V> {
 
 impl<'a, K, V> FusedIterator for Range<'a, K, V> {}
 
+struct RangeMut<'a, K: Clone, V: Clone> {
+    iter: InnerIter<IterMutNode<'a, K, V>>,
+}
+
+impl<'a, K: Clone, V: Clone> Iterator for RangeMut<'a, K, V> {
+    type Item = (&'a K, &'a mut V);
+
+    fn next(&mut self) -> Option<Self::Item> {
+        self.iter.next()
+    }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (0, Some(self.iter.len()))
+    }
+}
+
+impl<'a, K: Clone, V: Clone> DoubleEndedIterator for RangeMut<'a, K, V> {
+    fn next_back(&mut self) -> Option<Self::Item> {
+        self.iter.next_back()
+    }
+}
+
+impl<'a, K: Clone, V: Clone> FusedIterator for RangeMut<'a, K, V> {}
+
 trait IntoItem<K, V> {
     type Item;
 
@@ -2218,6 +2256,10 @@ impl<K: Clone, V: Clone> Iterator for IntoIter<K, V> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<K: Clone, V: Clone> DoubleEndedIterator for IntoIter<K, V> {
diff --git a/src/avl/avl_set.rs b/src/avl/avl_set.rs
index 888aff1..a598928 100644
--- a/src/avl/avl_set.rs
+++ b/src/avl/avl_set.rs
@@ -448,6 +448,10 @@ impl<'a, T> Iterator for Iter<'a, T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 crate::make_set_op_iter!(Difference, Iter<'a, T>, 0b100);
@@ -473,6 +477,10 @@ impl<T: Clone> Iterator for IntoIter<T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<K: Clone + Ord> std::ops::BitAnd for &AvlSet<K> {
diff --git a/src/btree.rs b/src/btree.rs
index 982216e..85e1c18 100644
--- a/src/btree.rs
+++ b/src/btree.rs
@@ -1422,6 +1422,10 @@ impl<'a, K, V, const N: usize> Iterator for Iter<'a, K, V, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|(ref k, ref v)| (k, v))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len, Some(self.iter.len))
+    }
 }
 
 impl<'a, K, V, const N: usize> DoubleEndedIterator for Iter<'a, K, V, N> {
@@ -1490,6 +1494,10 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|(ref k, ref mut v)| (k, v))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len, Some(self.iter.len))
+    }
 }
 
 impl<'a, K, V, const N: usize> DoubleEndedIterator for IterMut<'a, K, V, N>
@@ -1752,6 +1760,10 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.iter.len, Some(self.iter.len))
+    }
 }
 
 impl<K, V, const N: usize> DoubleEndedIterator for IntoIter<K, V, N>
diff --git a/src/btree/btree_set.rs b/src/btree/btree_set.rs
index 505f7b2..bda42d9 100644
--- a/src/btree/btree_set.rs
+++ b/src/btree/btree_set.rs
@@ -373,6 +373,10 @@ impl<'a, T, const N: usize> Iterator for Iter<'a, T, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<'a, T, const N: usize> DoubleEndedIterator for Iter<'a, T, N> {
@@ -407,6 +411,10 @@ impl<T: Clone, const N: usize> Iterator for IntoIter<T, N> {
     fn next(&mut self) -> Option<Self::Item> {
         self.iter.next().map(|e| e.0)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter.size_hint()
+    }
 }
 
 impl<T: Clone, const N: usize> DoubleEndedIterator for IntoIter<T, N> {
diff --git a/src/btree/core.rs b/src/btree/core.rs
index 5a272c4..ce06e8c 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1279,6 +1279,10 @@ impl<E, N, NI: NodeIterator<E, N>> Iterator for InnerIter<E, N, NI> {
 
         None
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len, Some(self.len))
+    }
 }
 
 impl<E, N, NI: NodeIterator<E, N>> DoubleEndedIterator for InnerIter<E, N, NI> {
-- 
2.43.0


From 9dbf8fe74bff4bc81caa4ff72c1f2c37f051080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 5/8] fix: deserializing with a size hint of usize::MAX does
 not overflow

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 84fc0eb..bdc16c5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -405,7 +405,7 @@ mod serde {
 
                     Ok(MAP::make_half(scratch))
                 } else {
-                    let lf_len = (len + 1) / 2; // left gets big half for mid pt
+                    let lf_len = len - len / 2; // left gets big half for mid pt
                     let rt_len = len - lf_len;
                     let lhs =
                         build_map_by_halves::<MAP, M>(access, lf_len, scratch)?;
-- 
2.43.0


From 4ccb963b6a8054e8da3575ef93f86064932da8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 6/8] fix: fixed::BTreeMap keeps its node shape when a Clone
 panics in a merge

Merging two children cloned a shared node after one child had already been
detached.  A panic in the user's Clone left a node with too few children, and
later operations read uninitialized child slots.
---
 src/btree/core.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index ce06e8c..a0c706b 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -591,6 +591,12 @@ impl<K, V> Node<K, V> {
         assert!(self.kids.is_some());
         let kids = self.kids.as_mut().unwrap();
 
+        // Unshare both children before moving anything: cloning a shared node
+        // runs user code, and a panic there must not leave us with a missing
+        // child (i.e., w/o exactly one more child than elems).
+        Arc::make_mut(&mut kids.keys_mut()[at]);
+        Arc::make_mut(&mut kids.keys_mut()[at + 1]);
+
         // we destruct the rhs, moving its pieces to the lhs
         let rhs_rc = kids.remove(at + 1).0;
         let mut rhs_n = match Arc::try_unwrap(rhs_rc) {
-- 
2.43.0


From a49279d773533b145e9f76d6ac5cfe687752033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 7/8] fix: derive InlineVec slices and merge pointers from the
 whole array

keys(), vals() and friends built a slice of len elements from a reference to
the first element only, and merge_kids wrote past a slice of the initialized
elements.  Accessing the other elements through such a pointer is undefined
behaviour (Miri reports it under its default aliasing model).
---
 src/btree/core.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index a0c706b..f2e4edb 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -114,7 +114,7 @@ impl<K, V, const N: usize> InlineVec<K, V, N> {
     // get the keys as a slice
     fn keys(&self) -> &[K] {
         unsafe {
-            let keys: *const K = self.keys[0].assume_init_ref();
+            let keys = self.keys.as_ptr() as *const K;
             std::slice::from_raw_parts(keys, self.len as usize)
         }
     }
@@ -122,7 +122,7 @@ impl<K, V, const N: usize> InlineVec<K, V, N> {
     // get the keys as a mutable slice
     fn keys_mut(&mut self) -> &mut [K] {
         unsafe {
-            let keys: *mut K = self.keys[0].assume_init_mut();
+            let keys = self.keys.as_mut_ptr() as *mut K;
             std::slice::from_raw_parts_mut(keys, self.len as usize)
         }
     }
@@ -131,11 +131,11 @@ impl<K, V, const N: usize> InlineVec<K, V, N> {
     fn elems_mut(&mut self) -> (&mut [K], &mut [V]) {
         (
             unsafe {
-                let keys: *mut K = self.keys[0].assume_init_mut();
+                let keys = self.keys.as_mut_ptr() as *mut K;
                 std::slice::from_raw_parts_mut(keys, self.len as usize)
             },
             unsafe {
-                let vals: *mut V = self.vals[0].assume_init_mut();
+                let vals = self.vals.as_mut_ptr() as *mut V;
                 std::slice::from_raw_parts_mut(vals, self.len as usize)
             },
         )
@@ -190,14 +190,14 @@ impl<K, V, const N: usize> InlineVec<K, V, N> {
 
     fn vals(&self) -> &[V] {
         unsafe {
-            let vals: *const V = self.vals[0].assume_init_ref();
+            let vals = self.vals.as_ptr() as *const V;
             std::slice::from_raw_parts(vals, self.len as usize)
         }
     }
 
     fn vals_mut(&mut self) -> &mut [V] {
         unsafe {
-            let vals: *mut V = self.vals[0].assume_init_mut();
+            let vals = self.vals.as_mut_ptr() as *mut V;
             std::slice::from_raw_parts_mut(vals, self.len as usize)
         }
     }
@@ -615,12 +615,12 @@ impl<K, V> Node<K, V> {
         let rhs_len = rhs_n.elems.len();
 
         unsafe {
-            let lhs_keys = lhs_mut.elems.keys_mut().as_mut_ptr();
-            let rhs_keys = rhs_n.elems.keys_mut().as_mut_ptr();
+            let lhs_keys = lhs_mut.elems.keys.as_mut_ptr();
+            let rhs_keys = rhs_n.elems.keys.as_mut_ptr();
             copy(rhs_keys, lhs_keys.add(lhs_len), rhs_len);
 
-            let lhs_vals = lhs_mut.elems.vals_mut().as_mut_ptr();
-            let rhs_vals = rhs_n.elems.vals_mut().as_mut_ptr();
+            let lhs_vals = lhs_mut.elems.vals.as_mut_ptr();
+            let rhs_vals = rhs_n.elems.vals.as_mut_ptr();
             copy(rhs_vals, lhs_vals.add(lhs_len), rhs_len);
 
             lhs_mut.elems.len += rhs_len as InlineVecLen;
-- 
2.43.0


From 715096ffaeda5893ff1964fe7e33fba41ecfa9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:16 +0000
Subject: [PATCH 8/8] fix: do not drop elements twice when a Drop panics in
 NodeIntoIter::drop

NodeIntoIter::drop drops the elements that were not consumed and marks the
node as empty afterwards.  If the drop of an element panics, the node still
claims all its elements, so they (and those already handed out) are dropped
again during unwinding.  Mark the node and its kids as empty first.
---
 src/btree/core.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/btree/core.rs b/src/btree/core.rs
index f2e4edb..0080538 100644
--- a/src/btree/core.rs
+++ b/src/btree/core.rs
@@ -1224,21 +1224,27 @@ impl<K, V> Drop for NodeIntoIter<K, V> {
         // if we don't own the node, we don't need to clean it up
         let OwnedOrLeased::Owned(n) = &mut self.n else { return; };
 
+        // The node must not drop anything itself, not even if the drop of an
+        // element panics below.
+        n.elems.len = 0;
+        let mut kids = n.kids.take();
+        if let Some(kids) = kids.as_mut() {
+            kids.len = 0;
+        }
+
         for i in self.next_elem_x..self.end_elems {
             unsafe {
                 n.elems.keys[i].assume_init_drop();
                 n.elems.vals[i].assume_init_drop();
             }
         }
-        n.elems.len = 0;
 
-        let Some(mut kids) = n.kids.take() else { return; };
+        let Some(mut kids) = kids else { return; };
         for i in self.next_kid_x..self.end_kids {
             unsafe {
                 kids.keys[i].assume_init_drop();
             }
         }
-        kids.len = 0;
     }
 }
 
-- 
2.43.0

