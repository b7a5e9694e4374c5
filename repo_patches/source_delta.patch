From 6a1e60db56cd7b0cbb5a4817b620378da88ab0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 01/17] fix: cursor_to on clone-on-write trees descends into
 the child with a mismatched parent

---
 src/tree/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index f4988a6..da4c07d 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -493,9 +493,12 @@ where
                             let child = unsafe { n.into_child(c_idx) };
                             // note: adding P::COW means the compiler knows it will always be false
                             let mismatched_parent = P::COW
-                                && matches!(child.leaf().parent(), Some(p) if p.ptr != n.ptr());
+                                && !matches!(
+                                    child.leaf().parent(),
+                                    Some(p) if p.ptr == n.ptr() && p.idx_in_parent == c_idx
+                                );
                             if mismatched_parent {
-                                let mut c: C = recurse(node, target);
+                                let mut c: C = recurse(child, target);
                                 c.prepend_to_path(PathComponent { child_idx: c_idx });
                                 break c;
                             }
-- 
2.43.0


From afbeb728e253ea2b46b66fadaaa12697e5bcb23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 02/17] fix: compare a child's parent with its actual parent
 while iterating over clone-on-write trees

---
 src/tree/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree/iter.rs b/src/tree/iter.rs
index a882570..b2e2525 100644
--- a/src/tree/iter.rs
+++ b/src/tree/iter.rs
@@ -394,7 +394,7 @@ where
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
                         match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
+                            Some(pair) if pair != (parent.ptr(), c_idx) => {
                                 self.stack.push((parent.erase_type(), c_idx))
                             }
                             _ => (),
@@ -486,7 +486,7 @@ where
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
                         match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
+                            Some(pair) if pair != (parent.ptr(), c_idx) => {
                                 self.stack.push((parent.erase_type(), c_idx));
                             }
                             _ => (),
-- 
2.43.0


From f17d51c9683c3745d59fd5bce4e062e8cb2f9f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 03/17] fix: is_hole checks both holes of a node

---
 src/tree/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c2fe71b..c49bfda 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -2737,7 +2737,7 @@ where
         //
         // It's worth optimizing this function in this way because `is_hole` may be quite hot.
         let hole_x = self.holes[0].map(|x| x.get()).unwrap_or(0); // no-op
-        let hole_y = self.holes[0].map(|y| y.get()).unwrap_or(0); // no-op
+        let hole_y = self.holes[1].map(|y| y.get()).unwrap_or(0); // no-op
 
         let plus_one = k_idx + 1;
         plus_one == hole_x || plus_one == hole_y
-- 
2.43.0


From 534023b9a0481a88e987e65da4d8d0470061400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 04/17] fix: keep the holes of a node up to date when its keys
 are shifted

---
 src/tree/node.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c49bfda..379dbd0 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -2183,6 +2183,7 @@ where
                 shift(&mut leaf.keys, key_idx as usize, leaf.len as usize);
                 shift(&mut leaf.vals, key_idx as usize, leaf.len as usize);
                 shift(&mut leaf.refs, key_idx as usize, leaf.len as usize);
+                leaf.shift_holes(key_idx);
 
                 leaf.keys.get_mut_unchecked(key_idx as usize).write(pos);
                 leaf.vals.get_mut_unchecked(key_idx as usize).write(slice);
@@ -2485,6 +2486,7 @@ where
                 shift(&mut internal.leaf.vals, ki, k_len);
                 shift(&mut internal.leaf.refs, ki, k_len);
             }
+            internal.leaf.shift_holes(key_idx);
             // SAFETY: the bounds here are essentially the same as above, but the start and end
             // indexes are allowed to be one greater. Adding one means that we're shifting the
             // children starting from *after* the key at `key_idx`, which *is* what we want.
@@ -2689,6 +2691,7 @@ unsafe fn shift<A: ArrayHack<Element = T>, T>(slice: &mut A, start: usize, end:
 //  * len
 //  * max_len
 //  * is_hole
+//  * shift_holes
 //  * key_pos (where I: Copy)
 //  * try_key_pos (where I: Copy)
 //  * keys_pos_slice
@@ -2743,6 +2746,21 @@ where
         plus_one == hole_x || plus_one == hole_y
     }
 
+    /// Adjusts the indexes of any holes for the values starting from `start` having been shifted
+    /// forward by one
+    fn shift_holes(&mut self, start: u8) {
+        for h in self.holes.iter_mut() {
+            match *h {
+                // note: holes are stored as the index plus one. The addition can't overflow because
+                // there's always room for a value to be shifted forwards.
+                Some(idx_plus_one) if idx_plus_one.get() > start => {
+                    *h = NonZeroU8::new(idx_plus_one.get() + 1);
+                }
+                _ => (),
+            }
+        }
+    }
+
     /// Returns the position of the key, relative to the start of the node
     ///
     /// A leaf node's first key will always have `key_pos(0) == I::ZERO` because it *is* the start
-- 
2.43.0


From bb8222af69f61f12580b189403ae7615b2396aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 05/17] fix: BoundedCursor stores its components without a gap
 and uses its full length

---
 src/cursor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 5ffc1b2..9c2165f 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -96,8 +96,7 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
     fn new_empty() -> Self {
         let len_u8 = match u8::try_from(LEN) {
             Err(_) => panic!("tried to construct BoundedCursor with LEN > u8::MAX"),
-            Ok(0) => 0,
-            Ok(len) => len - 1,
+            Ok(len) => len,
         };
 
         BoundedCursor {
@@ -116,8 +115,8 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
             self.path.copy_within(0..LEN - 1, 1);
             self.path[0] = component;
         } else {
-            self.path[self.start_at as usize] = component;
             self.start_at -= 1;
+            self.path[self.start_at as usize] = component;
         }
     }
 
-- 
2.43.0


From d5d9fd76017d9b51a8e873a770c3ab0d5cd73125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 06/17] fix: use the correct direction of subtraction for
 directional indexes

---
 src/tree/entry.rs  | 2 +-
 src/tree/fix.rs    | 6 +++---
 src/tree/insert.rs | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tree/entry.rs b/src/tree/entry.rs
index 37ed52c..fc51234 100644
--- a/src/tree/entry.rs
+++ b/src/tree/entry.rs
@@ -89,7 +89,7 @@ where
     ///
     /// This is essentially a convenience method roughly equivalent to `self.range().len()`.
     pub fn size(&self) -> I {
-        self.range_end.sub_right(self.range_start)
+        self.range_end.sub_left(self.range_start)
     }
 
     /// Returns a reference to the slice for this entry
diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index 2e53b2c..a245c0e 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -539,7 +539,7 @@ where
                         .leaf()
                         .try_key_pos(c_idx)
                         .unwrap_or_else(|| node.leaf().subtree_size());
-                    next_key_pos.sub_left(self.old_size)
+                    next_key_pos.sub_right(self.old_size)
                 });
 
                 (node.erase_type(), c_idx, Some(c_idx), pos)
@@ -730,7 +730,7 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     // Of course, this is only valid if `new_end < old_end` -- so if `IS_INCREASE` is false.
     // Naturally, there's a rephrasing for when `new_end > old_end`:
     //
-    //   k_pos.add_left(new_end.sub_left(old_end))           FIXME: prove this?
+    //   k_pos.add_left(new_end.sub_right(old_end))
     //
     // This one is to be used when `IS_INCREASE` is true.
     //
@@ -742,7 +742,7 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     let new_end = pos.add_right(new_size);
 
     let abs_difference = match IS_INCREASE {
-        true => new_end.sub_left(old_end),
+        true => new_end.sub_right(old_end),
         false => old_end.sub_right(new_end),
     };
 
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index b9047af..c46429c 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1076,7 +1076,7 @@ where
                             .leaf()
                             .try_key_pos(c_idx)
                             .unwrap_or_else(|| node.leaf().subtree_size());
-                        next_key_pos.sub_left(sizes.old_size)
+                        next_key_pos.sub_right(sizes.old_size)
                     }
                 });
 
-- 
2.43.0


From 791dab2649cf8955876fac85b4b28413260d7388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 07/17] fix: produce the cursor of the joined slice when an
 insertion splits a key and joins with its left part

---
 src/tree/fix.rs    | 27 ++++++++++++++-------------
 src/tree/insert.rs | 40 +++++++---------------------------------
 2 files changed, 21 insertions(+), 46 deletions(-)

diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index a245c0e..09070a6 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -502,6 +502,16 @@ where
         Self: 'm,
     {
         loop {
+            // Update the cursor. This must be done before mapping the state, so that a reset by
+            // the mapping also discards the path component for the node it was called with.
+            //
+            // Technically speaking, this relies on this node having `child_or_key =
+            // ChildOrKey::Child(_)` as long as the cursor is non-empty, but that should always be
+            // true.
+            if let ChildOrKey::Child((child_idx, _)) = self.child_or_key {
+                self.cursor_builder.prepend_to_path(PathComponent { child_idx });
+            }
+
             self = self.map(&mut map_state);
 
             if let Some(ControlFlow::Break(())) = early_exit.as_mut().map(|f| f(&self)) {
@@ -519,11 +529,11 @@ where
     /// root
     ///
     /// Typically this method will not be used directly, and instead
-    pub(super) fn do_upward_step(mut self) -> Result<(), Self> {
+    pub(super) fn do_upward_step(self) -> Result<(), Self> {
         // The first part of the traversal step starts with repositioning all of the keys after
         // `self.child_or_key`.
 
-        let (mut node, first_key_after, maybe_child_idx, pos) = match self.child_or_key {
+        let (mut node, first_key_after, pos) = match self.child_or_key {
             ChildOrKey::Key((k_idx, node)) => {
                 let pos = self
                     .override_pos
@@ -531,7 +541,7 @@ where
                     // `k_idx` is within bounds.
                     .unwrap_or_else(|| unsafe { node.leaf().key_pos(k_idx) });
 
-                (node, k_idx + 1, None, pos)
+                (node, k_idx + 1, pos)
             }
             ChildOrKey::Child((c_idx, node)) => {
                 let pos = self.override_pos.unwrap_or_else(|| {
@@ -542,7 +552,7 @@ where
                     next_key_pos.sub_right(self.old_size)
                 });
 
-                (node.erase_type(), c_idx, Some(c_idx), pos)
+                (node.erase_type(), c_idx, pos)
             }
         };
 
@@ -562,15 +572,6 @@ where
 
         let new_size = node.leaf().subtree_size();
 
-        // Update the cursor
-        //
-        // Technically speaking, this relies on this node having `child_or_key =
-        // ChildOrKey::Child(_)` as long as the cursor is non-empty, but that should always be
-        // true.
-        if let Some(child_idx) = maybe_child_idx {
-            self.cursor_builder.prepend_to_path(PathComponent { child_idx });
-        }
-
         // Update `self` to the parent, if there is one. Otherwise, this is the root node so we
         // should return `Err` with the cursor and reference to the insertion.
         match node.into_parent().ok() {
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index c46429c..13e0b32 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1109,36 +1109,8 @@ where
                 sizes
             };
 
-        // Track the position of the inserted `fst`, so that we can update
-        let fst_handle: Cell<Option<(node::NodePtr<I, S, P, M>, u8, u8)>> = Cell::new(None);
-
         let remap_cursor = cursor_mode == CursorMode::Lhs && !cursor_builder.is_nop();
 
-        let mut new_updates_callback;
-        let updates_callback: UpdatesCallback<I, S, P, M> = if remap_cursor {
-            new_updates_callback = |upd: TraverseUpdate<I, S, P, M>| {
-                match (&upd, fst_handle.get()) {
-                    (&TraverseUpdate::Insertion { ptr, height, idx }, None) => {
-                        fst_handle.set(Some((ptr, height, idx)));
-                    }
-                    (
-                        TraverseUpdate::Move { old_ptr, old_range, new_ptr, new_height, new_range },
-                        Some((fst_ptr, _, fst_idx)),
-                    ) if *old_ptr == fst_ptr && old_range.contains(&fst_idx) => {
-                        let new_idx = new_range.start + (old_range.start - fst_idx);
-
-                        fst_handle.set(Some((*new_ptr, *new_height, new_idx)));
-                    }
-                    _ => (),
-                }
-
-                updates_callback(upd);
-            };
-            &mut new_updates_callback
-        } else {
-            updates_callback
-        };
-
         let mut map_cursor = |node: &ty![NodeHandle], mut builder: CursorBuilder| {
             if node.height() == lhs_height {
                 builder.reset();
@@ -1147,11 +1119,13 @@ where
 
         let mut map_cursor_side = |lhs: &ty![NodeHandle], mut side| {
             if lhs.height() == lhs_height {
-                match fst_handle.get() {
-                    None => side = Some(Side::Left),
-                    Some((ptr, _, 0)) if ptr != lhs.ptr() => side = None,
-                    _ => (),
-                }
+                // Everything that was inserted is to the right of `lhs`, so its index among the
+                // keys of the node, as it was before splitting, is still `lhs_k_idx`.
+                side = match lhs_k_idx.cmp(&lhs.leaf().len()) {
+                    Ordering::Less => Some(Side::Left),
+                    Ordering::Equal => None,
+                    Ordering::Greater => Some(Side::Right),
+                };
             }
             side
         };
-- 
2.43.0


From 8d1a87524df3b7f9f3c09aecfa2fa4bb10344b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 08/17] fix: reject insertions at an index less than zero

---
 src/tree/insert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index 13e0b32..bb5bea6 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -54,7 +54,9 @@ where
         // exposed so that algorithms that - in their own edge cases - require insertion can use
         // them.
 
-        if idx > self.size() {
+        if idx < I::ZERO {
+            panic!("cannot insert new slice, index {idx:?} out of bounds, less than zero");
+        } else if idx > self.size() {
             panic!(
                 "cannot insert new slice, index {idx:?} out of bounds for size {:?}",
                 self.size()
-- 
2.43.0


From 4347b14c885b85f94714065a078d995357bfd8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 09/17] fix: cloning a reference to a dropped tree counts
 towards the users of its store

---
 src/tree/slice_ref.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 5442c00..a51d471 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -848,13 +848,15 @@ impl<I, S, const M: usize> Clone for SliceRef<I, S, M> {
             None => None,
             Some(r) => {
                 let refs = r.borrow();
-                bump_weak_count(&self.inner().weak_count);
                 let new_id = refs.clone(&this_id);
                 self.id.set(Some(this_id));
                 Some(new_id)
             }
         });
 
+        // Even invalid `SliceRef`s keep the allocation alive; see `do_drop`.
+        bump_weak_count(&self.inner().weak_count);
+
         SliceRef {
             inner: self.inner,
             id: Cell::new(id),
-- 
2.43.0


From 7f782b86aaaef6765df38106316c705620ca7023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 10/17] fix: keep the store of slice references while a dropped
 tree is still borrowed

---
 src/tree/slice_ref.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index a51d471..2cca191 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -447,9 +447,9 @@ impl<I, S, const M: usize> Drop for SliceRefStore<I, S, M> {
             | BorrowState::Immutable { drop_if_zero: false, .. }
             | BorrowState::Dropped => unreachable!("invalid state"),
 
-            BorrowState::Immutable { count, .. } => {
-                BorrowState::Immutable { count, drop_if_zero: true }
-            }
+            // The contents of the store are still needed until the last borrow is released, which
+            // then drops them. `drop_if_zero` has already been set by `try_acquire_drop`.
+            BorrowState::Immutable { drop_if_zero: true, .. } => return,
             BorrowState::Dropping => BorrowState::Dropped,
         };
 
@@ -461,7 +461,7 @@ impl<I, S, const M: usize> Drop for SliceRefStore<I, S, M> {
 
         // If everything has been *completely* dropped, and there's no weak references left (in the
         // form of `SliceRef`s), then we can deallocate the backing allocation.
-        if matches!(new_state, BorrowState::Dropped if inner.weak_count.get() == 0) {
+        if inner.weak_count.get() == 0 {
             // SAFETY: this is being called only once we know no other usages of the value can
             // exist
             unsafe { InnerStore::dealloc(self.inner) }
-- 
2.43.0


From bf8271ae59082d3b117a34598af675d5bda46378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 11/17] fix: keep track of the inserted slice while splitting
 internal nodes

insert_ref returned a reference to the wrong slot when the new slice was joined with the left part of a split key in an internal node that then had to be split itself.
---
 src/tree/fix.rs    |  6 +++---
 src/tree/insert.rs | 21 ++++++++++++++++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index 09070a6..d6ca31d 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -254,14 +254,14 @@ where
         }
     }
 
-    /// Creates an iterator of `TraverseUpdate`s corresponding to splitting the given node at the
-    /// index
+    /// Creates the `TraverseUpdate`s (a `Move` and a `Remove`) corresponding to splitting the given
+    /// node at the index
     #[rustfmt::skip]
     pub(super) fn split<Ty: ty::TypeHint, B>(
         lhs: &NodeHandle<Ty, B, I, S, P, M>,
         idx: u8,
         rhs: &NodeHandle<Ty, borrow::UniqueOwned, I, S, P, M>,
-    ) -> impl IntoIterator<Item = TraverseUpdate<I, S, P, M>> {
+    ) -> [TraverseUpdate<I, S, P, M>; 2] {
         [
             Self::Move {
                 old_ptr: lhs.ptr(), old_range: idx + 1..idx + 1 + rhs.leaf().len(),
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index bb5bea6..40ad4cd 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -2034,6 +2034,13 @@ where
         // which is equal to `2 * M` (and `M >= 1`).
         let (midpoint_key, rhs) = unsafe { parent.split(midpoint_idx, store) };
         let mut rhs = NodeBox::new(rhs);
+
+        // Handle the updates for the keys that were moved into `rhs`. The midpoint is dealt with
+        // below, depending on where it ends up.
+        let [moved_to_rhs, removed_midpoint] =
+            TraverseUpdate::split(&parent, midpoint_idx, &rhs.node);
+        updates_callback(moved_to_rhs);
+
         parent.set_subtree_size(midpoint_key.pos);
 
         // We want to find `rhs_start` (i.e. the position of the first child in `rhs`), but there's
@@ -2184,6 +2191,17 @@ where
             let inserted_handle = unsafe { insert_into.borrow().into_slice_handle(new_key_idx) };
             updates_callback(make_update(&inserted_handle));
 
+            // Signal that the midpoint is temporarily out of the tree; it'll be put back once it
+            // has been inserted further up. This has to come after the update for `self.key`, so
+            // that putting back `self.key` isn't mistaken for putting back the midpoint.
+            //
+            // If we inserted into the left-hand node, there's nothing to do: slices that have
+            // already been inserted are either in `self` or directly to its left, so the midpoint
+            // can't be one of them -- and `parent` may now have another key with the same index.
+            if let Side::Right = side {
+                updates_callback(removed_midpoint);
+            }
+
             BubbleStepResult::KeepGoing(BubbledInsertState {
                 lhs: parent.erase_type(),
                 key: midpoint_key,
@@ -2236,7 +2254,8 @@ where
             // Make sure it'll drop if the arithmetic operations below fail
             let old_first_child = SharedNodeBox::new(old_first_child);
 
-            // Add the key and child to the left-hand node (`parent`)
+            // Add the key and child to the left-hand node (`parent`). The midpoint goes back to the
+            // index it came from, so there's no update to make for it.
             let lhs_size = parent.leaf().subtree_size();
             let new_lhs_size = lhs_size.add_right(midpoint_size).add_right(old_first_child_size);
 
-- 
2.43.0


From cf709281e830b0facf179d04fbee29b985de9a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 12/17] fix: Mock: reject insertions of negative size or at
 negative indexes

---
 src/mock.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index 20fa07e..3b21e9c 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -106,9 +106,9 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
     }
 
     pub fn insert(&mut self, index: I, mut slice: S, size: I, make_ref: bool) -> Option<Ref> {
-        if size == I::ZERO {
+        if size <= I::ZERO {
             panic!("invalid insertion size");
-        } else if index > self.size() {
+        } else if index < I::ZERO || index > self.size() {
             panic!("index out of bounds");
         }
 
-- 
2.43.0


From e8b650f7e2ce3026ce7cc907537cf63a22219539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 13/17] fix: Mock: never call try_join if MAY_JOIN is false

---
 src/mock.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index 3b21e9c..a8a4512 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -150,7 +150,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
         let mut lhs_stable_id = None;
         let mut rhs_stable_id = None;
 
-        if let Some(p) = idx.checked_sub(1) {
+        if let Some(p) = idx.checked_sub(1).filter(|_| S::MAY_JOIN) {
             let (lhs_end, lhs, lhs_id) = self.runs.remove(p);
             self.refs_map.remove(lhs_id, p);
             assert_eq!(lhs_end, index);
@@ -175,7 +175,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
         }
 
         // `idx` is already the right-hand node, because `index` is equal to the end of `lhs`
-        if idx < self.runs.len() {
+        if S::MAY_JOIN && idx < self.runs.len() {
             let (rhs_end, rhs, rhs_id) = self.runs.remove(idx);
             self.refs_map.remove(rhs_id, idx);
             match slice.try_join(rhs) {
-- 
2.43.0


From 9551e34197f86bf7cdb855fc40421d7319ce3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 14/17] fix: Mock: direction of subtraction when moving end
 positions

---
 src/mock.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mock.rs b/src/mock.rs
index a8a4512..d093cd9 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -207,7 +207,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
             self.refs_map.remap(id, stable_id);
         }
 
-        let diff = base_pos.add_right(new_size).sub_left(base_pos.add_right(old_size));
+        let diff = base_pos.add_right(new_size).sub_right(base_pos.add_right(old_size));
 
         for (i, ..) in self.runs.get_mut(idx + 1..).unwrap_or(&mut []) {
             *i = i.add_left(diff);
-- 
2.43.0


From 1ec2c477df82461829439dbc4b0678353cd6493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 15/17] fix: Mock: treat ranges below zero like the tree does

---
 src/mock.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index d093cd9..a1e47c0 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -252,7 +252,7 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
             StartBound::Included(i) => {
                 start_pos = i;
                 unbounded_start = false;
-                if i >= self.size() {
+                if i < I::ZERO || i >= self.size() {
                     panic!("start index out of bounds");
                 }
 
@@ -264,24 +264,23 @@ impl<I: Index, S: Slice<I>> Mock<I, S> {
         };
 
         let bkwd_idx = match end {
-            EndBound::Included(i) if i < start_pos || i >= self.size() => {
+            EndBound::Included(i) if (i < start_pos && !unbounded_start) || i >= self.size() => {
                 panic!("invalid range, or end index out of bounds")
             }
-            EndBound::Excluded(i)
-                if i < start_pos || (i == start_pos && !unbounded_start) || i > self.size() =>
-            {
+            EndBound::Excluded(i) if (i <= start_pos && !unbounded_start) || i > self.size() => {
                 panic!("invalid range, or end index out of bounds")
             }
 
             // bkwd_idx is always +1 from the next index, so most of these are +1 from the first
             // backward index
             EndBound::Unbounded => self.runs.len(),
+            // Special case empty iterators
+            EndBound::Included(i) if i < I::ZERO => 0,
+            EndBound::Excluded(i) if i <= I::ZERO => 0,
             EndBound::Included(i) => match self.runs.binary_search_by_key(&i, |(i, ..)| *i) {
                 Ok(i) => i + 2,
                 Err(i) => i + 1,
             },
-            // Special case empty iterator
-            EndBound::Excluded(i) if i == I::ZERO => 0,
             EndBound::Excluded(i) => match self.runs.binary_search_by_key(&i, |(i, ..)| *i) {
                 Ok(i) => i + 1,
                 Err(i) => i + 1,
-- 
2.43.0


From c03c56c02b8f773c8b87f9e7ca8e755f890bb41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 16/17] fix: report sizes that are not positive as errors when
 deserializing

---
 src/serde.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 4c043ef..e776cd4 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -49,7 +49,10 @@ where
 
     fn visit_seq<A: de::SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
         let mut this = RleTree::new_empty();
-        while let Some((size, slice)) = seq.next_element()? {
+        while let Some((size, slice)) = seq.next_element::<(I, S)>()? {
+            if size <= I::ZERO {
+                return Err(de::Error::custom("size of a slice must be greater than zero"));
+            }
             let idx = this.size();
             this.insert(idx, slice, size);
         }
-- 
2.43.0


From cb62e98585e29681e1175c5f0f6908240575e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 17/17] Observation points for verification (cfg sherman_verif)

---
 src/lib.rs       |   5 ++
 src/macros.rs    |   8 +++
 src/param.rs     |   2 +
 src/tree/cow.rs  |   2 +
 src/tree/node.rs |   9 +++
 src/verif.rs     | 149 +++++++++++++++++++++++++++++++++++++++++++++++
 6 files changed, 175 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index e1b9a9a..9111361 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -50,6 +50,7 @@
 //! [General Sherman]: https://en.wikipedia.org/wiki/General_Sherman_(tree)
 
 #![deny(unsafe_op_in_unsafe_fn, rustdoc::broken_intra_doc_links)]
+#![allow(unexpected_cfgs)]
 #![cfg_attr(
     feature = "nightly",
     allow(incomplete_features),
@@ -76,6 +77,10 @@ mod public_traits;
 mod recycle;
 mod tree;
 
+#[cfg(sherman_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 #[cfg(feature = "serde")]
 mod serde;
 
diff --git a/src/macros.rs b/src/macros.rs
index 9bbb11c..85365d3 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -32,6 +32,14 @@ macro_rules! weak_assert {
     (@panic_args $cond:expr, $($tt:tt)+) => { $($tt)+ };
 }
 
+// Observation point for the verification harness; nothing at all without `--cfg sherman_verif`
+macro_rules! verif {
+    ($event:ident, $ptr:expr $(, $arg:expr)?) => {
+        #[cfg(sherman_verif)]
+        crate::verif::emit(crate::verif::Event::$event($ptr.as_ptr() as *const u8 as usize $(, $arg)?));
+    };
+}
+
 #[cfg(test)]
 #[allow(dead_code)] // this is only used when actively debugging.
 pub(crate) static DEBUG: AtomicBool = AtomicBool::new(false);
diff --git a/src/param.rs b/src/param.rs
index 574cfe8..35ec21d 100644
--- a/src/param.rs
+++ b/src/param.rs
@@ -20,6 +20,8 @@
 //!
 //! [`RleTree`]: crate::RleTree
 
+#[cfg(sherman_verif)]
+use crate::verif::std_shim as std;
 use std::marker::PhantomData;
 
 use crate::tree::slice_ref::{self, BorrowFailure, RawRoot, RawSliceRef, ShouldDrop};
diff --git a/src/tree/cow.rs b/src/tree/cow.rs
index 4153b15..1661110 100644
--- a/src/tree/cow.rs
+++ b/src/tree/cow.rs
@@ -1,6 +1,8 @@
 //! Internal handling for concurrent clone-on-write functionality
 
 use crate::param;
+#[cfg(sherman_verif)]
+use crate::verif::std_shim as std;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 #[rustfmt::skip]
diff --git a/src/tree/node.rs b/src/tree/node.rs
index 379dbd0..b11c32b 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -826,6 +826,7 @@ where
         // SAFETY: references to `Internal` nodes can be cast to `Leaf`s, as described in the
         // "safety" comment for `Internal` -- so regardless of the type of the node, we can read it
         // as a `Leaf`.
+        verif!(Read, self.ptr);
         unsafe { self.ptr.cast().as_ref() }
     }
 
@@ -1272,6 +1273,7 @@ where
     ) -> R {
         // SAFETY: The existence of a `borrow::Mut` means that we can construct a `&mut Leaf`. The
         // caller guarantees it won't be aliased so calling `func` with it is ok.
+        verif!(Write, self.ptr);
         unsafe { func(self.ptr.cast().as_mut()) }
     }
 
@@ -1544,6 +1546,7 @@ where
 
                         // Only overwrite the pointer if we have unique access
                         if p.as_ref().strong_count.is_unique() {
+                            verif!(Write, p);
                             let leaf = p.as_mut();
                             leaf.parent = Some(dst_ptr);
                             leaf.idx_in_parent.write(ci as u8);
@@ -1965,6 +1968,7 @@ where
     /// Produces a reference to the `Internal`
     pub(super) fn internal(&self) -> &Internal<I, S, P, M> {
         // SAFETY: The type hint guarantees that this is an `Internal` node
+        verif!(Read, self.ptr);
         unsafe { self.ptr.cast().as_ref() }
     }
 
@@ -2074,6 +2078,7 @@ where
                 // SAFETY: `ptr` is safe to dereference because `SupportsInsertIfMut` guarantees that
                 // it was originally a `borrow::Mut`, and the call to `ensure_unique` ensures that we
                 // now have unique mutable access.
+                verif!(Write, r);
                 let mut leaf = unsafe { &mut *r.cast::<Leaf<I, S, P, M>>().as_ptr() };
                 leaf.parent = Some(self.ptr.cast());
                 leaf.idx_in_parent.write(child_idx);
@@ -2294,6 +2299,7 @@ where
         // SAFETY: The existence of a `borrow::Mut` with `ty::Internal` means that we can construct
         // a `&mut Internal`. The caller guarantees it won't be aliased so calling `func` with it
         // is ok.
+        verif!(Write, self.ptr);
         unsafe { func(self.ptr.cast().as_mut()) }
     }
 
@@ -2552,6 +2558,7 @@ where
                     // if there aren't other pointers to it. The existing borrow means we
                     // won't have existing mutable references to it, either.
                     if p.as_ref().strong_count.is_unique() {
+                        verif!(Write, p);
                         let leaf = p.as_mut();
                         // For `child` (i = ci), we need to set the parent pointer. But if we
                         // have unique access, it's also worth doing that for the other values
@@ -2627,6 +2634,7 @@ fn alloc_aligned<T>(val: T) -> NonNull<T> {
             // SAFETY: `.write()` requires that `p.as_ptr()` is valid for writes, and is
             // properly aligned. This is guaranteed by a non-null return from `alloc::alloc()`
             unsafe { p.as_ptr().write(val) };
+            verif!(Alloc, p, layout.size());
             p
         }
         None => alloc::handle_alloc_error(layout),
@@ -2649,6 +2657,7 @@ unsafe fn dealloc_aligned<T>(ptr: NonNull<T>) {
     // SAFETY: `dealloc` requires that the pointer refer to a current allocation (guaranteed by
     // caller) and that the layout is the same as what was originally used (which we can see is the
     // case by comparing with `alloc_aligned`.
+    verif!(Free, ptr);
     unsafe { alloc::dealloc(ptr.as_ptr() as *mut u8, layout) };
 }
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..6ca7669
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,149 @@
+//! Observation points for the verification harness, only present with `--cfg sherman_verif`
+//!
+//! The harness registers one function, which is told about every operation on a reference count
+//! (and, just before it, that there will be one) and about accesses to the nodes of trees.
+
+use std::sync::atomic::Ordering;
+use std::sync::OnceLock;
+
+/// What happened. Nodes and counts are given by their addresses.
+#[derive(Debug, Copy, Clone, PartialEq)]
+pub enum Event {
+    /// An atomic operation follows
+    Point,
+    Alloc(usize, usize),
+    Free(usize),
+    Read(usize),
+    Write(usize),
+    Load(usize, Ordering, u64),
+    Store(usize, Ordering, u64),
+    /// A read-modify-write operation: value before, value after
+    Rmw(usize, Ordering, u64, u64),
+    Fence(Ordering),
+}
+
+static OBSERVER: OnceLock<fn(Event)> = OnceLock::new();
+
+/// Registers the function that is told about events, once
+pub fn observe(f: fn(Event)) {
+    let _ = OBSERVER.set(f);
+}
+
+pub(crate) fn emit(e: Event) {
+    if let Some(f) = OBSERVER.get() {
+        f(e)
+    }
+}
+
+/// Stands in for `std` where reference counts are implemented
+pub(crate) mod std_shim {
+    #[allow(unused_imports)]
+    pub use ::std::*;
+    pub mod sync {
+        #[allow(unused_imports)]
+        pub use ::std::sync::*;
+        pub mod atomic {
+            #[allow(unused_imports)]
+            pub use super::super::super::{fence, AtomicUsize};
+            #[allow(unused_imports)]
+            pub use ::std::sync::atomic::*;
+        }
+    }
+}
+
+#[allow(dead_code)]
+pub fn fence(o: Ordering) {
+    emit(Event::Point);
+    std::sync::atomic::fence(o);
+    emit(Event::Fence(o));
+}
+
+/// `std::sync::atomic::AtomicUsize` that reports what is done with it
+pub struct AtomicUsize(std::sync::atomic::AtomicUsize);
+
+macro_rules! rmw {
+    ($($f:ident: |$old:ident, $v:ident| $new:expr;)*) => { $(
+        pub fn $f(&self, $v: usize, o: Ordering) -> usize {
+            emit(Event::Point);
+            let $old = self.0.$f($v, o);
+            emit(Event::Rmw(self.at(), o, $old as u64, $new as u64));
+            $old
+        }
+    )* };
+}
+
+#[allow(dead_code)]
+impl AtomicUsize {
+    pub const fn new(v: usize) -> Self {
+        AtomicUsize(std::sync::atomic::AtomicUsize::new(v))
+    }
+    fn at(&self) -> usize {
+        self as *const _ as usize
+    }
+    pub fn load(&self, o: Ordering) -> usize {
+        emit(Event::Point);
+        let v = self.0.load(o);
+        emit(Event::Load(self.at(), o, v as u64));
+        v
+    }
+    pub fn store(&self, v: usize, o: Ordering) {
+        emit(Event::Point);
+        self.0.store(v, o);
+        emit(Event::Store(self.at(), o, v as u64));
+    }
+    rmw! {
+        swap: |old, v| v;
+        fetch_add: |old, v| old.wrapping_add(v);
+        fetch_sub: |old, v| old.wrapping_sub(v);
+        fetch_and: |old, v| old & v;
+        fetch_or: |old, v| old | v;
+        fetch_xor: |old, v| old ^ v;
+        fetch_max: |old, v| old.max(v);
+        fetch_min: |old, v| old.min(v);
+    }
+    pub fn compare_exchange(
+        &self,
+        current: usize,
+        new: usize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<usize, usize> {
+        emit(Event::Point);
+        let r = self.0.compare_exchange(current, new, success, failure);
+        match r {
+            Ok(old) => emit(Event::Rmw(self.at(), success, old as u64, new as u64)),
+            Err(v) => emit(Event::Load(self.at(), failure, v as u64)),
+        }
+        r
+    }
+    pub fn compare_exchange_weak(
+        &self,
+        current: usize,
+        new: usize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<usize, usize> {
+        self.compare_exchange(current, new, success, failure)
+    }
+    pub fn fetch_update(
+        &self,
+        set: Ordering,
+        fetch: Ordering,
+        mut f: impl FnMut(usize) -> Option<usize>,
+    ) -> Result<usize, usize> {
+        let mut old = self.load(fetch);
+        while let Some(new) = f(old) {
+            match self.compare_exchange(old, new, set, fetch) {
+                Ok(x) => return Ok(x),
+                Err(x) => old = x,
+            }
+        }
+        Err(old)
+    }
+    pub fn get_mut(&mut self) -> &mut usize {
+        self.0.get_mut()
+    }
+    pub fn into_inner(self) -> usize {
+        self.0.into_inner()
+    }
+}
-- 
2.43.0

