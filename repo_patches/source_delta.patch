From 180f7e9a5f6fc90048073f475f59c1b7fada5a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 01/10] fix: swap of a position with itself hangs, opposite
 concurrent swaps deadlock

swap locked both elements in argument order: swap(i, i) waited for itself
forever and swap(i, j) could deadlock with a concurrent swap(j, i). Lock the
two elements in the order of their addresses and lock a single one only once.
---
 src/elem.rs     |  9 +++++++++
 src/helpers.rs  | 18 ------------------
 src/mut_elem.rs | 26 +++++++++++++++++++-------
 3 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/elem.rs b/src/elem.rs
index 7f12c57..10742f3 100644
--- a/src/elem.rs
+++ b/src/elem.rs
@@ -177,4 +177,13 @@ impl<T> ConcurrentElement<T> {
 
 // constants
 
+impl<T> ConcurrentElement<T> {
+    /// Compares the addresses of the two elements, which defines the order in which
+    /// multiple elements must be locked.
+    #[inline(always)]
+    pub(crate) fn cmp_address(&self, other: &Self) -> core::cmp::Ordering {
+        (self as *const Self).cmp(&(other as *const Self))
+    }
+}
+
 const HAS_VALUE: &str = "ConcurrentElement must always have a value";
diff --git a/src/helpers.rs b/src/helpers.rs
index 478fb4f..5d69cb2 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,6 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
 use core::sync::atomic::AtomicUsize;
-use orx_concurrent_option::{MutHandle, StateU8};
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 use orx_split_vec::{Doubling, SplitVec};
 
@@ -19,21 +18,4 @@ where
     pub(crate) fn len_written(&self) -> &AtomicUsize {
         &self.core.state().len_written
     }
-
-    #[inline(always)]
-    pub(crate) unsafe fn mut_handle(
-        &self,
-        i: usize,
-        initial_state: StateU8,
-        success_state: StateU8,
-    ) -> Option<MutHandle<T>> {
-        match i < self.len() {
-            true => unsafe {
-                self.core
-                    .get(i)
-                    .and_then(|e| e.0.mut_handle(initial_state, success_state))
-            },
-            false => None,
-        }
-    }
 }
diff --git a/src/mut_elem.rs b/src/mut_elem.rs
index 54139f5..216385b 100644
--- a/src/mut_elem.rs
+++ b/src/mut_elem.rs
@@ -1,4 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use core::cmp::Ordering;
 use orx_concurrent_option::SOME;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -28,14 +29,25 @@ where
     /// assert_eq!(&vec, &[2, 1, 0, 3]);
     /// ```
     pub fn swap(&self, i: usize, j: usize) -> bool {
-        let h_i = unsafe { self.mut_handle(i, SOME, SOME) };
-        let h_j = unsafe { self.mut_handle(j, SOME, SOME) };
+        let (a, b) = match (self.get(i), self.get(j)) {
+            (Some(e_i), Some(e_j)) => match e_i.cmp_address(e_j) {
+                Ordering::Less => (e_i, e_j),
+                Ordering::Greater => (e_j, e_i),
+                Ordering::Equal => return true,
+            },
+            _ => return false,
+        };
 
-        match (h_i, h_j) {
-            (Some(h_i), Some(h_j)) => {
-                let mut_i = unsafe { h_i.get_mut() };
-                let mut_j = unsafe { h_j.get_mut() };
-                core::mem::swap(mut_i, mut_j);
+        // the two elements are always locked in the order of their addresses,
+        // so that concurrent swaps cannot wait for each other
+        let h_a = unsafe { a.0.mut_handle(SOME, SOME) };
+        let h_b = unsafe { b.0.mut_handle(SOME, SOME) };
+
+        match (h_a, h_b) {
+            (Some(h_a), Some(h_b)) => {
+                let mut_a = unsafe { h_a.get_mut() };
+                let mut_b = unsafe { h_b.get_mut() };
+                core::mem::swap(mut_a, mut_b);
                 true
             }
             _ => false,
-- 
2.43.0


From c2c5b30e61e9c16592ea5c668f08fcb52c0ff440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 02/10] fix: comparing two elements reads their values after
 unlocking them

ConcurrentOption::eq only locks each of the two options while taking a
reference to its value and compares afterwards, racing with concurrent
mutations. Compare while both elements are locked.
---
 src/common_traits/eq.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common_traits/eq.rs b/src/common_traits/eq.rs
index 37db614..1130f78 100644
--- a/src/common_traits/eq.rs
+++ b/src/common_traits/eq.rs
@@ -1,10 +1,18 @@
 use crate::{ConcurrentElement, ConcurrentSlice, ConcurrentVec};
+use core::cmp::Ordering;
 
 // elem
 impl<T: PartialEq> PartialEq for ConcurrentElement<T> {
     #[inline]
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        // values must be compared while the elements are locked; elements are locked in the order
+        // of their addresses, so that concurrent comparisons and swaps cannot wait for each other
+        #[allow(clippy::eq_op)]
+        match self.cmp_address(other) {
+            Ordering::Less => self.map(|a| other.map(|b| a == b)),
+            Ordering::Greater => other.map(|b| self.map(|a| a == b)),
+            Ordering::Equal => self.map(|a| a == a),
+        }
     }
 }
 
-- 
2.43.0


From 236638a8ef0d6b7fe236ef81026479de103f1926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 03/10] fix: len stops counting at an element which is locked
 by another thread

An element which is being read or mutated is in the reserved state, it is
written nevertheless; len, get, index and iter missed it and all later ones.
---
 src/vec.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 10606d6..6c30338 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -3,6 +3,7 @@ use crate::ConcurrentSlice;
 use crate::{helpers::DefaultPinVec, state::ConcurrentVecState};
 use core::ops::RangeBounds;
 use core::sync::atomic::Ordering;
+use orx_concurrent_option::State;
 use orx_pinned_concurrent_col::PinnedConcurrentCol;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -128,9 +129,10 @@ where
         let iter = unsafe { self.core.iter_over_range(len..until) };
         let mut num_pushed = 0;
         for x in iter {
-            match x.0.is_some_with_order(Ordering::Relaxed) {
-                true => num_pushed += 1,
-                false => break,
+            // a reserved element is also written: it is currently being accessed by another thread
+            match x.0.state(Ordering::Relaxed) {
+                State::Some | State::Reserved => num_pushed += 1,
+                State::None => break,
             }
         }
         let new_len = len + num_pushed;
-- 
2.43.0


From bdb5edf3e2e0b04282bda7d8106ae459ab0f4e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 04/10] fix: raw accessors miss elements which are locked by
 another thread

get_raw, get_raw_mut, get_ref and iter_ref returned None for, or skipped, a
written element whenever another thread happened to be accessing it.
---
 src/concurrent_slice/unsafe_api.rs | 4 +---
 src/unsafe_api.rs                  | 9 ++++-----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/concurrent_slice/unsafe_api.rs b/src/concurrent_slice/unsafe_api.rs
index 8aefdc2..cca5b4f 100644
--- a/src/concurrent_slice/unsafe_api.rs
+++ b/src/concurrent_slice/unsafe_api.rs
@@ -1,6 +1,5 @@
 use super::ConcurrentSlice;
 use crate::ConcurrentElement;
-use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<'a, T, P> ConcurrentSlice<'a, T, P>
@@ -254,8 +253,7 @@ where
     /// ```
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let b = self.a + self.len;
-        unsafe { self.vec.core.iter_over_range(self.a..b) }
-            .flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+        unsafe { self.vec.core.iter_over_range(self.a..b) }.flat_map(|x| unsafe { x.0.as_ref() })
     }
 
     // mut
diff --git a/src/unsafe_api.rs b/src/unsafe_api.rs
index 24c4f29..3273081 100644
--- a/src/unsafe_api.rs
+++ b/src/unsafe_api.rs
@@ -1,5 +1,4 @@
 use crate::{ConcurrentElement, ConcurrentVec};
-use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -43,7 +42,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.get_raw())
             }
             false => None,
         }
@@ -159,7 +158,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = self.core.get(i);
-                maybe.and_then(|x| x.0.as_ref_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.as_ref())
             }
             false => None,
         }
@@ -270,7 +269,7 @@ where
     /// ```
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let x = self.core.iter(self.reserved_len());
-        x.flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+        x.flat_map(|x| unsafe { x.0.as_ref() })
     }
 
     // mut
@@ -308,7 +307,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_mut_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.get_raw_mut())
             }
             false => None,
         }
-- 
2.43.0


From c12c5111d092e7d7e44a5426a0016b3cd094ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 05/10] fix: extending by a huge number of items overflows the
 reserved length

fetch_add wraps around, after which positions of existing elements are
handed out again. Reject sizes the vector can never hold before reserving.
---
 src/grow.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/grow.rs b/src/grow.rs
index c433a0d..f1fd03c 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -311,6 +311,7 @@ where
         Iter: Iterator<Item = T> + ExactSizeIterator,
         F: FnOnce(usize) -> IntoIter,
     {
+        self.assert_can_ever_hold(num_items);
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = f(begin_idx).into_iter();
@@ -432,6 +433,7 @@ where
     where
         IntoIter: IntoIterator<Item = T>,
     {
+        self.assert_can_ever_hold(num_items);
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = values.into_iter();
@@ -447,4 +449,14 @@ where
 
         begin_idx
     }
+
+    /// Panics if the vector can never have `num_items` elements; otherwise, reserving
+    /// this many positions could overflow the number of reserved positions.
+    #[inline(always)]
+    fn assert_can_ever_hold(&self, num_items: usize) {
+        assert!(
+            num_items <= self.maximum_capacity(),
+            "number of items to be added exceeds the maximum capacity"
+        );
+    }
 }
-- 
2.43.0


From 3e97acad8ed8a83a2ea6827f4fec1ad1519a7a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 06/10] fix: sharing a ConcurrentVec among threads requires T:
 Send

Values can be moved in and out through a shared reference.
---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 6c30338..87bd375 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -421,7 +421,7 @@ where
     }
 }
 
-unsafe impl<T: Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
+unsafe impl<T: Send + Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
     for ConcurrentVec<T, P>
 {
 }
-- 
2.43.0


From 3230830579c092babca5f9a0376f239190a08323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 07/10] fix: push_for_idx blocks other threads forever if the
 closure panics

The reserved position at the capacity boundary has to be made available
(i.e., the vector has to grow) before running the user provided closure, as
threads waiting for this growth would otherwise never be released.
---
 src/grow.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grow.rs b/src/grow.rs
index f1fd03c..7bcd1ad 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -156,10 +156,13 @@ where
         F: FnOnce(usize) -> T,
     {
         let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);
-        let value = f(idx);
 
         // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
         let maybe = unsafe { self.core.single_item_as_ref(idx) };
+
+        // f might panic; therefore, it must be called after the position is made available,
+        // threads waiting for the growth would otherwise wait forever
+        let value = f(idx);
         unsafe { maybe.0.initialize_unchecked(value) };
 
         idx
-- 
2.43.0


From fe078134189058664b188013969ca7d5a464c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 08/10] fix: consuming a vector after a failed growth call
 exceeds its elements

A call exceeding the maximum capacity leaves the number of reserved positions
larger than the number of elements, even larger than the capacity; into_inner,
into_iter and to_vec used it as the length of the pinned vector.
---
 src/helpers.rs | 12 ++++++++++++
 src/vec.rs     |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index 5d69cb2..31c1467 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -18,4 +18,16 @@ where
     pub(crate) fn len_written(&self) -> &AtomicUsize {
         &self.core.state().len_written
     }
+
+    /// Length of the vector excluding the trailing positions which were reserved but never written,
+    /// such as the positions reserved by calls exceeding the maximum capacity.
+    ///
+    /// Must be used only when there is no concurrent growth.
+    pub(crate) fn len_without_trailing_gap(&self) -> usize {
+        let mut len = self.reserved_len();
+        while len > 0 && unsafe { self.core.get(len - 1) }.map_or(true, |x| x.0.is_none()) {
+            len -= 1;
+        }
+        len
+    }
 }
diff --git a/src/vec.rs b/src/vec.rs
index 87bd375..9b5e194 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -85,7 +85,7 @@ where
     /// Any `PinnedVec` implementation can be converted to a `ConcurrentVec` using the `From` trait.
     /// Similarly, underlying pinned vector can be obtained by calling the consuming `into_inner` method.
     pub fn into_inner(self) -> P {
-        let len = self.core.state().len();
+        let len = self.len_without_trailing_gap();
         // # SAFETY: ConcurrentBag only allows to push to the end of the bag, keeping track of the length.
         // Therefore, the underlying pinned vector is in a valid condition at any given time.
         unsafe { self.core.into_inner(len) }
-- 
2.43.0


From 7654564208c1217ab1dba6774ca659718ba54fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 09/10] fix: clear leaves dropped elements or an unusable
 vector behind

With a FixedVec, cleared elements kept their state and were dropped again;
with a SplitVec, reserve_maximum_capacity panicked after clear; and the number
of reserved positions could exceed the capacity after a failed growth call.
---
 src/exclusive.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index b7085e2..c93e725 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -1,4 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use orx_pinned_concurrent_col::PinnedConcurrentCol;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -7,7 +8,9 @@ where
 {
     /// Clears the concurrent bag.
     pub fn clear(&mut self) {
-        unsafe { self.core.clear(self.core.state().len()) };
+        let mut pinned_vec = self.take_pinned_vec();
+        pinned_vec.clear();
+        self.core = PinnedConcurrentCol::new_from_pinned(pinned_vec);
     }
 
     /// Note that [`ConcurrentVec::maximum_capacity`] returns the maximum possible number of elements that the underlying pinned vector can grow to without reserving maximum capacity.
@@ -33,4 +36,13 @@ where
                 .reserve_maximum_capacity(self.core.state().len(), new_maximum_capacity)
         }
     }
+
+    /// Takes the underlying pinned vector out, leaving an empty one in its place.
+    fn take_pinned_vec(&mut self) -> P {
+        let len = self.len_without_trailing_gap();
+        let empty = PinnedConcurrentCol::new_from_pinned(P::pseudo_default());
+        let core = core::mem::replace(&mut self.core, empty);
+        // # SAFETY: all elements which were added to the vector are in positions 0..len.
+        unsafe { core.into_inner(len) }
+    }
 }
-- 
2.43.0


From bbb02c61ebea4ab5020df6a1419f74d40d5b4b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 10/10] fix: reserve_maximum_capacity of a FixedVec leaves
 dangling references to freed memory

Reserving can move the elements while the concurrent view of the fixed vector
keeps reading from and writing to the old, freed allocation. Further, it used
the number of reserved positions as the length, which might exceed the capacity.
---
 src/exclusive.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index c93e725..b6c1391 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -1,4 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use core::sync::atomic::Ordering;
 use orx_pinned_concurrent_col::PinnedConcurrentCol;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -8,7 +9,7 @@ where
 {
     /// Clears the concurrent bag.
     pub fn clear(&mut self) {
-        let mut pinned_vec = self.take_pinned_vec();
+        let mut pinned_vec = self.take_pinned_vec(self.len_without_trailing_gap());
         pinned_vec.clear();
         self.core = PinnedConcurrentCol::new_from_pinned(pinned_vec);
     }
@@ -31,15 +32,23 @@ where
     ///
     /// This method can safely be called if entries in all positions 0..len are written.
     pub fn reserve_maximum_capacity(&mut self, new_maximum_capacity: usize) -> usize {
-        unsafe {
+        let (len, len_written) = (self.len_without_trailing_gap(), self.len());
+        let maximum_capacity = unsafe {
             self.core
-                .reserve_maximum_capacity(self.core.state().len(), new_maximum_capacity)
-        }
+                .reserve_maximum_capacity(len, new_maximum_capacity)
+        };
+
+        // the reservation might have moved the elements;
+        // hence, the concurrent representation of the pinned vector must be renewed
+        let pinned_vec = self.take_pinned_vec(len);
+        self.core = PinnedConcurrentCol::new_from_pinned(pinned_vec);
+        self.len_written().store(len_written, Ordering::Release);
+
+        maximum_capacity
     }
 
     /// Takes the underlying pinned vector out, leaving an empty one in its place.
-    fn take_pinned_vec(&mut self) -> P {
-        let len = self.len_without_trailing_gap();
+    fn take_pinned_vec(&mut self, len: usize) -> P {
         let empty = PinnedConcurrentCol::new_from_pinned(P::pseudo_default());
         let core = core::mem::replace(&mut self.core, empty);
         // # SAFETY: all elements which were added to the vector are in positions 0..len.
-- 
2.43.0

