From 4b42eba9db49eb428be82c07089c16c3155357f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 1/5] sim: overridable thresholds behind --cfg
 ndarray_slice_sim

---
 src/lib.rs            | 16 ++++++++++++++++
 src/merge_sort.rs     |  5 +++--
 src/par/merge_sort.rs | 11 +++++++----
 src/par/partition.rs  |  4 ++--
 src/par/quick_sort.rs |  4 ++--
 src/partition.rs      |  2 +-
 src/quick_sort.rs     |  2 +-
 src/sim.rs            | 34 ++++++++++++++++++++++++++++++++++
 8 files changed, 66 insertions(+), 12 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index b5ba6de..3e3ebfb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -75,6 +75,7 @@
 	rustdoc::missing_crate_level_docs
 )]
 #![cfg_attr(not(feature = "std"), no_std)]
+#![allow(unexpected_cfgs)]
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
 #![cfg_attr(miri, feature(maybe_uninit_slice))]
 
@@ -90,6 +91,21 @@ fn maybe_grow<R, F: FnOnce() -> R>(callback: F) -> R {
 	}
 }
 
+/// Expands to the given threshold, unless built for simulation, where it may be overridden.
+macro_rules! tunable {
+	($knob:ident, $default:expr) => {{
+		#[cfg(ndarray_slice_sim)]
+		let value = crate::sim::$knob.get($default);
+		#[cfg(not(ndarray_slice_sim))]
+		let value = $default;
+		value
+	}};
+}
+
+#[cfg(ndarray_slice_sim)]
+#[doc(hidden)]
+pub mod sim;
+
 mod heap_sort;
 mod insertion_sort;
 mod merge_sort;
diff --git a/src/merge_sort.rs b/src/merge_sort.rs
index 519ad7b..ee79d95 100644
--- a/src/merge_sort.rs
+++ b/src/merge_sort.rs
@@ -385,9 +385,10 @@ pub fn merge_sort<T, CmpF, ElemAllocF, ElemDeallocF, RunAllocF, RunDeallocF>(
 			// Most slices can be sorted with at most 16 runs in-flight.
 			const START_RUN_CAPACITY: usize = 16;
 
+			let capacity = tunable!(RUN_CAPACITY, START_RUN_CAPACITY);
 			Self {
-				buf_ptr: ptr::NonNull::new(run_alloc_fn(START_RUN_CAPACITY)).unwrap(),
-				capacity: START_RUN_CAPACITY,
+				buf_ptr: ptr::NonNull::new(run_alloc_fn(capacity)).unwrap(),
+				capacity,
 				len: 0,
 				run_alloc_fn,
 				run_dealloc_fn,
diff --git a/src/par/merge_sort.rs b/src/par/merge_sort.rs
index 41abc60..7b53c17 100644
--- a/src/par/merge_sort.rs
+++ b/src/par/merge_sort.rs
@@ -584,7 +584,10 @@ unsafe fn par_merge<T, F>(
 		dest_start: 0,
 	};
 
-	if left_len == 0 || right_len == 0 || left_len + right_len < MAX_SEQUENTIAL {
+	if left_len == 0
+		|| right_len == 0
+		|| left_len + right_len < tunable!(PAR_MERGE_SEQUENTIAL, MAX_SEQUENTIAL)
+	{
 		while s.left_start < s.left.len() && s.right_start < s.right.len() {
 			// Consume the lesser side.
 			// If equal, prefer the left run to maintain stability.
@@ -847,7 +850,7 @@ where
 	let buf = buf.as_mut_ptr();
 
 	// If the slice is not longer than one chunk would be, do sequential merge sort and return.
-	if len <= CHUNK_LENGTH {
+	if len <= tunable!(PAR_CHUNK_LENGTH, CHUNK_LENGTH) {
 		let res = unsafe { merge_sort(v.view_mut(), buf, &is_less) };
 		if res == MergesortResult::Descending {
 			reverse(v.view_mut());
@@ -864,7 +867,7 @@ where
 		let is_less = &is_less;
 
 		// akin par_bridge().map().collect() but order-preserving
-		let chunks_iter = v.axis_chunks_iter_mut(Axis(0), CHUNK_LENGTH);
+		let chunks_iter = v.axis_chunks_iter_mut(Axis(0), tunable!(PAR_CHUNK_LENGTH, CHUNK_LENGTH));
 		let len = chunks_iter.len();
 		let mut chunks = Vec::with_capacity(len);
 		chunks_iter
@@ -873,7 +876,7 @@ where
 			.par_bridge()
 			//.with_max_len(1)
 			.for_each(move |((i, chunk), out)| {
-				let l = CHUNK_LENGTH * i;
+				let l = tunable!(PAR_CHUNK_LENGTH, CHUNK_LENGTH) * i;
 				let r = l + chunk.len();
 				unsafe {
 					let buf = buf.get().add(l);
diff --git a/src/par/partition.rs b/src/par/partition.rs
index 5309cce..9db8154 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -48,7 +48,7 @@ pub fn par_partition_at_indices<'a, T, F>(
 
 		let (left_values, right_values) = values.split_at_mut(at);
 		let right_values = &mut right_values[1..];
-		if at == 0 || pivot - offset <= MAX_SEQUENTIAL {
+		if at == 0 || pivot - offset <= tunable!(PAR_SELECT_SEQUENTIAL, MAX_SEQUENTIAL) {
 			maybe_grow(|| {
 				par_partition_at_indices(left, offset, left_indices, left_values, is_less)
 			});
@@ -146,7 +146,7 @@ fn partition_at_index_loop<'a, T, F>(
 	// The exact value of the limit is chosen somewhat arbitrarily, but for most inputs bad pivot
 	// selections should be relatively rare, so the limit usually shouldn't be reached
 	// anyways.
-	let mut limit = 16;
+	let mut limit = tunable!(SELECT_LIMIT, 16);
 
 	// True if the last partitioning was reasonably balanced.
 	let mut was_balanced = true;
diff --git a/src/par/quick_sort.rs b/src/par/quick_sort.rs
index 7f897a5..e8c2d61 100644
--- a/src/par/quick_sort.rs
+++ b/src/par/quick_sort.rs
@@ -26,7 +26,7 @@ where
 	}
 
 	// Limit the number of imbalanced partitions to `floor(log2(len)) + 1`.
-	let limit = usize::BITS - v.len().leading_zeros();
+	let limit = tunable!(SORT_LIMIT, usize::BITS - v.len().leading_zeros());
 
 	recurse(v, &is_less, None, limit);
 }
@@ -119,7 +119,7 @@ fn recurse<'a, T, F>(
 		let (pivot, right) = right.split_at(Axis(0), 1);
 		let pivot = pivot.index(0);
 
-		if cmp::max(left.len(), right.len()) <= MAX_SEQUENTIAL {
+		if cmp::max(left.len(), right.len()) <= tunable!(PAR_SORT_SEQUENTIAL, MAX_SEQUENTIAL) {
 			// Recurse into the shorter side only in order to minimize the total number of recursive
 			// calls and consume less stack space. Then just continue with the longer side (this is
 			// akin to tail recursion).
diff --git a/src/partition.rs b/src/partition.rs
index 5b9a689..641dad0 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -107,7 +107,7 @@ fn partition_at_index_loop<'a, T, F>(
 	// The exact value of the limit is chosen somewhat arbitrarily, but for most inputs bad pivot
 	// selections should be relatively rare, so the limit usually shouldn't be reached
 	// anyways.
-	let mut limit = 16;
+	let mut limit = tunable!(SELECT_LIMIT, 16);
 
 	// True if the last partitioning was reasonably balanced.
 	let mut was_balanced = true;
diff --git a/src/quick_sort.rs b/src/quick_sort.rs
index a5c3971..f3f2a75 100644
--- a/src/quick_sort.rs
+++ b/src/quick_sort.rs
@@ -23,7 +23,7 @@ where
 	}
 
 	// Limit the number of imbalanced partitions to `floor(log2(len)) + 1`.
-	let limit = usize::BITS - v.len().leading_zeros();
+	let limit = tunable!(SORT_LIMIT, usize::BITS - v.len().leading_zeros());
 
 	recurse(v, &mut is_less, None, limit);
 }
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..20823af
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,34 @@
+//! Overrides of internal thresholds, only built with `--cfg ndarray_slice_sim`.
+
+#![allow(missing_docs)]
+
+use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
+
+/// A threshold that can be overridden, `usize::MAX` stands for the built-in default.
+#[derive(Debug)]
+pub struct Knob(AtomicUsize);
+
+impl Knob {
+	const fn new() -> Self {
+		Self(AtomicUsize::new(usize::MAX))
+	}
+	/// Overrides the threshold, or restores the default with `usize::MAX`.
+	pub fn set(&self, value: usize) {
+		self.0.store(value, Relaxed);
+	}
+	/// The threshold in effect.
+	pub fn get<T: TryFrom<usize>>(&self, default: T) -> T {
+		match self.0.load(Relaxed) {
+			usize::MAX => default,
+			value => T::try_from(value).unwrap_or(default),
+		}
+	}
+}
+
+pub static PAR_CHUNK_LENGTH: Knob = Knob::new();
+pub static PAR_MERGE_SEQUENTIAL: Knob = Knob::new();
+pub static PAR_SORT_SEQUENTIAL: Knob = Knob::new();
+pub static PAR_SELECT_SEQUENTIAL: Knob = Knob::new();
+pub static SORT_LIMIT: Knob = Knob::new();
+pub static SELECT_LIMIT: Knob = Knob::new();
+pub static RUN_CAPACITY: Knob = Knob::new();
-- 
2.43.0


From fdd04f8b6f6981b3af7408b73d0829c60c688123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 2/5] fix: keep old run stack capacity if growing it fails

---
 src/merge_sort.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/merge_sort.rs b/src/merge_sort.rs
index ee79d95..478f74c 100644
--- a/src/merge_sort.rs
+++ b/src/merge_sort.rs
@@ -400,8 +400,11 @@ pub fn merge_sort<T, CmpF, ElemAllocF, ElemDeallocF, RunAllocF, RunDeallocF>(
 				let old_capacity = self.capacity;
 				let old_buf_ptr = self.buf_ptr.as_ptr();
 
-				self.capacity *= 2;
-				self.buf_ptr = ptr::NonNull::new((self.run_alloc_fn)(self.capacity)).unwrap();
+				// Don't touch `self` until the allocation succeeded as otherwise unwinding would
+				// deallocate the old buffer with the new capacity.
+				let new_capacity = old_capacity * 2;
+				self.buf_ptr = ptr::NonNull::new((self.run_alloc_fn)(new_capacity)).unwrap();
+				self.capacity = new_capacity;
 
 				// SAFETY: buf_ptr new and old were correctly allocated and old_buf_ptr has
 				// old_capacity valid elements.
-- 
2.43.0


From e825e357f778cfe821013d785e4a84f8772d7a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 3/5] fix: never call `median_of_ninthers` with less than 12
 elements

---
 src/par/partition.rs | 4 +++-
 src/partition.rs     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index 9db8154..3c41fbc 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -20,7 +20,9 @@ use ndarray::{ArrayView1, ArrayViewMut1, Axis, IndexLonger, s};
 
 // For slices of up to this length it's probably faster to simply sort them.
 // Defined at the module scope because it's used in multiple functions.
-const MAX_INSERTION: usize = 10;
+//
+// Must be at least 11 as `median_of_ninthers` requires slices of 12 or more elements.
+const MAX_INSERTION: usize = 16;
 
 pub fn par_partition_at_indices<'a, T, F>(
 	mut v: ArrayViewMut1<'a, T>,
diff --git a/src/partition.rs b/src/partition.rs
index 641dad0..d0a8f6e 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -15,7 +15,9 @@ use ndarray::{ArrayView1, ArrayViewMut1, Axis, IndexLonger, s};
 
 // For slices of up to this length it's probably faster to simply sort them.
 // Defined at the module scope because it's used in multiple functions.
-const MAX_INSERTION: usize = 10;
+//
+// Must be at least 11 as `median_of_ninthers` requires slices of 12 or more elements.
+const MAX_INSERTION: usize = 16;
 
 pub fn partition_at_indices<'a, T, E, F>(
 	mut v: ArrayViewMut1<'a, T>,
-- 
2.43.0


From 8c9611c87c33ec94558e8e8a69bc8fa3b36ad2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 4/5] fix: linear worst-case of selection fallback with many
 duplicates

---
 src/par/partition.rs | 14 ++++++++++----
 src/partition.rs     | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index 3c41fbc..c2aafbb 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -266,11 +266,17 @@ fn median_of_medians<T, F: Fn(&T, &T) -> bool>(
 				v = left;
 			}
 			Less => {
-				// Since `p < k < v.len()`, `p + 1` doesn't overflow and is
-				// a valid index into the slice.
-				let (_left, right) = v.split_at(Axis(0), p + 1);
+				// No element from `p` on is less than the pivot. Skip all elements equal to it, as
+				// otherwise many duplicates would be discarded one by one in *O*(*n*) time each.
+				let (_left, mut right) = v.split_at(Axis(0), p);
+				let mid = partition_equal(right.view_mut(), 0, is_less);
+				k -= p;
+				if k < mid {
+					return;
+				}
+				let (_equal, right) = right.split_at(Axis(0), mid);
 				v = right;
-				k -= p + 1;
+				k -= mid;
 			}
 		}
 	}
diff --git a/src/partition.rs b/src/partition.rs
index d0a8f6e..6a47850 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -227,11 +227,17 @@ fn median_of_medians<T, F: FnMut(&T, &T) -> bool>(
 				v = left;
 			}
 			Less => {
-				// Since `p < k < v.len()`, `p + 1` doesn't overflow and is
-				// a valid index into the slice.
-				let (_left, right) = v.split_at(Axis(0), p + 1);
+				// No element from `p` on is less than the pivot. Skip all elements equal to it, as
+				// otherwise many duplicates would be discarded one by one in *O*(*n*) time each.
+				let (_left, mut right) = v.split_at(Axis(0), p);
+				let mid = partition_equal(right.view_mut(), 0, is_less);
+				k -= p;
+				if k < mid {
+					return;
+				}
+				let (_equal, right) = right.split_at(Axis(0), mid);
 				v = right;
-				k -= p + 1;
+				k -= mid;
 			}
 		}
 	}
-- 
2.43.0


From c54c5512ecbb2ad410f00b766ffd9229516ddfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 5/5] fix: count imbalanced partitions across joins in
 `par_quick_sort`

---
 src/par/quick_sort.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/par/quick_sort.rs b/src/par/quick_sort.rs
index e8c2d61..fa94e3d 100644
--- a/src/par/quick_sort.rs
+++ b/src/par/quick_sort.rs
@@ -28,7 +28,7 @@ where
 	// Limit the number of imbalanced partitions to `floor(log2(len)) + 1`.
 	let limit = tunable!(SORT_LIMIT, usize::BITS - v.len().leading_zeros());
 
-	recurse(v, &is_less, None, limit);
+	recurse(v, &is_less, None, limit, true);
 }
 
 /// Sorts `v` recursively.
@@ -37,11 +37,14 @@ where
 ///
 /// `limit` is the number of allowed imbalanced partitions before switching to `heap_sort`. If zero,
 /// this function will immediately switch to heapsort.
+///
+/// `was_balanced` is whether the partitioning `v` results from was reasonably balanced.
 fn recurse<'a, T, F>(
 	mut v: ArrayViewMut1<'a, T>,
 	is_less: &F,
 	mut pred: Option<&'a mut T>,
 	mut limit: u32,
+	mut was_balanced: bool,
 ) where
 	T: Send,
 	F: Fn(&T, &T) -> bool + Sync,
@@ -52,8 +55,6 @@ fn recurse<'a, T, F>(
 	// as possible but so that the overhead of Rayon's task scheduling is still negligible.
 	const MAX_SEQUENTIAL: usize = 2000;
 
-	// True if the last partitioning was reasonably balanced.
-	let mut was_balanced = true;
 	// True if the last partitioning didn't shuffle elements (the slice was already partitioned).
 	let mut was_partitioned = true;
 
@@ -124,18 +125,19 @@ fn recurse<'a, T, F>(
 			// calls and consume less stack space. Then just continue with the longer side (this is
 			// akin to tail recursion).
 			if left.len() < right.len() {
-				maybe_grow(|| recurse(left, is_less, pred, limit));
+				maybe_grow(|| recurse(left, is_less, pred, limit, true));
 				v = right;
 				pred = Some(pivot);
 			} else {
-				maybe_grow(|| recurse(right, is_less, Some(pivot), limit));
+				maybe_grow(|| recurse(right, is_less, Some(pivot), limit, true));
 				v = left;
 			}
 		} else {
-			// Sort the left and right half in parallel.
+			// Sort the left and right half in parallel. Either may be the longer side, so both have
+			// to account for an imbalanced partitioning.
 			rayon::join(
-				|| maybe_grow(|| recurse(left, is_less, pred, limit)),
-				|| maybe_grow(|| recurse(right, is_less, Some(pivot), limit)),
+				|| maybe_grow(|| recurse(left, is_less, pred, limit, was_balanced)),
+				|| maybe_grow(|| recurse(right, is_less, Some(pivot), limit, was_balanced)),
 			);
 			break;
 		}
-- 
2.43.0

