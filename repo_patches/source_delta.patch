From 63e72f412ecd42e661e09e95fe25e31a094b8b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:52 +0000
Subject: [PATCH 01/37] fix: clip slice bounds like Python's slice.indices in
 dim_narrow

---
 rstsr-common/src/layout/indexer.rs | 71 ++++++++----------------------
 1 file changed, 19 insertions(+), 52 deletions(-)

diff --git a/rstsr-common/src/layout/indexer.rs b/rstsr-common/src/layout/indexer.rs
index fdb4ef9..44bae05 100644
--- a/rstsr-common/src/layout/indexer.rs
+++ b/rstsr-common/src/layout/indexer.rs
@@ -142,60 +142,27 @@ where
             return Ok(self.clone());
         }
 
-        if step > 0 {
-            // default start = 0 and stop = len_prev
-            let mut start = slice.start().unwrap_or(0);
-            let mut stop = slice.stop().unwrap_or(len_prev);
-
-            // handle negative slice
-            if start < 0 {
-                start = (len_prev + start).max(0);
-            }
-            if stop < 0 {
-                stop = (len_prev + stop).max(0);
-            }
-
-            if start > len_prev || start > stop {
-                // zero size slice caused by inproper start and stop
-                start = 0;
-                stop = 0;
-            } else if stop > len_prev {
-                // stop is out of bound, set it to len_prev
-                stop = len_prev;
-            }
-
-            let offset = (self.offset() as isize + stride[axis] * start) as usize;
-            shape[axis] = ((stop - start + step - 1) / step).max(0) as usize;
-            stride[axis] *= step;
-            return Self::new(shape, stride, offset);
+        // clip start and stop into valid range (same to python's `slice.indices`)
+        // - step > 0: positions clipped to [0, len_prev], default is the whole range forward
+        // - step < 0: positions clipped to [-1, len_prev - 1], default is the whole range backward
+        let (lower, upper) = if step > 0 { (0, len_prev) } else { (-1, len_prev - 1) };
+        let (start_default, stop_default) = if step > 0 { (lower, upper) } else { (upper, lower) };
+        let clip = |pos: isize| (if pos < 0 { pos + len_prev } else { pos }).clamp(lower, upper);
+        let start = slice.start().map_or(start_default, clip);
+        let stop = slice.stop().map_or(stop_default, clip);
+
+        if (step > 0 && start < stop) || (step < 0 && stop < start) {
+            shape[axis] = (start.abs_diff(stop) - 1) / step.unsigned_abs() + 1;
         } else {
-            // step < 0
-            // default start = len_prev - 1 and stop = -1
-            let mut start = slice.start().unwrap_or(len_prev - 1);
-            let mut stop = slice.stop().unwrap_or(-1);
-
-            // handle negative slice
-            if start < 0 {
-                start = (len_prev + start).max(0);
-            }
-            if stop < -1 {
-                stop = (len_prev + stop).max(-1);
-            }
-
-            if stop > len_prev - 1 || stop > start {
-                // zero size slice caused by inproper start and stop
-                start = 0;
-                stop = 0;
-            } else if start > len_prev - 1 {
-                // start is out of bound, set it to len_prev
-                start = len_prev - 1;
-            }
-
-            let offset = (self.offset() as isize + stride[axis] * start) as usize;
-            shape[axis] = ((stop - start + step + 1) / step).max(0) as usize;
-            stride[axis] *= step;
-            return Self::new(shape, stride, offset);
+            // zero size slice: offset is kept unchanged
+            shape[axis] = 0;
         }
+        let start = if shape[axis] == 0 { 0 } else { start };
+
+        let offset = (self.offset() as isize + stride[axis] * start) as usize;
+        // step can be larger than any valid stride if no more than one element is left
+        stride[axis] = stride[axis].saturating_mul(step);
+        return Self::new(shape, stride, offset);
     }
 }
 
-- 
2.43.0


From 961ef3d8439678ebc95b6bd2e013330600d555e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:26 +0000
Subject: [PATCH 02/37] fix: bound positive diagonal offsets by the second
 axis, reject equal axes

---
 rstsr-common/src/layout/layoutbase.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 9f82be2..75cf923 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -336,6 +336,7 @@ where
         let axis2 = axis2.unwrap_or(1);
         let axis1 = rstsr_check_axis!(axis1, self.ndim())?;
         let axis2 = rstsr_check_axis!(axis2, self.ndim())?;
+        rstsr_assert!(axis1 != axis2, InvalidValue, "axis1 and axis2 of diagonal should be different.")?;
 
         // shape and strides of last two dimensions
         let d1 = self.shape()[axis1] as isize;
@@ -349,12 +350,13 @@ where
         // while i + |k| < d1 (rows), i.e. |k| < d1, i.e. offset in (-d1, 0). Use
         // (-d1 + 1..0) so a non-square matrix with more rows than cols reaches its
         // lower sub-diagonals (square matrices are unaffected, d1 == d2).
+        // For a non-negative offset the element is A[i, i + k], valid while k < d2 (cols).
         let (offset_diag, d_diag) = if (-d1 + 1..0).contains(&offset) {
             let offset = -offset;
             let offset_diag = (self.offset() as isize + t1 * offset) as usize;
             let d_diag = (d1 - offset).min(d2) as usize;
             (offset_diag, d_diag)
-        } else if (0..d1).contains(&offset) {
+        } else if (0..d2).contains(&offset) {
             let offset_diag = (self.offset() as isize + t2 * offset) as usize;
             let d_diag = (d2 - offset).min(d1) as usize;
             (offset_diag, d_diag)
-- 
2.43.0


From f2873e495321c3bc78eb168823ad7f32917ac7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:26 +0000
Subject: [PATCH 03/37] fix: reshape with -1 next to a zero or overflowing
 extent returns an error instead of panicking

---
 rstsr-common/src/layout/reshape.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/reshape.rs b/rstsr-common/src/layout/reshape.rs
index 525ac4f..d2ff32c 100644
--- a/rstsr-common/src/layout/reshape.rs
+++ b/rstsr-common/src/layout/reshape.rs
@@ -138,9 +138,11 @@ pub fn reshape_substitute_negatives(shape_out: &[isize], size_in: usize) -> Resu
     // substitute negative index
     if let Some(idx_neg1) = idx_neg1 {
         let size_in = size_in as isize;
-        let size_neg = shape.iter().fold(1, |acc, &v| if v == -1 { acc } else { acc * v });
+        // `None` if the product overflows; zero can not determine the size of axis `-1`
+        let size_neg = shape.iter().try_fold(1isize, |acc, &v| if v == -1 { Some(acc) } else { acc.checked_mul(v) });
+        let size_neg = size_neg.unwrap_or(0);
         rstsr_assert!(
-            size_in % size_neg == 0,
+            size_neg != 0 && size_in % size_neg == 0,
             InvalidValue,
             "Shape '-1' in {:?} could not be determined to original tensor size {:?}",
             shape,
-- 
2.43.0


From b25bca3521d9c86a6808ef15b7f43409c08dc532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:42 +0000
Subject: [PATCH 04/37] fix: sequential-memory iteration order starts at the
 lowest address and rejects broadcast layouts

---
 rstsr-common/src/layout/rearrangement.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rstsr-common/src/layout/rearrangement.rs b/rstsr-common/src/layout/rearrangement.rs
index 0464e7f..fd80b5b 100644
--- a/rstsr-common/src/layout/rearrangement.rs
+++ b/rstsr-common/src/layout/rearrangement.rs
@@ -169,10 +169,14 @@ where
     let fn_c = |l: &Layout<D>| Ok(l.reverse_axes());
     let fn_f = |l: &Layout<D>| Ok(l.clone());
     let fn_b = |l: &Layout<D>| {
+        if l.ndim() == 0 {
+            return Ok(l.clone());
+        }
         let (bounds_min, bounds_max) = l.bounds_index()?;
-        rstsr_assert_eq!(
-            bounds_max - bounds_min,
-            l.size(),
+        // broadcasted axes visit the same memory repeatedly, which is never sequential
+        let is_broadcasted = l.size() != l.size_non_broadcast();
+        rstsr_assert!(
+            !is_broadcasted && bounds_max - bounds_min == l.size(),
             InvalidLayout,
             "Data in this layout could not be represented as sequential memory."
         )?;
@@ -184,7 +188,7 @@ where
             shape[i] = 1;
             stride[i] = l.size() as isize;
         }
-        Ok(unsafe { Layout::new_unchecked(shape, stride, l.offset()) })
+        Ok(unsafe { Layout::new_unchecked(shape, stride, bounds_min) })
     };
     match order {
         Order::C => fn_c(layout),
@@ -253,8 +257,8 @@ where
             if c_contig || f_contig {
                 fn_single(layouts, Order::B)
             } else {
-                let c_prefer = layouts.iter().all(|&l| l.c_contig());
-                let f_prefer = layouts.iter().all(|&l| l.f_contig());
+                let c_prefer = layouts.iter().all(|&l| l.c_prefer());
+                let f_prefer = layouts.iter().all(|&l| l.f_prefer());
                 match (c_prefer, f_prefer) {
                     (true, false) => fn_single(layouts, Order::C),
                     (false, true) => fn_single(layouts, Order::F),
-- 
2.43.0


From aebc8db4d321be13bdb8b003ec9700f27b327736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:25 +0000
Subject: [PATCH 05/37] fix: reduction along axes of broadcast tensors

---
 rstsr-native-impl/src/cpu_rayon/reduction.rs  | 16 +++++++++++++---
 rstsr-native-impl/src/cpu_serial/reduction.rs | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index 3182a57..721fb52 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -149,8 +149,17 @@ where
     // summed axes are used together with remaining axes, where offset of layout may double-counted.
     let offset = la.offset();
 
+    // nothing to be reduced, every output element (if any) is the initial value
+    if la.size() == 0 {
+        let lo = layout_for_array_copy(&lm, TensorIterOrder::default())?;
+        let out = (0..lo.size()).map(|_| f_out(init())).collect_vec();
+        return Ok((out, lo));
+    }
+
     // create output layout
-    let lo = layout_for_array_copy(&lm, TensorIterOrder::K)?;
+    // - broadcasted axes are moved to last, so that contiguous part of `lm` is also contiguous in output
+    let (_, lm_permute) = greedy_layout(&lm, false);
+    let lo = lm.transpose(&lm_permute)?.shape().f().transpose(&reversed_permute(&lm_permute))?;
     let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
 
     // extract contiguous part and its corresponding dimensions
@@ -159,7 +168,7 @@ where
     let (_am1, am0, amc, amd) = get_axes_composition(&lm);
 
     // get some specific sizes of different parts
-    let size_s0 = as0.iter().map(|&i| lm.shape()[i]).product::<usize>();
+    let size_s0 = as0.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_sc = asc.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
@@ -290,7 +299,7 @@ where
 
             it_o0.for_each(|idx_o0| {
                 it_ocd.clone().for_each(|idx_ocd| {
-                    let idx_o0 = idx_o0 + idx_ocd - offset; // double-counted offset
+                    let idx_o0 = idx_o0 + idx_ocd;
 
                     // Safety: the c/d part without broadcast should have been initialized by reduced value
                     let val = unsafe { out[idx_ocd].assume_init_read().clone() };
@@ -321,6 +330,7 @@ where
             };
             op_muta_refb_func_cpu_rayon(&mut out_default, &lo_default, &out, &lo, &mut func, pool)?;
             out = unsafe { transmute::<Vec<MaybeUninit<TO>>, Vec<TO>>(out_default) };
+            return Ok((out, lo_default));
         }
     }
 
diff --git a/rstsr-native-impl/src/cpu_serial/reduction.rs b/rstsr-native-impl/src/cpu_serial/reduction.rs
index 3c5b6ee..2c5b956 100644
--- a/rstsr-native-impl/src/cpu_serial/reduction.rs
+++ b/rstsr-native-impl/src/cpu_serial/reduction.rs
@@ -213,8 +213,17 @@ where
     // summed axes are used together with remaining axes, where offset of layout may double-counted.
     let offset = la.offset();
 
+    // nothing to be reduced, every output element (if any) is the initial value
+    if la.size() == 0 {
+        let lo = layout_for_array_copy(&lm, TensorIterOrder::default())?;
+        let out = (0..lo.size()).map(|_| f_out(init())).collect_vec();
+        return Ok((out, lo));
+    }
+
     // create output layout
-    let lo = layout_for_array_copy(&lm, TensorIterOrder::K)?;
+    // - broadcasted axes are moved to last, so that contiguous part of `lm` is also contiguous in output
+    let (_, lm_permute) = greedy_layout(&lm, false);
+    let lo = lm.transpose(&lm_permute)?.shape().f().transpose(&reversed_permute(&lm_permute))?;
     let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
 
     // extract contiguous part and its corresponding dimensions
@@ -223,7 +232,7 @@ where
     let (_am1, am0, amc, amd) = get_axes_composition(&lm);
 
     // get some specific sizes of different parts
-    let size_s0 = as0.iter().map(|&i| lm.shape()[i]).product::<usize>();
+    let size_s0 = as0.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_sc = asc.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
@@ -339,7 +348,7 @@ where
 
         it_o0.for_each(|idx_o0| {
             it_ocd.clone().for_each(|idx_ocd| {
-                let idx_o0 = idx_o0 + idx_ocd - offset; // double-counted offset
+                let idx_o0 = idx_o0 + idx_ocd;
 
                 // Safety: the c/d part without broadcast should have been initialized by reduced value
                 let val = unsafe { out[idx_ocd].assume_init_read().clone() };
@@ -361,6 +370,7 @@ where
                 a.write(b.clone());
             })?;
             out = unsafe { transmute::<Vec<MaybeUninit<TO>>, Vec<TO>>(out_default) };
+            return Ok((out, lo_default));
         }
     }
 
-- 
2.43.0


From 31834e85fad56a6f1ac49ca8e3ca229809d1bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:38 +0000
Subject: [PATCH 06/37] fix: splitting an iterator over an empty layout does
 not divide by zero

---
 rstsr-common/src/layout/iterator.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index 1329ac6..24d6717 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -90,7 +90,10 @@ where
         let Self { layout, index_start, iter_start, offset_start, index_end, iter_end, offset_end } = self.clone();
         let shape = layout.shape();
         let iter_ins = iter_start + index;
-        let index_ins = unsafe { shape.unravel_index_f(iter_ins) };
+        let index_ins = match layout.size() {
+            0 => layout.new_shape(),
+            _ => unsafe { shape.unravel_index_f(iter_ins) },
+        };
         let offset_ins = unsafe { layout.index_uncheck(index_ins.as_ref()) };
         let split_lhs = Self {
             layout: layout.clone(),
@@ -413,7 +416,10 @@ where
         let Self { layout, index_start, iter_start, offset_start, index_end, iter_end, offset_end } = self.clone();
         let shape = layout.shape();
         let iter_ins = iter_start + index;
-        let index_ins = unsafe { shape.unravel_index_c(iter_ins) };
+        let index_ins = match layout.size() {
+            0 => layout.new_shape(),
+            _ => unsafe { shape.unravel_index_c(iter_ins) },
+        };
         let offset_ins = unsafe { layout.index_uncheck(index_ins.as_ref()) };
         let split_lhs = Self {
             layout: layout.clone(),
-- 
2.43.0


From 6451539c99ce92befcdfe1983b9abdd38a0c9015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:13 +0000
Subject: [PATCH 07/37] fix: indexed iterators report the index of the back
 element

---
 rstsr-common/src/layout/iterator.rs    | 13 +++++++-----
 rstsr-core/src/tensor/iterator_elem.rs | 28 +++++++++++++++-----------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index 24d6717..8ef43b5 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -807,11 +807,14 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start.clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start.clone(),
-        };
-        self.layout_iter.next_back().map(|offset| (index, offset))
+        // index of the back element is known after iterator stepped back
+        self.layout_iter.next_back().map(|offset| {
+            let index = match &self.layout_iter {
+                IterLayout::ColMajor(iter_inner) => iter_inner.index_end.clone(),
+                IterLayout::RowMajor(iter_inner) => iter_inner.index_end.clone(),
+            };
+            (index, offset)
+        })
     }
 }
 
diff --git a/rstsr-core/src/tensor/iterator_elem.rs b/rstsr-core/src/tensor/iterator_elem.rs
index c8703fb..17c0edc 100644
--- a/rstsr-core/src/tensor/iterator_elem.rs
+++ b/rstsr-core/src/tensor/iterator_elem.rs
@@ -209,11 +209,14 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
-        };
-        self.layout_iter.next_back().map(|offset| (index, &self.view[offset]))
+        // index of the back element is known after iterator stepped back
+        self.layout_iter.next_back().map(|offset| {
+            let index = match &self.layout_iter {
+                IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+                IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
+            };
+            (index, &self.view[offset])
+        })
     }
 }
 
@@ -309,13 +312,14 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
-        };
-        self.layout_iter
-            .next_back()
-            .map(|offset| (index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) }))
+        // index of the back element is known after iterator stepped back
+        self.layout_iter.next_back().map(|offset| {
+            let index = match &self.layout_iter {
+                IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+                IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
+            };
+            (index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) })
+        })
     }
 }
 
-- 
2.43.0


From 56885d184823a5a3a039754e4da8e54de7b61c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 08/37] fix: reject assignment of a tensor that does not fit
 the destination shape

---
 rstsr-core/src/tensor/assignment.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rstsr-core/src/tensor/assignment.rs b/rstsr-core/src/tensor/assignment.rs
index ec1ddd1..c0fb414 100644
--- a/rstsr-core/src/tensor/assignment.rs
+++ b/rstsr-core/src/tensor/assignment.rs
@@ -44,6 +44,7 @@ where
         let lb = b.layout().to_dim::<IxD>()?;
         let default_order = a.device().default_order();
         let (la_b, lb_b) = broadcast_layout_to_first(&la, &lb, default_order)?;
+        rstsr_assert_eq!(la_b, la, InvalidLayout, "cannot assign tensor of larger shape")?;
         let la_b = la_b.into_dim::<DA>()?;
         let lb_b = lb_b.into_dim::<DA>()?;
         // assign
-- 
2.43.0


From 4fcc15c4530f2216955b50398570df0243d546a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 09/37] fix: reject in-place arithmetic on broadcast
 destinations

---
 rstsr-common/src/layout/broadcast.rs                    | 4 ++--
 rstsr-core/src/tensor/operators/op_binary_arithmetic.rs | 1 +
 rstsr-core/src/tensor/operators/op_binary_assign.rs     | 1 +
 rstsr-core/src/tensor/operators/op_with_func.rs         | 2 ++
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/broadcast.rs b/rstsr-common/src/layout/broadcast.rs
index c348410..85b5671 100644
--- a/rstsr-common/src/layout/broadcast.rs
+++ b/rstsr-common/src/layout/broadcast.rs
@@ -267,9 +267,9 @@ where
 
     /// Check whether current layout has been broadcasted.
     ///
-    /// This check is done by checking whether any stride of axis is zero.
+    /// This check is done by checking whether any axis of more than one element has zero stride.
     pub fn is_broadcasted(&self) -> bool {
-        self.stride().as_ref().contains(&0)
+        self.shape().as_ref().iter().zip(self.stride().as_ref()).any(|(&n, &s)| n > 1 && s == 0)
     }
 }
 
diff --git a/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs b/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
index 8198810..1af92ce 100644
--- a/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
+++ b/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
@@ -604,6 +604,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let default_order = c.device().default_order();
+    rstsr_assert!(!lc.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
     let (lc_b, la_b) = broadcast_layout_to_first(lc, la, default_order)?;
diff --git a/rstsr-core/src/tensor/operators/op_binary_assign.rs b/rstsr-core/src/tensor/operators/op_binary_assign.rs
index 1b2af88..016e9c4 100644
--- a/rstsr-core/src/tensor/operators/op_binary_assign.rs
+++ b/rstsr-core/src/tensor/operators/op_binary_assign.rs
@@ -124,6 +124,7 @@ mod impl_binary_assign {
             let lb = b.layout();
             let default_order = a.device().default_order();
             // check layout broadcast
+            rstsr_assert!(!la.is_broadcasted(), InvalidLayout, "cannot assign to broadcasted tensor")?;
             let (la_b, lb_b) = broadcast_layout_to_first(&la.to_dim::<IxD>()?, &lb.to_dim::<IxD>()?, default_order)?;
             rstsr_assert_eq!(la_b, la.to_dim::<IxD>()?, InvalidLayout)?;
             // op provided by device
diff --git a/rstsr-core/src/tensor/operators/op_with_func.rs b/rstsr-core/src/tensor/operators/op_with_func.rs
index 2555caf..1af47f0 100644
--- a/rstsr-core/src/tensor/operators/op_with_func.rs
+++ b/rstsr-core/src/tensor/operators/op_with_func.rs
@@ -28,6 +28,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let default_order = c.device().default_order();
+    rstsr_assert!(!lc.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
     let (lc_b, la_b) = broadcast_layout_to_first(lc, la, default_order)?;
@@ -103,6 +104,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let default_order = a.device().default_order();
+    rstsr_assert!(!la.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
     let (la_b, lb_b) = broadcast_layout_to_first(la, lb, default_order)?;
-- 
2.43.0


From 7bcbdff98ead02a27674e1eaf38b3d92949d53ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:36 +0000
Subject: [PATCH 10/37] fix: broadcast part of a reduction no longer drops the
 copied element

---
 rstsr-native-impl/src/cpu_rayon/reduction.rs  | 5 ++++-
 rstsr-native-impl/src/cpu_serial/reduction.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index 721fb52..43a6137 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -300,9 +300,12 @@ where
             it_o0.for_each(|idx_o0| {
                 it_ocd.clone().for_each(|idx_ocd| {
                     let idx_o0 = idx_o0 + idx_ocd;
+                    if idx_o0 == idx_ocd {
+                        return; // already written
+                    }
 
                     // Safety: the c/d part without broadcast should have been initialized by reduced value
-                    let val = unsafe { out[idx_ocd].assume_init_read().clone() };
+                    let val = unsafe { out[idx_ocd].assume_init_ref().clone() };
                     out[idx_o0].write(val);
                 });
             });
diff --git a/rstsr-native-impl/src/cpu_serial/reduction.rs b/rstsr-native-impl/src/cpu_serial/reduction.rs
index 2c5b956..f8d4bdc 100644
--- a/rstsr-native-impl/src/cpu_serial/reduction.rs
+++ b/rstsr-native-impl/src/cpu_serial/reduction.rs
@@ -349,9 +349,12 @@ where
         it_o0.for_each(|idx_o0| {
             it_ocd.clone().for_each(|idx_ocd| {
                 let idx_o0 = idx_o0 + idx_ocd;
+                if idx_o0 == idx_ocd {
+                    return; // already written
+                }
 
                 // Safety: the c/d part without broadcast should have been initialized by reduced value
-                let val = unsafe { out[idx_ocd].assume_init_read().clone() };
+                let val = unsafe { out[idx_ocd].assume_init_ref().clone() };
                 out[idx_o0].write(val);
             });
         });
-- 
2.43.0


From 130bcc45c59c87573cdbb78c29c31c7da7a759b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:36 +0000
Subject: [PATCH 11/37] fix: batched matmul accepts operands with different
 numbers of batch axes

---
 rstsr-common/src/layout/matmul.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/matmul.rs b/rstsr-common/src/layout/matmul.rs
index 9731e12..f37ae2d 100644
--- a/rstsr-common/src/layout/matmul.rs
+++ b/rstsr-common/src/layout/matmul.rs
@@ -397,8 +397,8 @@ pub fn layout_matmul_dyn_row_major_with_lc(
         },
         (3.., 3..) => {
             // rule 7: | `..., M, K` | `..., K, N` | `..., M, N` |
-            rstsr_assert_eq!(na, nc, InvalidLayout)?;
-            rstsr_assert_eq!(nb, nc, InvalidLayout)?;
+            // batch axes of either operand may be fewer
+            rstsr_assert_eq!(na.max(nb), nc, InvalidLayout)?;
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
-- 
2.43.0


From d357496c7680cf2e1bcbb23f67192a628a23cf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:36 +0000
Subject: [PATCH 12/37] fix: naive matmul does not read the output if beta is
 zero, and writes an inner dot at the output's offset

---
 .../src/device_cpu_serial/linalg/matmul.rs    |  3 ++-
 .../src/cpu_rayon/matmul_naive.rs             |  5 ++--
 .../src/cpu_serial/matmul_naive.rs            | 23 +++++++++++--------
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/linalg/matmul.rs b/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
index 40e4e0a..fa187d3 100644
--- a/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
+++ b/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
@@ -3,6 +3,7 @@
 //! **This implementation is not optimized!**
 
 use core::ops::{Add, Mul};
+use num::Zero;
 
 use crate::prelude_dev::*;
 
@@ -16,7 +17,7 @@ where
     DC: DimAPI,
     TA: Mul<TB, Output = TC>,
     TB: Mul<TA, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
     Self: DeviceAPI<TA, Raw = Vec<TA>> + DeviceAPI<TB, Raw = Vec<TB>> + DeviceAPI<TC, Raw = Vec<TC>>,
 {
     fn matmul(
diff --git a/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs b/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
index 828661a..a143b1b 100644
--- a/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
+++ b/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
@@ -39,7 +39,8 @@ where
         (0..n).into_par_iter().for_each(|j| {
             (0..m).into_par_iter().for_each(|i| unsafe {
                 let ptr_c = c.as_ptr().offset(lc.index_uncheck(&[i, j])) as *mut TC;
-                *ptr_c = (*ptr_c).clone() * beta.clone()
+                let val_c = if beta.is_zero() { TC::zero() } else { (*ptr_c).clone() * beta.clone() };
+                *ptr_c = val_c
                     + (0..k).fold(TC::zero(), |acc, p| {
                         let val_a = a[la.index_uncheck(&[i, p]) as usize].clone();
                         let val_b = b[lb.index_uncheck(&[p, j]) as usize].clone();
@@ -88,6 +89,6 @@ where
             .unwrap_or(TC::zero())
     };
     let c_innerdot = pool.map_or_else(task, |pool| pool.install(task));
-    *c = c_innerdot * alpha + c.clone() * beta;
+    *c = if beta.is_zero() { c_innerdot * alpha } else { c_innerdot * alpha + c.clone() * beta };
     Ok(())
 }
diff --git a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
index 95e805c..62b4a0a 100644
--- a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
+++ b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
@@ -1,9 +1,12 @@
 //! Matrix multiplication for CPU backend.
 //!
 //! **This implementation is not optimized!**
+//!
+//! As in BLAS, `c` is overwritten (and not read) if `beta` is zero.
 
 use crate::prelude_dev::*;
 use core::ops::{Add, Mul};
+use num::Zero;
 
 #[allow(clippy::too_many_arguments)]
 pub fn matmul_naive_cpu_serial<TA, TB, TC, DA, DB, DC>(
@@ -24,7 +27,7 @@ where
     DB: DimAPI,
     DC: DimAPI,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // NOTE: this only works for row-major layout
     // for column-major layout, we need to transpose the input:
@@ -90,7 +93,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sc = lc.shape();
@@ -106,7 +109,7 @@ where
         for i_m in 0..m {
             for i_n in 0..n {
                 let idx_c = lc.index_uncheck(&[i_m, i_n]) as usize;
-                c[idx_c] = beta.clone() * c[idx_c].clone();
+                c[idx_c] = if beta.is_zero() { TC::zero() } else { beta.clone() * c[idx_c].clone() };
             }
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_m, i_k]) as usize;
@@ -137,7 +140,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sc = lc.shape();
@@ -151,7 +154,7 @@ where
     unsafe {
         for i_n in 0..n {
             let idx_c = lc.index_uncheck(&[i_n]) as usize;
-            c[idx_c] = beta.clone() * c[idx_c].clone();
+            c[idx_c] = if beta.is_zero() { TC::zero() } else { beta.clone() * c[idx_c].clone() };
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_n, i_k]) as usize;
                 let idx_b = lb.index_uncheck(&[i_k]) as usize;
@@ -178,7 +181,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sc = lc.shape();
@@ -192,7 +195,7 @@ where
     unsafe {
         for i_n in 0..n {
             let idx_c = lc.index_uncheck(&[i_n]) as usize;
-            c[idx_c] = beta.clone() * c[idx_c].clone();
+            c[idx_c] = if beta.is_zero() { TC::zero() } else { beta.clone() * c[idx_c].clone() };
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_k]) as usize;
                 let idx_b = lb.index_uncheck(&[i_k, i_n]) as usize;
@@ -219,7 +222,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sa = la.shape();
@@ -230,13 +233,13 @@ where
     // naive iteration
     unsafe {
         let idx_c = lc.index_uncheck(&[]) as usize;
-        let mut sum = beta * c[idx_c].clone();
+        let mut sum = if beta.is_zero() { TC::zero() } else { beta * c[idx_c].clone() };
         for i in 0..n {
             let idx_a = la.index_uncheck(&[i]) as usize;
             let idx_b = lb.index_uncheck(&[i]) as usize;
             sum = sum + alpha.clone() * (a[idx_a].clone() * b[idx_b].clone());
         }
-        c[0] = sum;
+        c[idx_c] = sum;
     }
     Ok(())
 }
-- 
2.43.0


From c77c2b0de81b3fd8a08c7b8361bf92cf734631d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:36 +0000
Subject: [PATCH 13/37] fix: matmul checks the shape of the output and does not
 compute into uninitialised memory

---
 rstsr-core/src/tensor/linalg/matmul.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/linalg/matmul.rs b/rstsr-core/src/tensor/linalg/matmul.rs
index 795ad7a..9bae1ec 100644
--- a/rstsr-core/src/tensor/linalg/matmul.rs
+++ b/rstsr-core/src/tensor/linalg/matmul.rs
@@ -64,6 +64,10 @@ where
     let la = a.layout();
     let lb = b.layout();
     let lc = c.layout().clone();
+    // output must have exactly the shape of the product, each element at its own place
+    let cfg = LayoutMatMulConfig::<IxD, IxD>::layout_matmul(&la.to_dim()?, &lb.to_dim()?, device.default_order())?;
+    rstsr_assert_eq!(lc.shape().as_ref(), cfg.lc.shape().as_slice(), InvalidLayout, "shape of output does not match")?;
+    rstsr_assert!(!lc.is_broadcasted(), InvalidLayout, "output of matmul cannot be broadcasted")?;
     let sa = a.raw();
     let sb = b.raw();
     let sc = c.raw_mut();
@@ -91,7 +95,10 @@ where
     let default_order = a.device().default_order();
     let cfg = LayoutMatMulConfig::<DA, DB>::layout_matmul(a.layout(), b.layout(), default_order)?;
     let lc = cfg.lc;
-    let mut c: Tensor<TC, B, _> = unsafe { empty((lc, a.device())) }.into_dim_f()?;
+    // zero-initialized: kernels may read (or drop) the previous value of the output
+    let (_, idx_max) = lc.bounds_index()?;
+    let storage = a.device().outof_cpu_vec((0..idx_max).map(|_| TC::zero()).collect())?;
+    let mut c: Tensor<TC, B, DC> = Tensor::new_f(storage, lc)?;
     op_mutc_refa_refb_matmul(&mut c, &a, &b, alpha, TC::zero())?;
     return Ok(c);
 }
-- 
2.43.0


From c47b5bc8fb2283fbf19cb3c87d708d4722a1647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:13 +0000
Subject: [PATCH 14/37] fix: concat and diag do not drop uninitialised elements

---
 rstsr-core/src/tensor/creation_from_tensor.rs | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/rstsr-core/src/tensor/creation_from_tensor.rs b/rstsr-core/src/tensor/creation_from_tensor.rs
index 1f98fc5..2b55bca 100644
--- a/rstsr-core/src/tensor/creation_from_tensor.rs
+++ b/rstsr-core/src/tensor/creation_from_tensor.rs
@@ -69,10 +69,11 @@ where
             let layout_diag = layout.diagonal(Some(offset), Some(0), Some(1))?;
             let size = layout_diag.size();
             let device = tensor.device();
-            let mut result = unsafe { empty_f(([size], device))? };
-            let layout_result = result.layout().to_dim()?;
-            device.assign(result.raw_mut(), &layout_result, tensor.raw(), &layout_diag)?;
-            return Ok(result);
+            let layout_result = [size].new_contig(None, device.default_order());
+            let mut storage = device.uninit_impl(size)?;
+            device.assign_uninit(storage.raw_mut(), &layout_result, tensor.raw(), &layout_diag)?;
+            let storage = unsafe { B::assume_init_impl(storage) }?;
+            return Tensor::new_f(storage, layout_result.into_dim()?);
         } else {
             return rstsr_raise!(InvalidLayout, "diag only support 1-D or 2-D tensor.");
         }
@@ -370,19 +371,22 @@ where
         let new_shape = shape_other;
 
         // create the result tensor
-        let mut result = unsafe { empty_f((new_shape, &device))? };
+        let layout_full = new_shape.new_contig(None, device.default_order());
+        let mut storage = device.uninit_impl(layout_full.size())?;
 
         // assign each tensor to the result tensor
         let mut offset = 0;
         for tensor in tensors {
             let layout = tensor.layout().to_dim::<IxD>()?;
             let axis_size = tensor.shape()[axis];
-            let layout_result = result.layout().dim_narrow(axis as isize, slice!(offset, offset + axis_size))?;
-            device.assign(result.raw_mut(), &layout_result, tensor.raw(), &layout)?;
+            let layout_result = layout_full.dim_narrow(axis as isize, slice!(offset, offset + axis_size))?;
+            device.assign_uninit(storage.raw_mut(), &layout_result, tensor.raw(), &layout)?;
             offset += axis_size;
         }
 
-        Ok(result)
+        // every element of the result has been assigned above
+        let storage = unsafe { B::assume_init_impl(storage) }?;
+        Tensor::new_f(storage, layout_full)
     }
 }
 
-- 
2.43.0


From 699941638bb385261027a82292d35bffa8b08fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:14 +0000
Subject: [PATCH 15/37] fix: vecdot over no elements gives zero; vecdot_from
 rejects a broadcast output

---
 rstsr-core/src/tensor/linalg/vecdot.rs     | 2 ++
 rstsr-native-impl/src/cpu_serial/vecdot.rs | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/rstsr-core/src/tensor/linalg/vecdot.rs b/rstsr-core/src/tensor/linalg/vecdot.rs
index c73952f..06e435e 100644
--- a/rstsr-core/src/tensor/linalg/vecdot.rs
+++ b/rstsr-core/src/tensor/linalg/vecdot.rs
@@ -320,6 +320,8 @@ where
     let shape_c_expect = broadcast_shapes_f(&[lam.shape().to_vec(), lbm.shape().to_vec()], device.default_order())?;
     let shape_c = c.shape();
     rstsr_assert_eq!(shape_c_expect, shape_c.as_ref(), InvalidLayout, "incompatible shapes in vecdot")?;
+    // every element of output must own its memory
+    rstsr_assert!(!c.layout().is_broadcasted(), InvalidLayout, "output of vecdot can not be broadcasted")?;
 
     let c_layout = c.layout().clone();
     let c_raw_mut = unsafe {
diff --git a/rstsr-native-impl/src/cpu_serial/vecdot.rs b/rstsr-native-impl/src/cpu_serial/vecdot.rs
index c5b8a34..61bf93f 100644
--- a/rstsr-native-impl/src/cpu_serial/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_serial/vecdot.rs
@@ -40,6 +40,13 @@ where
     let (lc_b, lbm) = broadcast_layout_to_first(&lc_b, &lbm, order)?;
     rstsr_assert_eq!(lc_b, lc, InvalidLayout, "layout of c seems not broadcasted from a or b after axis sum")?;
 
+    // nothing to be contracted: the sum over no elements is zero
+    if las.size() == 0 {
+        return layout_col_major_dim_dispatch_1(&lc, |idx_c| {
+            c[idx_c].write(Zero::zero());
+        });
+    }
+
     // accelarate flags generation
     // - flag_contig_s: summed part have contiguous memory access pattern
     let mut asc = vec![]; // [a]xes [s]ummed [c]ontig
-- 
2.43.0


From 8307576be7ae190847c671b9696dfa76c5df6852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:42 +0000
Subject: [PATCH 16/37] fix: to_layout initializes the whole buffer;
 into_layout returns the requested layout

---
 .../src/tensor/manipulation/to_contig.rs      |  8 +++++++
 .../src/tensor/manipulation/to_layout.rs      | 21 +++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/rstsr-core/src/tensor/manipulation/to_contig.rs b/rstsr-core/src/tensor/manipulation/to_contig.rs
index 4c46ffc..cd84b53 100644
--- a/rstsr-core/src/tensor/manipulation/to_contig.rs
+++ b/rstsr-core/src/tensor/manipulation/to_contig.rs
@@ -12,6 +12,7 @@ pub fn change_contig_f<'a, R, T, B, D>(
 where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw> + DataIntoCowAPI<'a>,
     D: DimAPI,
+    T: Clone,
     B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, D, D>,
 {
     let shape = tensor.shape();
@@ -82,6 +83,7 @@ pub fn to_contig<R, T, B, D>(tensor: &TensorAny<R, T, B, D>, order: FlagOrder) -
 where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     D: DimAPI,
+    T: Clone,
     B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, D, D>,
 {
     to_contig_f(tensor, order).rstsr_unwrap()
@@ -94,6 +96,7 @@ pub fn to_contig_f<R, T, B, D>(tensor: &TensorAny<R, T, B, D>, order: FlagOrder)
 where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     D: DimAPI,
+    T: Clone,
     B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, D, D>,
 {
     change_contig_f(tensor.view(), order)
@@ -124,6 +127,7 @@ pub fn change_contig<'a, R, T, B, D>(tensor: TensorAny<R, T, B, D>, order: FlagO
 where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw> + DataIntoCowAPI<'a>,
     D: DimAPI,
+    T: Clone,
     B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, D, D>,
 {
     change_contig_f(tensor, order).rstsr_unwrap()
@@ -233,6 +237,7 @@ pub fn change_prefer_f<'a, R, T, B, D>(
 where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw> + DataIntoCowAPI<'a>,
     D: DimAPI,
+    T: Clone,
     B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, D, D>,
 {
     if (order == RowMajor && tensor.c_prefer()) || (order == ColMajor && tensor.f_prefer()) {
@@ -300,6 +305,7 @@ pub fn to_prefer<R, T, B, D>(tensor: &TensorAny<R, T, B, D>, order: FlagOrder) -
 where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     D: DimAPI,
+    T: Clone,
     B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, D, D>,
 {
     to_prefer_f(tensor, order).rstsr_unwrap()
@@ -312,6 +318,7 @@ pub fn to_prefer_f<R, T, B, D>(tensor: &TensorAny<R, T, B, D>, order: FlagOrder)
 where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     D: DimAPI,
+    T: Clone,
     B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, D, D>,
 {
     change_prefer_f(tensor.view(), order)
@@ -342,6 +349,7 @@ pub fn change_prefer<'a, R, T, B, D>(tensor: TensorAny<R, T, B, D>, order: FlagO
 where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw> + DataIntoCowAPI<'a>,
     D: DimAPI,
+    T: Clone,
     B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, D, D>,
 {
     change_prefer_f(tensor, order).rstsr_unwrap()
diff --git a/rstsr-core/src/tensor/manipulation/to_layout.rs b/rstsr-core/src/tensor/manipulation/to_layout.rs
index f52904f..1a08924 100644
--- a/rstsr-core/src/tensor/manipulation/to_layout.rs
+++ b/rstsr-core/src/tensor/manipulation/to_layout.rs
@@ -13,6 +13,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw> + DataIntoCowAPI<'a>,
     D: DimAPI,
     D2: DimAPI,
+    T: Clone,
     B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, D2, D>,
 {
     let shape = layout.shape();
@@ -28,10 +29,19 @@ where
         // clone data by assign
         let (storage_old, layout_old) = tensor.into_raw_parts();
         let device = storage_old.device();
+        rstsr_assert!(!layout.is_broadcasted(), InvalidLayout, "target layout can not be broadcasted")?;
         let (_, idx_max) = layout.bounds_index()?;
-        let mut storage_new = device.uninit_impl(idx_max)?;
-        device.assign_arbitary_uninit(storage_new.raw_mut(), &layout, storage_old.raw(), &layout_old)?;
-        let storage_new = unsafe { B::assume_init_impl(storage_new)? };
+        let storage_new = if idx_max == layout.size() {
+            let mut storage_new = device.uninit_impl(idx_max)?;
+            device.assign_arbitary_uninit(storage_new.raw_mut(), &layout, storage_old.raw(), &layout_old)?;
+            unsafe { B::assume_init_impl(storage_new)? }
+        } else {
+            // layout does not cover the whole storage, so memory not addressed by layout must be initialized
+            rstsr_assert!(layout.size() > 0, InvalidLayout, "offset of layout without elements should be zero")?;
+            let mut storage_new = device.full_impl(idx_max, storage_old.get_index(layout_old.offset()))?;
+            device.assign_arbitary(storage_new.raw_mut(), &layout, storage_old.raw(), &layout_old)?;
+            storage_new
+        };
         let tensor = unsafe { TensorBase::new_unchecked(storage_new, layout) };
         return Ok(tensor.into_cow());
     }
@@ -125,6 +135,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     D: DimAPI,
     D2: DimAPI,
+    T: Clone,
     B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, D2, D>,
 {
     change_layout_f(tensor.view(), layout).rstsr_unwrap()
@@ -141,6 +152,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw>,
     D: DimAPI,
     D2: DimAPI,
+    T: Clone,
     B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, D2, D>,
 {
     change_layout_f(tensor.view(), layout)
@@ -162,7 +174,7 @@ where
         + OpAssignAPI<T, D2>,
     <B as DeviceRawAPI<T>>::Raw: Clone + 'a,
 {
-    change_layout_f(tensor, layout).map(|v| v.into_owned())
+    change_layout_f(tensor, layout).map(|v| v.into_owned_keep_layout())
 }
 
 /// Convert tensor to a specified layout.
@@ -192,6 +204,7 @@ where
     R: DataAPI<Data = <B as DeviceRawAPI<T>>::Raw> + DataIntoCowAPI<'a>,
     D: DimAPI,
     D2: DimAPI,
+    T: Clone,
     B: DeviceAPI<T> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, D2, D>,
 {
     change_layout_f(tensor, layout).rstsr_unwrap()
-- 
2.43.0


From fbe14d4e0d99262985bd797088c8bfd9b9e88606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:09 +0000
Subject: [PATCH 17/37] fix: selection accepts no index of an empty axis;
 bool_select checks the length of the mask

---
 rstsr-core/src/tensor/adv_indexing.rs            | 14 +++++++++++---
 rstsr-native-impl/src/cpu_rayon/adv_indexing.rs  |  2 +-
 rstsr-native-impl/src/cpu_serial/adv_indexing.rs |  2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/rstsr-core/src/tensor/adv_indexing.rs b/rstsr-core/src/tensor/adv_indexing.rs
index 1b7f13a..c5e289f 100644
--- a/rstsr-core/src/tensor/adv_indexing.rs
+++ b/rstsr-core/src/tensor/adv_indexing.rs
@@ -150,11 +150,19 @@ where
     B: DeviceAPI<T> + DeviceIndexSelectAPI<T, D> + DeviceCreationAnyAPI<T>,
     I: TryInto<AxesIndex<bool>, Error: Into<Error>>,
 {
+    // check length of mask
+    let axis = rstsr_check_axis!(axis, tensor.ndim())? as isize;
+    let mask = mask.try_into().map_err(Into::into)?;
+    let mask = mask.as_ref();
+    rstsr_assert_eq!(
+        mask.len(),
+        tensor.shape()[axis as usize],
+        InvalidValue,
+        "Length of mask should be the same as shape length at axis {}.",
+        axis
+    )?;
     // transform bool to index
     let indices = mask
-        .try_into()
-        .map_err(Into::into)?
-        .as_ref()
         .iter()
         .enumerate()
         .filter_map(|(i, &m)| m.then_some(i))
diff --git a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
index 117084d..d1fc09a 100644
--- a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
@@ -24,7 +24,7 @@ where
     rstsr_assert_eq!(ndim, la.ndim(), InvalidLayout, "Input and output ndim should same.")?;
     rstsr_check_axis!(axis as isize, ndim)?;
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
-    rstsr_pattern!(*indices.iter().max().unwrap_or(&0), 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    rstsr_assert!(indices.iter().all(|&idx| idx < la.shape()[axis]), IndexError, "Index out of range.")?;
 
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
diff --git a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
index b0dd57d..b82e6e0 100644
--- a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
@@ -29,7 +29,7 @@ where
     rstsr_assert_eq!(ndim, la.ndim(), InvalidLayout, "Input and output ndim should same.")?;
     rstsr_check_axis!(axis as isize, ndim)?;
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
-    rstsr_pattern!(*indices.iter().max().unwrap_or(&0), 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    rstsr_assert!(indices.iter().all(|&idx| idx < la.shape()[axis]), IndexError, "Index out of range.")?;
 
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
-- 
2.43.0


From 64831a4589433cb6a4b7506af23e7143fda73578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:28 +0000
Subject: [PATCH 18/37] fix: signbit is true for negative numbers

---
 rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs | 2 +-
 rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
index 5bf2e0d..255d365 100644
--- a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
+++ b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
@@ -94,7 +94,7 @@ where
 
 #[duplicate_item(
      OpAPI           NumTrait       func                         ;
-    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_positive()); } ];
+    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_negative()); } ];
     [OpIsFiniteAPI] [ComplexFloat] [|a, b| { a.write(b.is_finite()  ); } ];
     [OpIsInfAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_infinite()); } ];
     [OpIsNanAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_nan()     ); } ];
diff --git a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
index 5712062..3241689 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
@@ -94,7 +94,7 @@ where
 
 #[duplicate_item(
      OpAPI           NumTrait       func                         ;
-    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_positive()); } ];
+    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_negative()); } ];
     [OpIsFiniteAPI] [ComplexFloat] [|a, b| { a.write(b.is_finite()  ); } ];
     [OpIsInfAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_infinite()); } ];
     [OpIsNanAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_nan()     ); } ];
-- 
2.43.0


From 9e58a7932def08875cf15d91a9d4524b61dfaa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:06 +0000
Subject: [PATCH 19/37] fix: to_layout accepts layouts without elements

---
 rstsr-core/src/tensor/manipulation/to_layout.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/manipulation/to_layout.rs b/rstsr-core/src/tensor/manipulation/to_layout.rs
index 1a08924..a4b579b 100644
--- a/rstsr-core/src/tensor/manipulation/to_layout.rs
+++ b/rstsr-core/src/tensor/manipulation/to_layout.rs
@@ -29,7 +29,8 @@ where
         // clone data by assign
         let (storage_old, layout_old) = tensor.into_raw_parts();
         let device = storage_old.device();
-        rstsr_assert!(!layout.is_broadcasted(), InvalidLayout, "target layout can not be broadcasted")?;
+        let is_broadcasted = layout.size() > 0 && layout.is_broadcasted();
+        rstsr_assert!(!is_broadcasted, InvalidLayout, "target layout can not be broadcasted")?;
         let (_, idx_max) = layout.bounds_index()?;
         let storage_new = if idx_max == layout.size() {
             let mut storage_new = device.uninit_impl(idx_max)?;
-- 
2.43.0


From efca0c366668e1661e6de356c313672a37c80e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:06 +0000
Subject: [PATCH 20/37] fix: eye with column-major order, full and tril/triu
 check the layout they write to, offsets of tril/triu do not overflow

---
 rstsr-core/src/tensor/creation.rs          | 8 ++++++--
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 6 +++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/rstsr-core/src/tensor/creation.rs b/rstsr-core/src/tensor/creation.rs
index d14de47..b948a55 100644
--- a/rstsr-core/src/tensor/creation.rs
+++ b/rstsr-core/src/tensor/creation.rs
@@ -417,7 +417,7 @@ where
         let (n_rows, n_cols, k, order, device) = self;
         let layout = match order {
             RowMajor => [n_rows, n_cols].c(),
-            ColMajor => [n_cols, n_rows].f(),
+            ColMajor => [n_rows, n_cols].f(),
         };
         let mut storage = device.zeros_impl(layout.size())?;
         let layout_diag = layout.diagonal(Some(k), Some(0), Some(1))?;
@@ -543,7 +543,7 @@ where
 
     fn full_f(self) -> Result<Self::Out> {
         let (layout, fill, device) = self;
-        let idx_max = layout.size();
+        let (_, idx_max) = layout.bounds_index()?;
         let storage = device.full_impl(idx_max, fill)?;
         unsafe { Ok(Tensor::new_unchecked(storage, layout.into_dim()?)) }
     }
@@ -1515,6 +1515,7 @@ where
         let (mut x, k) = self;
         let device = x.device().clone();
         let layout = x.layout().clone();
+        rstsr_assert!(!layout.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
         device.tril_impl(x.raw_mut(), &layout, k)?;
         Ok(x)
     }
@@ -1549,6 +1550,7 @@ where
         let (mut x, k) = self;
         let device = x.device().clone();
         let layout = x.layout().clone();
+        rstsr_assert!(!layout.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
         device.tril_impl(x.raw_mut(), &layout, k)?;
         Ok(x)
     }
@@ -1704,6 +1706,7 @@ where
         let (mut x, k) = self;
         let device = x.device().clone();
         let layout = x.layout().clone();
+        rstsr_assert!(!layout.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
         device.triu_impl(x.raw_mut(), &layout, k)?;
         Ok(x)
     }
@@ -1738,6 +1741,7 @@ where
         let (mut x, k) = self;
         let device = x.device().clone();
         let layout = x.layout().clone();
+        rstsr_assert!(!layout.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
         device.triu_impl(x.raw_mut(), &layout, k)?;
         Ok(x)
     }
diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index ec46cfe..beb0fa1 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -541,7 +541,7 @@ where
 {
     let [nrow, ncol] = *layout.shape();
     for i in 0..nrow {
-        let j_start = (i as isize + k + 1).max(0) as usize;
+        let j_start = (i as isize + 1).saturating_add(k).max(0) as usize;
         for j in j_start..ncol {
             unsafe {
                 raw[layout.index_uncheck(&[i, j]) as usize] = T::zero();
@@ -573,9 +573,9 @@ pub fn triu_ix2_cpu_serial<T>(raw: &mut [T], layout: &Layout<Ix2>, k: isize) ->
 where
     T: Num + Clone,
 {
-    let [nrow, _] = *layout.shape();
+    let [nrow, ncol] = *layout.shape();
     for i in 0..nrow {
-        let j_end = (i as isize + k).max(0) as usize;
+        let j_end = ((i as isize).saturating_add(k).max(0) as usize).min(ncol);
         for j in 0..j_end {
             unsafe {
                 raw[layout.index_uncheck(&[i, j]) as usize] = T::zero();
-- 
2.43.0


From 848b4c993ddef3e756c56fa9b07585187d6f6a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:06 +0000
Subject: [PATCH 21/37] fix: arange counts exactly for every integer type,
 linspace ends exactly at the end point

---
 rstsr-core/src/device_cpu_serial/creation.rs | 10 ++--
 rstsr-native-impl/src/cpu_rayon/creation.rs  | 49 +++++++++++---------
 rstsr-native-impl/src/cpu_serial/creation.rs | 41 ++++++++--------
 3 files changed, 54 insertions(+), 46 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/creation.rs b/rstsr-core/src/device_cpu_serial/creation.rs
index df26666..a45a40a 100644
--- a/rstsr-core/src/device_cpu_serial/creation.rs
+++ b/rstsr-core/src/device_cpu_serial/creation.rs
@@ -104,10 +104,12 @@ where
             true => (end - start) / T::from(n - 1).unwrap(),
             false => (end - start) / T::from(n).unwrap(),
         };
-        let mut v = start;
-        for _ in 0..n {
-            raw.push(v);
-            v = v + step;
+        for i in 0..n {
+            raw.push(start + T::from(i).unwrap() * step);
+        }
+        // rounding may move the end point
+        if endpoint {
+            raw[n - 1] = end;
         }
         Ok(Storage::new(raw.into(), self.clone()))
     }
diff --git a/rstsr-native-impl/src/cpu_rayon/creation.rs b/rstsr-native-impl/src/cpu_rayon/creation.rs
index 159e7d6..5bda05d 100644
--- a/rstsr-native-impl/src/cpu_rayon/creation.rs
+++ b/rstsr-native-impl/src/cpu_rayon/creation.rs
@@ -14,23 +14,21 @@ where
     // However, it only works for types that from/to primitives implemented.
     // Also, it only works for integer types because of the precision issue.
 
-    // We just try to convert to isize. We believe it's really rare case that usize is used in arange;
-    // and anyway, fallback is always available with efficiency loss.
-    let (start_, end_, step_) = (start.to_isize()?, end.to_isize()?, step.to_isize()?);
-    let n = ((end_ - start_) as f64 / step_ as f64).ceil().to_isize()?;
-
-    // The unwrap here is probably safe, since start/end/nstep are all checked.
-    // `Some(map(option.unwrap).collect())` is much faster than `map(option).collect()` in this case, so
-    // decided unwrap here.
-    let mut result: Vec<T> = (0..n).into_par_iter().map(|i| T::from_isize(start_ + i * step_).unwrap()).collect();
+    // All primitive integers (except for large u128) can be converted to i128; and anyway, fallback
+    // is always available with efficiency loss. Number of elements is computed by integers only,
+    // since f64 is not exact for large values.
+    let (start_, end_, step_) = (start.to_i128()?, end.to_i128()?, step.to_i128()?);
+    let n = match step_ {
+        1.. => end_.checked_sub(start_)?.max(0).unsigned_abs().div_ceil(step_.unsigned_abs()),
+        0 => return None,
+        _ => start_.checked_sub(end_)?.max(0).unsigned_abs().div_ceil(step_.unsigned_abs()),
+    };
+    let n = n.to_usize()?;
 
-    // the interval may be open on the right, so we need to pop the last element if it's out of range.
-    let last_val = result.last().cloned();
-    if (step_ > 0 && last_val.as_ref().is_some_and(|x| *x >= end))
-        || (step_ < 0 && last_val.as_ref().is_some_and(|x| *x <= end))
-    {
-        result.pop();
-    }
+    // The unwrap here is safe, since all values are between start and end.
+    // `Some(map(option.unwrap).collect())` is much faster than `map(option).collect()` in this
+    // case, so decided unwrap here.
+    let result: Vec<T> = (0..n).into_par_iter().map(|i| T::from_i128(start_ + i as i128 * step_).unwrap()).collect();
     Some(result)
 }
 
@@ -40,10 +38,12 @@ where
     T: PartialOrd + Clone + Add<Output = T> + ToPrimitive + FromPrimitive + Send + Sync,
 {
     let (start_, end_, step_) = (start.to_f64()?, end.to_f64()?, step.to_f64()?);
-    let n = ((end_ - start_) / step_).ceil().to_usize()?;
+    // no element if step points away from end
+    let n = ((end_ - start_) / step_).ceil().max(0.0).to_usize()?;
     let mut result: Vec<T> = (0..n).into_par_iter().map(|i| T::from_f64(start_ + i as f64 * step_).unwrap()).collect();
 
-    // the interval may be open on the right, so we need to pop the last element if it's out of range.
+    // the interval may be open on the right, so we need to pop the last element if it's out of
+    // range.
     let last_val = result.last().cloned();
     if (step_ > 0.0 && last_val.as_ref().is_some_and(|x| *x >= end))
         || (step_ < 0.0 && last_val.as_ref().is_some_and(|x| *x <= end))
@@ -96,7 +96,7 @@ where
 
     // 3. execute accelerated implementation if possible
     expand_accelerated!(false, f64, f32).unwrap_or_else(|| {
-        expand_accelerated!(true, usize, isize, i32, i64, u32, u64)
+        expand_accelerated!(true, usize, isize, i8, i16, i32, i64, u8, u16, u32, u64)
             .unwrap_or_else(|| arange_by_partial_ord_cpu_serial(start, end, step))
     })
 }
@@ -116,8 +116,8 @@ where
         return Some(vec![start]);
     }
 
-    // step should be usually safe to unwrap, since usize should be convertible to float for most cases,
-    // though I'm not sure if FP8 or even smaller types are supported.
+    // step should be usually safe to unwrap, since usize should be convertible to float for most
+    // cases, though I'm not sure if FP8 or even smaller types are supported.
     let step = match endpoint {
         true => (end - start) / T::from(n - 1)?,
         false => (end - start) / T::from(n)?,
@@ -125,7 +125,12 @@ where
 
     // unwrap should be safe here: if `n` can be converted, this can surely be converted by `i`.
     let task = || -> Vec<T> { (0..n).into_par_iter().map(|i| start + T::from(i).unwrap() * step).collect() };
-    Some(pool.map_or_else(task, |pool| pool.install(task)))
+    let mut result = pool.map_or_else(task, |pool| pool.install(task));
+    // rounding may move the end point
+    if endpoint {
+        result[n - 1] = end;
+    }
+    Some(result)
 }
 
 /* #endregion */
diff --git a/rstsr-native-impl/src/cpu_serial/creation.rs b/rstsr-native-impl/src/cpu_serial/creation.rs
index 1663436..e8f2d63 100644
--- a/rstsr-native-impl/src/cpu_serial/creation.rs
+++ b/rstsr-native-impl/src/cpu_serial/creation.rs
@@ -10,8 +10,9 @@ where
 {
     // This is serial implementation and low performance
     let mut result = Vec::new();
+    let descending = start.clone() + step.clone() < start;
     let mut current = start;
-    while current < end {
+    while (!descending && current < end) || (descending && current > end) {
         result.push(current.clone());
         current = current + step.clone();
     }
@@ -26,23 +27,21 @@ where
     // However, it only works for types that from/to primitives implemented.
     // Also, it only works for integer types because of the precision issue.
 
-    // We just try to convert to isize. We believe it's really rare case that usize is used in arange;
-    // and anyway, fallback is always available with efficiency loss.
-    let (start_, end_, step_) = (start.to_isize()?, end.to_isize()?, step.to_isize()?);
-    let n = ((end_ - start_) as f64 / step_ as f64).ceil().to_isize()?;
+    // All primitive integers (except for large u128) can be converted to i128; and anyway, fallback
+    // is always available with efficiency loss. Number of elements is computed by integers only,
+    // since f64 is not exact for large values.
+    let (start_, end_, step_) = (start.to_i128()?, end.to_i128()?, step.to_i128()?);
+    let n = match step_ {
+        1.. => end_.checked_sub(start_)?.max(0).unsigned_abs().div_ceil(step_.unsigned_abs()),
+        0 => return None,
+        _ => start_.checked_sub(end_)?.max(0).unsigned_abs().div_ceil(step_.unsigned_abs()),
+    };
+    let n = n.to_usize()?;
 
-    // The unwrap here is probably safe, since start/end/nstep are all checked.
-    // `Some(map(option.unwrap).collect())` is much faster than `map(option).collect()` in this case, so
-    // decided unwrap here.
-    let mut result: Vec<T> = (0..n).map(|i| T::from_isize(start_ + i * step_).unwrap()).collect();
-
-    // the interval may be open on the right, so we need to pop the last element if it's out of range.
-    let last_val = result.last().cloned();
-    if (step_ > 0 && last_val.as_ref().is_some_and(|x| *x >= end))
-        || (step_ < 0 && last_val.as_ref().is_some_and(|x| *x <= end))
-    {
-        result.pop();
-    }
+    // The unwrap here is safe, since all values are between start and end.
+    // `Some(map(option.unwrap).collect())` is much faster than `map(option).collect()` in this
+    // case, so decided unwrap here.
+    let result: Vec<T> = (0..n).map(|i| T::from_i128(start_ + i as i128 * step_).unwrap()).collect();
     Some(result)
 }
 
@@ -51,10 +50,12 @@ where
     T: PartialOrd + Clone + Add<Output = T> + ToPrimitive + FromPrimitive,
 {
     let (start_, end_, step_) = (start.to_f64()?, end.to_f64()?, step.to_f64()?);
-    let n = ((end_ - start_) / step_).ceil().to_usize()?;
+    // no element if step points away from end
+    let n = ((end_ - start_) / step_).ceil().max(0.0).to_usize()?;
     let mut result: Vec<T> = (0..n).map(|i| T::from_f64(start_ + i as f64 * step_).unwrap()).collect();
 
-    // the interval may be open on the right, so we need to pop the last element if it's out of range.
+    // the interval may be open on the right, so we need to pop the last element if it's out of
+    // range.
     let last_val = result.last().cloned();
     if (step_ > 0.0 && last_val.as_ref().is_some_and(|x| *x >= end))
         || (step_ < 0.0 && last_val.as_ref().is_some_and(|x| *x <= end))
@@ -101,7 +102,7 @@ where
 
     // 3. execute accelerated implementation if possible
     expand_accelerated!(false, f64, f32).unwrap_or_else(|| {
-        expand_accelerated!(true, usize, isize, i32, i64, u32, u64)
+        expand_accelerated!(true, usize, isize, i8, i16, i32, i64, u8, u16, u32, u64)
             .unwrap_or_else(|| arange_by_partial_ord_cpu_serial(start, end, step))
     })
 }
-- 
2.43.0


From 86a886e58baf5d15bd3b67eb51e714d1da70121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:20 +0000
Subject: [PATCH 22/37] fix: axes given as tuples are converted without
 panicking

---
 rstsr-common/src/axis_index.rs | 109 +++++++++++++++++----------------
 1 file changed, 56 insertions(+), 53 deletions(-)

diff --git a/rstsr-common/src/axis_index.rs b/rstsr-common/src/axis_index.rs
index 9a80206..7838e3f 100644
--- a/rstsr-common/src/axis_index.rs
+++ b/rstsr-common/src/axis_index.rs
@@ -186,7 +186,10 @@ macro_rules! impl_from_tuple_to_axes_index {
             type Error = Error;
 
             fn try_from(value: (F1, F2)) -> Result<Self> {
-                Ok(AxesIndex::Vec(vec![value.0.try_into().ok().unwrap(), value.1.try_into().ok().unwrap()]))
+                Ok(AxesIndex::Vec(vec![
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                ]))
             }
         }
 
@@ -198,9 +201,9 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -213,10 +216,10 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -229,11 +232,11 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4, F5)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
-                    value.4.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.4.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -246,12 +249,12 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4, F5, F6)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
-                    value.4.try_into().ok().unwrap(),
-                    value.5.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.4.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.5.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -264,13 +267,13 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4, F5, F6, F7)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
-                    value.4.try_into().ok().unwrap(),
-                    value.5.try_into().ok().unwrap(),
-                    value.6.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.4.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.5.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.6.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -290,14 +293,14 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4, F5, F6, F7, F8)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
-                    value.4.try_into().ok().unwrap(),
-                    value.5.try_into().ok().unwrap(),
-                    value.6.try_into().ok().unwrap(),
-                    value.7.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.4.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.5.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.6.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.7.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -318,15 +321,15 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4, F5, F6, F7, F8, F9)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
-                    value.4.try_into().ok().unwrap(),
-                    value.5.try_into().ok().unwrap(),
-                    value.6.try_into().ok().unwrap(),
-                    value.7.try_into().ok().unwrap(),
-                    value.8.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.4.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.5.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.6.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.7.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.8.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
@@ -349,16 +352,16 @@ macro_rules! impl_from_tuple_to_axes_index {
 
             fn try_from(value: (F1, F2, F3, F4, F5, F6, F7, F8, F9, F10)) -> Result<Self> {
                 Ok(AxesIndex::Vec(vec![
-                    value.0.try_into().ok().unwrap(),
-                    value.1.try_into().ok().unwrap(),
-                    value.2.try_into().ok().unwrap(),
-                    value.3.try_into().ok().unwrap(),
-                    value.4.try_into().ok().unwrap(),
-                    value.5.try_into().ok().unwrap(),
-                    value.6.try_into().ok().unwrap(),
-                    value.7.try_into().ok().unwrap(),
-                    value.8.try_into().ok().unwrap(),
-                    value.9.try_into().ok().unwrap(),
+                    value.0.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.1.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.2.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.3.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.4.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.5.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.6.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.7.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.8.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
+                    value.9.try_into().map_err(|_| rstsr_error!(TryFromIntError))?,
                 ]))
             }
         }
-- 
2.43.0


From dfbbef8e3d7e847ce56492c0b2be9dac261b5f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:20 +0000
Subject: [PATCH 23/37] fix: squeeze rejects axes that do not exist,
 expand_dims without axes is an error

---
 rstsr-core/src/tensor/manipulation/expand_dims.rs |  6 +++++-
 rstsr-core/src/tensor/manipulation/squeeze.rs     | 12 +++---------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/rstsr-core/src/tensor/manipulation/expand_dims.rs b/rstsr-core/src/tensor/manipulation/expand_dims.rs
index f847062..fa41a91 100644
--- a/rstsr-core/src/tensor/manipulation/expand_dims.rs
+++ b/rstsr-core/src/tensor/manipulation/expand_dims.rs
@@ -16,7 +16,11 @@ where
     let (storage, layout) = tensor.into_raw_parts();
     let mut layout = layout.into_dim::<IxD>()?;
     let axes = axes.try_into().map_err(Into::into)?;
-    let len_axes = axes.as_ref().len();
+    let len_axes = match &axes {
+        AxesIndex::None => 0, // rejected by `normalize_axes_index`
+        AxesIndex::Val(_) => 1,
+        AxesIndex::Vec(v) => v.len(),
+    };
     let axes = normalize_axes_index(axes, ndim + len_axes, false, true)?;
     for axis in axes {
         layout = layout.dim_insert(axis)?;
diff --git a/rstsr-core/src/tensor/manipulation/squeeze.rs b/rstsr-core/src/tensor/manipulation/squeeze.rs
index 52478fb..b9b7cb4 100644
--- a/rstsr-core/src/tensor/manipulation/squeeze.rs
+++ b/rstsr-core/src/tensor/manipulation/squeeze.rs
@@ -27,15 +27,9 @@ where
             axes
         },
         _ => {
-            let mut axes: Vec<isize> = axes.as_ref().iter().map(|&v| if v >= 0 { v } else { v + ndim }).collect();
-            axes.sort_by(|a, b| b.cmp(a));
-            if axes.first().is_some_and(|&v| v < 0) {
-                return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
-            }
-            // check no two axis are the same
-            for i in 0..axes.len().saturating_sub(1) {
-                rstsr_assert!(axes[i] != axes[i + 1], InvalidValue, "Same axes is not allowed here.")?;
-            }
+            // eliminate the last axes first, so that the other ones keep their positions
+            let mut axes = normalize_axes_index(axes, ndim as usize, false, true)?;
+            axes.reverse();
             axes
         },
     };
-- 
2.43.0


From f144c223c178d3be64dd4e4a179960b02802e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:20 +0000
Subject: [PATCH 24/37] fix: iterators over axes check their axes, report the
 index from the back, and mutable iterators reject broadcast tensors

---
 rstsr-core/src/tensor/iterator_axes.rs | 114 +++++++++----------------
 rstsr-core/src/tensor/iterator_elem.rs |  12 +++
 2 files changed, 50 insertions(+), 76 deletions(-)

diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index abe8825..5b5f34a 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -81,24 +81,9 @@ where
     where
         I: TryInto<AxesIndex<isize>, Error: Into<Error>>,
     {
-        // convert axis to negative indexes and sort
+        // normalize axes: all of them exist, and no two are the same
         let ndim: isize = TryInto::<isize>::try_into(self.ndim())?;
-        let axes: Vec<isize> = axes
-            .try_into()
-            .map_err(Into::into)?
-            .as_ref()
-            .iter()
-            .map(|&v| if v >= 0 { v } else { v + ndim })
-            .collect::<Vec<isize>>();
-        let mut axes_check = axes.clone();
-        axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
-            return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
-        }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
-        }
+        let axes = normalize_axes_index(axes.try_into().map_err(Into::into)?, self.ndim(), false, false)?;
 
         // get full layout
         let layout = self.layout().to_dim::<IxD>()?;
@@ -236,24 +221,9 @@ where
     where
         I: TryInto<AxesIndex<isize>, Error: Into<Error>>,
     {
-        // convert axis to negative indexes and sort
+        // normalize axes: all of them exist, and no two are the same
         let ndim: isize = TryInto::<isize>::try_into(self.ndim())?;
-        let axes: Vec<isize> = axes
-            .try_into()
-            .map_err(Into::into)?
-            .as_ref()
-            .iter()
-            .map(|&v| if v >= 0 { v } else { v + ndim })
-            .collect::<Vec<isize>>();
-        let mut axes_check = axes.clone();
-        axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
-            return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
-        }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
-        }
+        let axes = normalize_axes_index(axes.try_into().map_err(Into::into)?, self.ndim(), false, false)?;
 
         // get full layout
         let layout = self.layout().to_dim::<IxD>()?;
@@ -269,6 +239,13 @@ where
             stride_axes.push(stride_full[idx as usize]);
         }
         let layout_axes = unsafe { Layout::new_unchecked(shape_axes, stride_axes, offset) };
+        // every part of a tensor broadcast along these axes is visited several times: parts would
+        // alias
+        rstsr_assert!(
+            self.size() == 0 || !layout_axes.is_broadcasted(),
+            InvalidLayout,
+            "cannot iterate mutably over broadcasted axes"
+        )?;
 
         // get layout for inner view
         let mut shape_inner = vec![];
@@ -355,11 +332,12 @@ where
     B: DeviceAPI<T>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let index = match &self.axes_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
-        };
         self.axes_iter.next_back().map(|offset| {
+            // after stepping back, the end of the iterator is the element that is returned
+            let index = match &self.axes_iter {
+                IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+                IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
+            };
             self.update_offset(offset);
             (index, unsafe { transmute(self.view.view()) })
         })
@@ -409,24 +387,9 @@ where
             C | F => (),
             _ => rstsr_invalid!(order, "This function only accepts TensorIterOrder::C|F.",)?,
         };
-        // convert axis to negative indexes and sort
+        // normalize axes: all of them exist, and no two are the same
         let ndim: isize = TryInto::<isize>::try_into(self.ndim())?;
-        let axes: Vec<isize> = axes
-            .try_into()
-            .map_err(Into::into)?
-            .as_ref()
-            .iter()
-            .map(|&v| if v >= 0 { v } else { v + ndim })
-            .collect::<Vec<isize>>();
-        let mut axes_check = axes.clone();
-        axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
-            return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
-        }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
-        }
+        let axes = normalize_axes_index(axes.try_into().map_err(Into::into)?, self.ndim(), false, false)?;
 
         // get full layout
         let layout = self.layout().to_dim::<IxD>()?;
@@ -533,11 +496,12 @@ where
     B: DeviceAPI<T>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        let index = match &self.axes_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
-        };
         self.axes_iter.next_back().map(|offset| {
+            // after stepping back, the end of the iterator is the element that is returned
+            let index = match &self.axes_iter {
+                IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+                IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
+            };
             self.update_offset(offset);
             unsafe { transmute((index, self.view.view_mut())) }
         })
@@ -581,24 +545,15 @@ where
     where
         I: TryInto<AxesIndex<isize>, Error: Into<Error>>,
     {
-        // convert axis to negative indexes and sort
+        use TensorIterOrder::*;
+        // this function only accepts c/f iter order currently
+        match order {
+            C | F => (),
+            _ => rstsr_invalid!(order, "This function only accepts TensorIterOrder::C|F.",)?,
+        };
+        // normalize axes: all of them exist, and no two are the same
         let ndim: isize = TryInto::<isize>::try_into(self.ndim())?;
-        let axes: Vec<isize> = axes
-            .try_into()
-            .map_err(Into::into)?
-            .as_ref()
-            .iter()
-            .map(|&v| if v >= 0 { v } else { v + ndim })
-            .collect::<Vec<isize>>();
-        let mut axes_check = axes.clone();
-        axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
-            return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
-        }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
-        }
+        let axes = normalize_axes_index(axes.try_into().map_err(Into::into)?, self.ndim(), false, false)?;
 
         // get full layout
         let layout = self.layout().to_dim::<IxD>()?;
@@ -614,6 +569,13 @@ where
             stride_axes.push(stride_full[idx as usize]);
         }
         let layout_axes = unsafe { Layout::new_unchecked(shape_axes, stride_axes, offset) };
+        // every part of a tensor broadcast along these axes is visited several times: parts would
+        // alias
+        rstsr_assert!(
+            self.size() == 0 || !layout_axes.is_broadcasted(),
+            InvalidLayout,
+            "cannot iterate mutably over broadcasted axes"
+        )?;
 
         // get layout for inner view
         let mut shape_inner = vec![];
diff --git a/rstsr-core/src/tensor/iterator_elem.rs b/rstsr-core/src/tensor/iterator_elem.rs
index 17c0edc..70f3126 100644
--- a/rstsr-core/src/tensor/iterator_elem.rs
+++ b/rstsr-core/src/tensor/iterator_elem.rs
@@ -153,6 +153,12 @@ where
     B: DeviceAPI<T, Raw = Vec<T>> + 'a,
 {
     pub fn iter_mut_with_order_f(&'a mut self, order: TensorIterOrder) -> Result<IterVecMut<'a, T, D>> {
+        // every element of a broadcast tensor is visited several times: references would alias
+        rstsr_assert!(
+            self.size() == 0 || !self.layout().is_broadcasted(),
+            InvalidLayout,
+            "cannot iterate mutably over broadcasted tensor"
+        )?;
         let layout_iter = IterLayout::new(self.layout(), order)?;
         let raw = self.raw_mut().as_mut();
         let iter = IterVecMut { layout_iter, view: raw };
@@ -362,6 +368,12 @@ where
             C | F => (),
             _ => rstsr_invalid!(order, "This function only accepts TensorIterOrder::C|F.",)?,
         };
+        // every element of a broadcast tensor is visited several times: references would alias
+        rstsr_assert!(
+            self.size() == 0 || !self.layout().is_broadcasted(),
+            InvalidLayout,
+            "cannot iterate mutably over broadcasted tensor"
+        )?;
         let layout_iter = IterLayout::<D>::new(self.layout(), order)?;
         let raw = self.raw_mut().as_mut();
 
-- 
2.43.0


From 1ec4b048f868a838cd192fa422e34a9161070a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:20 +0000
Subject: [PATCH 25/37] fix: packing vectors into arrays fits the allocation,
 packing tensors checks the other strides

---
 rstsr-common/src/pack_array.rs      | 16 +++++++++-------
 rstsr-core/src/tensor/pack_array.rs | 11 ++++++++++-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/rstsr-common/src/pack_array.rs b/rstsr-common/src/pack_array.rs
index b2a47ab..d9302ab 100644
--- a/rstsr-common/src/pack_array.rs
+++ b/rstsr-common/src/pack_array.rs
@@ -36,12 +36,13 @@ impl<T> PackArrayAPI<T> for Vec<T> {
     fn pack_array_f<const N: usize>(self) -> Result<<Self as PackableArrayAPI<T, N>>::ArrayVec> {
         let len = self.len();
         rstsr_assert!(
-            len % N == 0,
+            N != 0 && len % N == 0,
             InvalidValue,
             "Length of Vec<T> {len} must be a multiple to cast into Vec<[T; {N}]>"
         )?;
-        let vec = ManuallyDrop::new(self);
-        let arr = unsafe { Vec::from_raw_parts(vec.as_ptr() as *mut [T; N], len / N, len / N) };
+        // allocation must fit exactly, since it will be deallocated with capacity `len / N`
+        let mut vec = ManuallyDrop::new(self.into_boxed_slice());
+        let arr = unsafe { Vec::from_raw_parts(vec.as_mut_ptr() as *mut [T; N], len / N, len / N) };
         Ok(arr)
     }
 }
@@ -51,8 +52,9 @@ impl<T, const N: usize> UnpackArrayAPI for Vec<[T; N]> {
 
     fn unpack_array(self) -> Self::Output {
         let len = self.len();
-        let arr = ManuallyDrop::new(self);
-        unsafe { Vec::from_raw_parts(arr.as_ptr() as *mut T, len * N, len * N) }
+        // allocation must fit exactly, since it will be deallocated with capacity `len * N`
+        let mut arr = ManuallyDrop::new(self.into_boxed_slice());
+        unsafe { Vec::from_raw_parts(arr.as_mut_ptr() as *mut T, len * N, len * N) }
     }
 }
 
@@ -69,7 +71,7 @@ impl<T> PackArrayAPI<T> for &[T] {
     fn pack_array_f<const N: usize>(self) -> Result<<Self as PackableArrayAPI<T, N>>::ArrayVec> {
         let len = self.len();
         rstsr_assert!(
-            len % N == 0,
+            N != 0 && len % N == 0,
             InvalidValue,
             "Length of &[T] {len} must be a multiple to cast into Vec<[T; {N}]>"
         )?;
@@ -100,7 +102,7 @@ impl<T> PackArrayAPI<T> for &mut [T] {
     fn pack_array_f<const N: usize>(self) -> Result<<Self as PackableArrayAPI<T, N>>::ArrayVec> {
         let len = self.len();
         rstsr_assert!(
-            len % N == 0,
+            N != 0 && len % N == 0,
             InvalidValue,
             "Length of &[T] {len} must be a multiple to cast into Vec<[T; {N}]>"
         )?;
diff --git a/rstsr-core/src/tensor/pack_array.rs b/rstsr-core/src/tensor/pack_array.rs
index ba3daa1..9c13229 100644
--- a/rstsr-core/src/tensor/pack_array.rs
+++ b/rstsr-core/src/tensor/pack_array.rs
@@ -137,7 +137,16 @@ where
         let axis = rstsr_check_axis!(axis, self.ndim())?;
         rstsr_assert_eq!(self.layout().stride()[axis], 1, InvalidLayout, "The axis must be contiguous")?;
         rstsr_assert_eq!(self.layout().shape()[axis], N, InvalidLayout, "The axis length must be a exactly {N}")?;
-        rstsr_assert!(self.layout().offset() % N == 0, InvalidLayout, "The offset must be a multiple of {N}")?;
+        rstsr_assert!(
+            N != 0 && self.layout().offset() % N == 0,
+            InvalidLayout,
+            "The offset must be a multiple of {N}"
+        )?;
+        rstsr_assert!(
+            (0..self.ndim()).all(|i| i == axis || self.layout().stride()[i] % N as isize == 0),
+            InvalidLayout,
+            "The strides of other axes must be multiples of {N}"
+        )?;
 
         let (storage, layout) = self.into_raw_parts();
         let (data, device) = storage.into_raw_parts();
-- 
2.43.0


From d7b3316ad61d60c9f820f3433d0cc110a89101d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:20 +0000
Subject: [PATCH 26/37] fix: owned tensors are not broadcast after conversion

---
 rstsr-core/src/tensor/ownership_conversion.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/tensor/ownership_conversion.rs b/rstsr-core/src/tensor/ownership_conversion.rs
index b8c47e4..78ffe4d 100644
--- a/rstsr-core/src/tensor/ownership_conversion.rs
+++ b/rstsr-core/src/tensor/ownership_conversion.rs
@@ -95,7 +95,8 @@ where
 {
     pub fn into_owned(self) -> Tensor<T, B, D> {
         let (idx_min, idx_max) = self.layout().bounds_index().rstsr_unwrap();
-        if idx_min == 0 && idx_max == self.storage().len() && idx_max == self.layout().size() {
+        let is_broadcasted = self.layout().is_broadcasted();
+        if idx_min == 0 && idx_max == self.storage().len() && idx_max == self.layout().size() && !is_broadcasted {
             return self.into_owned_keep_layout();
         } else {
             return asarray((&self, TensorIterOrder::K));
@@ -104,7 +105,8 @@ where
 
     pub fn into_shared(self) -> TensorArc<T, B, D> {
         let (idx_min, idx_max) = self.layout().bounds_index().rstsr_unwrap();
-        if idx_min == 0 && idx_max == self.storage().len() && idx_max == self.layout().size() {
+        let is_broadcasted = self.layout().is_broadcasted();
+        if idx_min == 0 && idx_max == self.storage().len() && idx_max == self.layout().size() && !is_broadcasted {
             return self.into_shared_keep_layout();
         } else {
             return asarray((&self, TensorIterOrder::K)).into_shared();
-- 
2.43.0


From dcee6111a94f159497d6b129df6643e345f222f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:20 +0000
Subject: [PATCH 27/37] fix: size of an aligned vector does not overflow

---
 rstsr-common/src/alloc_vec.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rstsr-common/src/alloc_vec.rs b/rstsr-common/src/alloc_vec.rs
index e6785a2..a9b4fdf 100644
--- a/rstsr-common/src/alloc_vec.rs
+++ b/rstsr-common/src/alloc_vec.rs
@@ -88,7 +88,11 @@ pub unsafe fn aligned_uninitialized_vec<T, const N: usize>(size: usize, alignmen
         return unaligned_uninitialized_vec(size);
     } else {
         let sizeof = core::mem::size_of::<T>();
-        let pointer = aligned_alloc(size * sizeof, alignment)?;
+        let numbytes = match size.checked_mul(sizeof) {
+            Some(numbytes) => numbytes,
+            None => rstsr_raise!(MemoryError, "Size of vector overflows")?,
+        };
+        let pointer = aligned_alloc(numbytes, alignment)?;
         if let Some(pointer) = pointer {
             let mut v = Vec::from_raw_parts(pointer.as_ptr() as *mut T, size, size);
             unsafe { v.set_len(size) };
-- 
2.43.0


From f39e500b5ceebc193e1a39d37b2a1cda1f91d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:20 +0000
Subject: [PATCH 28/37] fix: tensordot rejects different numbers of axes

---
 rstsr-common/src/tensordot_to_einsum.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rstsr-common/src/tensordot_to_einsum.rs b/rstsr-common/src/tensordot_to_einsum.rs
index c69ddad..3090f44 100644
--- a/rstsr-common/src/tensordot_to_einsum.rs
+++ b/rstsr-common/src/tensordot_to_einsum.rs
@@ -48,6 +48,14 @@ pub fn tensordot_to_einsum_str(
         },
     };
 
+    // every contracted axis of A needs its partner of B (only explicit pairs can fail this)
+    rstsr_assert_eq!(
+        axes_a.len(),
+        axes_b.len(),
+        InvalidValue,
+        "Numbers of axes to be contracted of two tensors are not the same."
+    )?;
+
     // Axis bounds are already guaranteed by the branches above:
     //  - `Pair` runs each side through `normalize_axes_index(.., dim, ..)`, which folds negative axes
     //    and rejects any out-of-range axis with `AxisError`.
-- 
2.43.0


From 13ffa316f4c5631f2fe77ff00c7b2bbfc3cad722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:12 +0000
Subject: [PATCH 29/37] verif: kernel switch sizes are small under
 cfg(rstsr_verif)

---
 rstsr-native-impl/src/cpu_rayon/assignment.rs    |  6 ++++--
 rstsr-native-impl/src/cpu_rayon/op_with_func.rs  |  6 ++++--
 rstsr-native-impl/src/cpu_rayon/reduction.rs     | 12 ++++++++----
 rstsr-native-impl/src/cpu_rayon/transpose.rs     |  3 ++-
 rstsr-native-impl/src/cpu_rayon/vecdot.rs        |  6 ++++--
 rstsr-native-impl/src/cpu_serial/assignment.rs   |  3 ++-
 rstsr-native-impl/src/cpu_serial/op_with_func.rs |  3 ++-
 rstsr-native-impl/src/cpu_serial/reduction.rs    |  6 ++++--
 rstsr-native-impl/src/cpu_serial/vecdot.rs       |  3 ++-
 9 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/assignment.rs b/rstsr-native-impl/src/cpu_rayon/assignment.rs
index c6d0b8e..6e69ccd 100644
--- a/rstsr-native-impl/src/cpu_rayon/assignment.rs
+++ b/rstsr-native-impl/src/cpu_rayon/assignment.rs
@@ -1,12 +1,14 @@
 use crate::prelude_dev::*;
 
 // this value is used to determine whether to use contiguous inner iteration
-const CONTIG_SWITCH: usize = 16;
+#[allow(unexpected_cfgs)]
+const CONTIG_SWITCH: usize = if cfg!(rstsr_verif) { 3 } else { 16 };
 // This value is used to determine when to use parallel iteration.
 // Actual switch value is PARALLEL_SWITCH * RAYON_NUM_THREADS.
 // Since current task is not intensive to each element, this value is large.
 // 64 kB for f64
-const PARALLEL_SWITCH: usize = 16384;
+#[allow(unexpected_cfgs)]
+const PARALLEL_SWITCH: usize = if cfg!(rstsr_verif) { 6 } else { 16384 };
 // For assignment, it is fully memory bounded; contiguous assignment is better
 // handled by serial code. So we only do parallel in outer iteration
 // (non-contiguous part).
diff --git a/rstsr-native-impl/src/cpu_rayon/op_with_func.rs b/rstsr-native-impl/src/cpu_rayon/op_with_func.rs
index 10c0da0..69671c4 100644
--- a/rstsr-native-impl/src/cpu_rayon/op_with_func.rs
+++ b/rstsr-native-impl/src/cpu_rayon/op_with_func.rs
@@ -2,10 +2,12 @@ use crate::prelude_dev::*;
 use rayon::prelude::*;
 
 // this value is used to determine whether to use contiguous inner iteration
-const CONTIG_SWITCH: usize = 16;
+#[allow(unexpected_cfgs)]
+const CONTIG_SWITCH: usize = if cfg!(rstsr_verif) { 3 } else { 16 };
 // This value is used to determine when to use parallel iteration.
 // Since current task is not intensive to each element, this value is large.
-const PARALLEL_SWITCH: usize = 4096;
+#[allow(unexpected_cfgs)]
+const PARALLEL_SWITCH: usize = if cfg!(rstsr_verif) { 6 } else { 4096 };
 
 /* #region op_func definition */
 
diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index 43a6137..61af002 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -4,14 +4,17 @@ use core::sync::atomic::{AtomicPtr, Ordering};
 use rayon::prelude::*;
 
 // this value is used to determine whether to use contiguous inner iteration
-const CONTIG_SWITCH: usize = 32;
+#[allow(unexpected_cfgs)]
+const CONTIG_SWITCH: usize = if cfg!(rstsr_verif) { 4 } else { 32 };
 // This value is used to determine when to use parallel iteration.
 // Actual switch value is PARALLEL_SWITCH * RAYON_NUM_THREADS.
 // Since current task is not intensive to each element, this value is large.
 // 64 kB for f64
-const PARALLEL_SWITCH: usize = 1024;
+#[allow(unexpected_cfgs)]
+const PARALLEL_SWITCH: usize = if cfg!(rstsr_verif) { 8 } else { 1024 };
 // This value is the maximum chunk in parallel iteration.
-const PARALLEL_CHUNK_MAX: usize = 1024;
+#[allow(unexpected_cfgs)]
+const PARALLEL_CHUNK_MAX: usize = if cfg!(rstsr_verif) { 4 } else { 1024 };
 // Currently, we do not make contiguous parts to be parallel. Only outer
 // iteration is parallelized.
 
@@ -233,7 +236,8 @@ where
                 // iterate the reduction parts
                 // - chunk to contiguous output (current chunk size is small, but applicable to most situations)
                 // - sequential iteration in chunks for reduction (parallel it can lead to racing)
-                const CHUNK: usize = 64;
+                #[allow(unexpected_cfgs)]
+                const CHUNK: usize = if cfg!(rstsr_verif) { 2 } else { 64 };
                 vacc.par_chunks_mut(CHUNK).enumerate().for_each(|(i_chunk, vacc_chunk)| {
                     let start = i_chunk * CHUNK;
                     let nchunk = vacc_chunk.len();
diff --git a/rstsr-native-impl/src/cpu_rayon/transpose.rs b/rstsr-native-impl/src/cpu_rayon/transpose.rs
index de5afc5..9f38046 100644
--- a/rstsr-native-impl/src/cpu_rayon/transpose.rs
+++ b/rstsr-native-impl/src/cpu_rayon/transpose.rs
@@ -3,7 +3,8 @@
 use crate::prelude_dev::*;
 use rayon::prelude::*;
 
-const BLOCK_SIZE: usize = 64;
+#[allow(unexpected_cfgs)]
+const BLOCK_SIZE: usize = if cfg!(rstsr_verif) { 2 } else { 64 };
 
 /// Change order (row/col-major) a matrix out-place using a naive algorithm.
 ///
diff --git a/rstsr-native-impl/src/cpu_rayon/vecdot.rs b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
index b158a00..9e99cc9 100644
--- a/rstsr-native-impl/src/cpu_rayon/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
@@ -4,7 +4,8 @@ use num::Zero;
 use rayon::prelude::*;
 use rstsr_dtype_traits::ExtNum;
 
-const PARALLEL_SWITCH: usize = 512;
+#[allow(unexpected_cfgs)]
+const PARALLEL_SWITCH: usize = if cfg!(rstsr_verif) { 6 } else { 512 };
 
 pub fn vecdot_naive_cpu_rayon<TA, TB, TC, DA, DB, DC>(
     c: &mut [MaybeUninit<TC>],
@@ -127,7 +128,8 @@ where
             let layouts = translate_to_col_major(&[&lcd, &lamd, &lbmd], TensorIterOrder::K)?;
             let (lcd, lamd, lbmd) = (&layouts[0], &layouts[1], &layouts[2]);
             // perform computation
-            const CHUNK: usize = 64;
+            #[allow(unexpected_cfgs)]
+            const CHUNK: usize = if cfg!(rstsr_verif) { 2 } else { 64 };
             layout_col_major_dim_dispatch_par_3(lcd, lamd, lbmd, |(idx_c, idx_m_a, idx_m_b)| {
                 let slc_c = unsafe {
                     let c_ptr = c.as_ptr().add(idx_c) as *mut MaybeUninit<TC>;
diff --git a/rstsr-native-impl/src/cpu_serial/assignment.rs b/rstsr-native-impl/src/cpu_serial/assignment.rs
index a6f7e22..485fa2e 100644
--- a/rstsr-native-impl/src/cpu_serial/assignment.rs
+++ b/rstsr-native-impl/src/cpu_serial/assignment.rs
@@ -1,7 +1,8 @@
 use crate::prelude_dev::*;
 
 // this value is used to determine whether to use contiguous inner iteration
-const CONTIG_SWITCH: usize = 16;
+#[allow(unexpected_cfgs)]
+const CONTIG_SWITCH: usize = if cfg!(rstsr_verif) { 3 } else { 16 };
 
 #[duplicate_item(
     func_name
diff --git a/rstsr-native-impl/src/cpu_serial/op_with_func.rs b/rstsr-native-impl/src/cpu_serial/op_with_func.rs
index 84b5a74..056c8e4 100644
--- a/rstsr-native-impl/src/cpu_serial/op_with_func.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_with_func.rs
@@ -5,7 +5,8 @@
 use crate::prelude_dev::*;
 
 // this value is used to determine whether to use contiguous inner iteration
-const CONTIG_SWITCH: usize = 16;
+#[allow(unexpected_cfgs)]
+const CONTIG_SWITCH: usize = if cfg!(rstsr_verif) { 3 } else { 16 };
 
 pub fn op_mutc_refa_refb_func_cpu_serial<TA, TB, TC, D>(
     c: &mut [MaybeUninit<TC>],
diff --git a/rstsr-native-impl/src/cpu_serial/reduction.rs b/rstsr-native-impl/src/cpu_serial/reduction.rs
index f8d4bdc..ec229ec 100644
--- a/rstsr-native-impl/src/cpu_serial/reduction.rs
+++ b/rstsr-native-impl/src/cpu_serial/reduction.rs
@@ -34,7 +34,8 @@ use crate::prelude_dev::*;
 use core::mem::transmute;
 
 // this value is used to determine whether to use contiguous inner iteration
-const CONTIG_SWITCH: usize = 32;
+#[allow(unexpected_cfgs)]
+const CONTIG_SWITCH: usize = if cfg!(rstsr_verif) { 4 } else { 32 };
 
 /// Fold over the manually unrolled `xs` with `f`.
 ///
@@ -290,7 +291,8 @@ where
             let mut vacc = vec![init(); size_mc];
             // iterate the reduction parts
             // - chunk to contiguous output (current chunk size is small, but applicable to most situations)
-            const CHUNK: usize = 48;
+            #[allow(unexpected_cfgs)]
+            const CHUNK: usize = if cfg!(rstsr_verif) { 2 } else { 48 };
             vacc.chunks_mut(CHUNK).enumerate().for_each(|(i_chunk, vacc_chunk)| {
                 let start = i_chunk * CHUNK;
                 let nchunk = vacc_chunk.len();
diff --git a/rstsr-native-impl/src/cpu_serial/vecdot.rs b/rstsr-native-impl/src/cpu_serial/vecdot.rs
index 61bf93f..a40e8f9 100644
--- a/rstsr-native-impl/src/cpu_serial/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_serial/vecdot.rs
@@ -121,7 +121,8 @@ where
         let layouts = translate_to_col_major(&[&lcd, &lamd, &lbmd], TensorIterOrder::K)?;
         let (lcd, lamd, lbmd) = (&layouts[0], &layouts[1], &layouts[2]);
         // perform computation
-        const CHUNK: usize = 64;
+        #[allow(unexpected_cfgs)]
+        const CHUNK: usize = if cfg!(rstsr_verif) { 2 } else { 64 };
         layout_col_major_dim_dispatch_3(lcd, lamd, lbmd, |(idx_c, idx_m_a, idx_m_b)| {
             let slc_c = &mut c[idx_c..idx_c + n_contig];
             // currently c has not been initialized, init here
-- 
2.43.0


From 857008c4014a56f9bf0fdda2bf48abdca62c07ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:12 +0000
Subject: [PATCH 30/37] fix: parallel kernels write each element of a
 broadcasted output once

---
 .../src/cpu_rayon/op_with_func.rs             | 27 ++++++++++++++++++-
 rstsr-native-impl/src/cpu_rayon/vecdot.rs     | 15 +++++++----
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/op_with_func.rs b/rstsr-native-impl/src/cpu_rayon/op_with_func.rs
index 69671c4..9b7c57e 100644
--- a/rstsr-native-impl/src/cpu_rayon/op_with_func.rs
+++ b/rstsr-native-impl/src/cpu_rayon/op_with_func.rs
@@ -9,6 +9,28 @@ const CONTIG_SWITCH: usize = if cfg!(rstsr_verif) { 3 } else { 16 };
 #[allow(unexpected_cfgs)]
 const PARALLEL_SWITCH: usize = if cfg!(rstsr_verif) { 6 } else { 4096 };
 
+/// Narrow axes where the output is broadcasted (stride is zero) to one element, for all layouts.
+///
+/// Output of binary functions may be broadcasted, if both inputs are broadcasted at the same axis.
+/// Every element of output should be written by only one thread, so these axes are not iterated.
+pub(crate) fn narrow_broadcasted_output<D>(lc: &Layout<D>, layouts: &[&Layout<D>]) -> Vec<Layout<D>>
+where
+    D: DimAPI,
+{
+    let broadcasted = lc.stride().as_ref().iter().map(|&d| d == 0).collect_vec();
+    let narrow = |l: &Layout<D>| {
+        let mut shape = l.shape().clone();
+        for (n, &b) in shape.as_mut().iter_mut().zip(&broadcasted) {
+            if b {
+                *n = (*n).min(1);
+            }
+        }
+        // Safety: the narrowed layout addresses a subset of the original elements
+        unsafe { Layout::new_unchecked(shape, l.stride().clone(), l.offset()) }
+    };
+    layouts.iter().map(|l| narrow(l)).collect()
+}
+
 /* #region op_func definition */
 
 #[allow(clippy::too_many_arguments)]
@@ -35,8 +57,11 @@ where
         return op_mutc_refa_refb_func_cpu_serial(c, lc, a, la, b, lb, f);
     }
 
+    // output may be broadcasted, but each element should be written only once
+    let layouts_narrowed = narrow_broadcasted_output(lc, &[lc, la, lb]);
+
     // re-align layouts
-    let layouts_full = translate_to_col_major(&[lc, la, lb], TensorIterOrder::K)?;
+    let layouts_full = translate_to_col_major(&layouts_narrowed.iter().collect_vec(), TensorIterOrder::K)?;
     let layouts_full_ref = layouts_full.iter().collect_vec();
     let (layouts_outer, size_contig) = translate_to_col_major_with_contig(&layouts_full_ref);
 
diff --git a/rstsr-native-impl/src/cpu_rayon/vecdot.rs b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
index 9e99cc9..3b586e2 100644
--- a/rstsr-native-impl/src/cpu_rayon/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
@@ -1,3 +1,4 @@
+use super::op_with_func::narrow_broadcasted_output;
 use crate::prelude_dev::*;
 use core::ops::Mul;
 use num::Zero;
@@ -49,6 +50,10 @@ where
     let (lc_b, lbm) = broadcast_layout_to_first(&lc_b, &lbm, order)?;
     rstsr_assert_eq!(lc_b, lc, InvalidLayout, "layout of c seems not broadcasted from a or b after axis sum")?;
 
+    // output may be broadcasted, but each element should be written only once
+    let layouts_narrowed = narrow_broadcasted_output(&lc, &[&lc, &lam, &lbm]);
+    let (lc, lam, lbm) = (&layouts_narrowed[0], &layouts_narrowed[1], &layouts_narrowed[2]);
+
     // accelarate flags generation
     // - flag_contig_s: summed part have contiguous memory access pattern
     let mut asc = vec![]; // [a]xes [s]ummed [c]ontig
@@ -64,9 +69,9 @@ where
     let flag_contig_s = !asc.is_empty();
     // - flag_contig_m: remaining part have contiguous memory access pattern
     let mut amc = vec![]; // [a]xes re[m]aining [c]ontig
-    let (_, _, amc_a, _) = get_axes_composition(&lam);
-    let (_, _, amc_b, _) = get_axes_composition(&lbm);
-    let (_, _, amc_c, _) = get_axes_composition(&lc);
+    let (_, _, amc_a, _) = get_axes_composition(lam);
+    let (_, _, amc_b, _) = get_axes_composition(lbm);
+    let (_, _, amc_c, _) = get_axes_composition(lc);
     for (ic_a, ic_b, ic_c) in izip!(amc_a, amc_b, amc_c) {
         if ic_a == ic_b && ic_b == ic_c {
             amc.push(ic_a);
@@ -92,7 +97,7 @@ where
             let layouts = translate_to_col_major(&[&lasd, &lbsd], TensorIterOrder::K)?;
             let (lasd, lbsd) = (&layouts[0], &layouts[1]);
             // translate layouts for remaining
-            let layouts = translate_to_col_major(&[&lc, &lam, &lbm], TensorIterOrder::K)?;
+            let layouts = translate_to_col_major(&[lc, lam, lbm], TensorIterOrder::K)?;
             let (lc, lam, lbm) = (&layouts[0], &layouts[1], &layouts[2]);
             // perform computation
             layout_col_major_dim_dispatch_par_3(lc, lam, lbm, |(idx_c, idx_m_a, idx_m_b)| {
@@ -156,7 +161,7 @@ where
             })
         } else {
             // general case
-            layout_col_major_dim_dispatch_par_3(&lc, &lam, &lbm, |(idx_c, idx_m_a, idx_m_b)| {
+            layout_col_major_dim_dispatch_par_3(lc, lam, lbm, |(idx_c, idx_m_a, idx_m_b)| {
                 if las.ndim() == 1 {
                     let n_contract = las.shape()[0];
                     let step_a = las.stride()[0];
-- 
2.43.0


From fb06358d12423009f446a3b7733f9d4ea1f47479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:37 +0000
Subject: [PATCH 31/37] fix: packing and unpacking of triangles without rows
 does not panic, unpacking without symmetry initialises the other triangle

---
 rstsr-native-impl/src/cpu_rayon/op_tri.rs  |  8 ++++++++
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 22 ++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_rayon/op_tri.rs b/rstsr-native-impl/src/cpu_rayon/op_tri.rs
index bb8d8ac..3efaa0f 100644
--- a/rstsr-native-impl/src/cpu_rayon/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_rayon/op_tri.rs
@@ -38,6 +38,10 @@ where
 
     // inner dimensions handling
     let n = lb_inner.shape()[0];
+    if n == 0 {
+        // no element to be written
+        return Ok(());
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
@@ -139,6 +143,10 @@ where
 
     // inner dimensions handling
     let n = la_inner.shape()[0];
+    if n == 0 {
+        // no element to be written
+        return Ok(());
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index beb0fa1..bee03de 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -100,6 +100,10 @@ where
 
     // inner dimensions handling
     let n = lb_inner.shape()[0];
+    if n == 0 {
+        // no element to be written
+        return Ok(());
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
@@ -208,6 +212,9 @@ pub fn inner_unpack_tril_c_contig<T>(
             for i in 0..n {
                 for j in 0..=i {
                     a[i * n + j].write(b[idx_b]);
+                    if i != j {
+                        a[j * n + i].write(T::zero());
+                    }
                     idx_b += 1;
                 }
             }
@@ -288,6 +295,10 @@ pub fn inner_unpack_tril_general<T>(
                     let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
                     let loc_a_ij = unsafe { la.index_uncheck(&[i, j]) } as usize;
                     a[loc_a_ij].write(b[loc_b]);
+                    if i != j {
+                        let loc_a_ji = unsafe { la.index_uncheck(&[j, i]) } as usize;
+                        a[loc_a_ji].write(T::zero());
+                    }
                     idx_b += 1;
                 }
             }
@@ -354,6 +365,9 @@ pub fn inner_unpack_triu_c_contig<T>(
             for i in 0..n {
                 for j in i..n {
                     a[i * n + j].write(b[idx_b]);
+                    if i != j {
+                        a[j * n + i].write(T::zero());
+                    }
                     idx_b += 1;
                 }
             }
@@ -434,6 +448,10 @@ pub fn inner_unpack_triu_general<T>(
                     let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
                     let loc_a_ij = unsafe { la.index_uncheck(&[i, j]) } as usize;
                     a[loc_a_ij].write(b[loc_b]);
+                    if i != j {
+                        let loc_a_ji = unsafe { la.index_uncheck(&[j, i]) } as usize;
+                        a[loc_a_ji].write(T::zero());
+                    }
                     idx_b += 1;
                 }
             }
@@ -472,6 +490,10 @@ where
 
     // inner dimensions handling
     let n = la_inner.shape()[0];
+    if n == 0 {
+        // no element to be written
+        return Ok(());
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
-- 
2.43.0


From 2f2f2cc2e8d17946697ce41a3b9f8e8c1944fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:24 +0000
Subject: [PATCH 32/37] fix: reshape with copy checks the number of elements

---
 rstsr-core/src/tensor/manipulation/reshape.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rstsr-core/src/tensor/manipulation/reshape.rs b/rstsr-core/src/tensor/manipulation/reshape.rs
index bb09a10..da75b7e 100644
--- a/rstsr-core/src/tensor/manipulation/reshape.rs
+++ b/rstsr-core/src/tensor/manipulation/reshape.rs
@@ -125,6 +125,10 @@ where
     let ReshapeArgs { order, copy } = args.into();
     let order = order.unwrap_or(tensor.device().default_order());
 
+    // check size, also for the case that data is always copied
+    let size_new = shape_new.iter().try_fold(1usize, |acc, &v| acc.checked_mul(v));
+    rstsr_assert!(size_new == Some(tensor.size()), InvalidValue, "Size mismatch between input tensor and output tensor.")?;
+
     // rust 2021 does not allow chain if let
     if copy.is_none() || copy == Some(false) {
         if let Some(layout_new) = layout_reshapeable(&tensor.layout().to_dim()?, &shape_new, order)? {
-- 
2.43.0


From 871347812ff49a0b8ef2cd9d5c513caeaa96a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:36 +0000
Subject: [PATCH 33/37] fix: promotion of i8 with i16 is defined

---
 rstsr-dtype-traits/src/promotion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rstsr-dtype-traits/src/promotion.rs b/rstsr-dtype-traits/src/promotion.rs
index 5705bbf..9472f87 100644
--- a/rstsr-dtype-traits/src/promotion.rs
+++ b/rstsr-dtype-traits/src/promotion.rs
@@ -228,7 +228,8 @@ macro_rules! impl_promotion_asable {
     };
 }
 
-// internal typeimpl_promotion_asable!(i8, i16, false, true, i16);
+// internal type
+impl_promotion_asable!(i8, i16, false, true, i16);
 impl_promotion_asable!(i8, i32, false, true, i32);
 impl_promotion_asable!(i8, i64, false, true, i64);
 impl_promotion_asable!(i8, u8, false, false, i16);
-- 
2.43.0


From 777cbd79c204937990aac25028d954bbac4e201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:35 +0000
Subject: [PATCH 34/37] fix: cdist accepts tables without columns and checks
 the number of weights

---
 rstsr-sci-traits/src/distance/native_impl.rs | 22 +++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/rstsr-sci-traits/src/distance/native_impl.rs b/rstsr-sci-traits/src/distance/native_impl.rs
index 551ccaf..bf71e62 100644
--- a/rstsr-sci-traits/src/distance/native_impl.rs
+++ b/rstsr-sci-traits/src/distance/native_impl.rs
@@ -34,9 +34,10 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    // rows without elements may start outside the data, and can not be sliced
+    let strided = stride_a[1] != 1 || stride_b[1] != 1 || k == 0;
 
     macro_rules! perform_batch_calc {
         ($STRIDED: ident, $ORDER: ident) => {
@@ -96,6 +97,7 @@ where
 
     rstsr_assert_eq!(shape_a[1], shape_b[1], InvalidLayout, "The number of columns in xa and xb must match.")?;
     let k = shape_a[1];
+    rstsr_assert_eq!(weights.as_ref().len(), k, InvalidLayout, "The number of weights and columns must match.")?;
 
     let m = shape_a[0];
     let n = shape_b[0];
@@ -105,9 +107,10 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    // rows without elements may start outside the data, and can not be sliced
+    let strided = stride_a[1] != 1 || stride_b[1] != 1 || k == 0;
     let weights_sum = weights.as_ref().iter().fold(M::Out::zero(), |acc, w| acc + *w);
 
     macro_rules! perform_batch_calc {
@@ -192,9 +195,10 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    // rows without elements may start outside the data, and can not be sliced
+    let strided = stride_a[1] != 1 || stride_b[1] != 1 || k == 0;
 
     macro_rules! perform_batch_calc {
         ($STRIDED: ident, $ORDER: ident) => {
@@ -267,6 +271,7 @@ where
 
     rstsr_assert_eq!(shape_a[1], shape_b[1], InvalidLayout, "The number of columns in xa and xb must match.")?;
     let k = shape_a[1];
+    rstsr_assert_eq!(weights.as_ref().len(), k, InvalidLayout, "The number of weights and columns must match.")?;
 
     let m = shape_a[0];
     let n = shape_b[0];
@@ -276,9 +281,10 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    // rows without elements may start outside the data, and can not be sliced
+    let strided = stride_a[1] != 1 || stride_b[1] != 1 || k == 0;
     let weights_sum = weights.as_ref().iter().fold(M::Out::zero(), |acc, w| acc + *w);
 
     macro_rules! perform_batch_calc {
-- 
2.43.0


From 7e8f998ed18168f27747f66edf53a48401ecefe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:49 +0000
Subject: [PATCH 35/37] fix: weighted correlation distance is centred at the
 weighted means

---
 rstsr-sci-traits/src/distance/metric.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rstsr-sci-traits/src/distance/metric.rs b/rstsr-sci-traits/src/distance/metric.rs
index 8868505..b2950bb 100644
--- a/rstsr-sci-traits/src/distance/metric.rs
+++ b/rstsr-sci-traits/src/distance/metric.rs
@@ -765,6 +765,7 @@ where
             "xa and weights must have the same number of columns"
         )?;
 
+        let weights_sum = weights.iter().fold(T::zero(), |acc, &w| acc + w);
         let mut norms_u = vec![T::zero(); m];
         let mut norms_v = vec![T::zero(); n];
         let mut means_u = vec![T::zero(); m];
@@ -773,8 +774,8 @@ where
         means_u.iter_mut().zip(norms_u.iter_mut()).enumerate().for_each(|(i, (mean_u, norm_u))| {
             *mean_u = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xa[la.index_uncheck(&[i, j]) as usize];
-                acc + val
-            }) / T::from_usize(k).unwrap();
+                acc + weights[j] * val
+            }) / weights_sum;
             *norm_u = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xa[la.index_uncheck(&[i, j]) as usize];
                 acc + weights[j] * (val - *mean_u) * (val - *mean_u)
@@ -785,8 +786,8 @@ where
         means_v.iter_mut().zip(norms_v.iter_mut()).enumerate().for_each(|(i, (mean_v, norm_v))| {
             *mean_v = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xb[lb.index_uncheck(&[i, j]) as usize];
-                acc + val
-            }) / T::from_usize(k).unwrap();
+                acc + weights[j] * val
+            }) / weights_sum;
             *norm_v = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xb[lb.index_uncheck(&[i, j]) as usize];
                 acc + weights[j] * (val - *mean_v) * (val - *mean_v)
-- 
2.43.0


From 1aecb0817ba8bc20da7d7f0e65f3359ac0e0b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:45 +0000
Subject: [PATCH 36/37] fix: BLAS matmul keeps beta * C for outputs that need a
 copy and for products without terms

---
 crates-device/rstsr-aocl/src/matmul_impl.rs     | 10 +++++++---
 crates-device/rstsr-blis/src/matmul_impl.rs     | 10 +++++++---
 crates-device/rstsr-kml/src/matmul_impl.rs      | 10 +++++++---
 crates-device/rstsr-mkl/src/matmul_impl.rs      | 10 +++++++---
 crates-device/rstsr-openblas/src/matmul_impl.rs | 10 +++++++---
 5 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/crates-device/rstsr-aocl/src/matmul_impl.rs b/crates-device/rstsr-aocl/src/matmul_impl.rs
index aaeae1b..fb84225 100644
--- a/crates-device/rstsr-aocl/src/matmul_impl.rs
+++ b/crates-device/rstsr-aocl/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix, and only beta * C remains
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        }
+        IterLayoutColMajor::new(lc)?.for_each(|idx| c[idx] *= beta);
+        return Ok(());
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-blis/src/matmul_impl.rs b/crates-device/rstsr-blis/src/matmul_impl.rs
index aaeae1b..fb84225 100644
--- a/crates-device/rstsr-blis/src/matmul_impl.rs
+++ b/crates-device/rstsr-blis/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix, and only beta * C remains
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        }
+        IterLayoutColMajor::new(lc)?.for_each(|idx| c[idx] *= beta);
+        return Ok(());
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-kml/src/matmul_impl.rs b/crates-device/rstsr-kml/src/matmul_impl.rs
index aaeae1b..fb84225 100644
--- a/crates-device/rstsr-kml/src/matmul_impl.rs
+++ b/crates-device/rstsr-kml/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix, and only beta * C remains
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        }
+        IterLayoutColMajor::new(lc)?.for_each(|idx| c[idx] *= beta);
+        return Ok(());
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-mkl/src/matmul_impl.rs b/crates-device/rstsr-mkl/src/matmul_impl.rs
index aaeae1b..fb84225 100644
--- a/crates-device/rstsr-mkl/src/matmul_impl.rs
+++ b/crates-device/rstsr-mkl/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix, and only beta * C remains
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        }
+        IterLayoutColMajor::new(lc)?.for_each(|idx| c[idx] *= beta);
+        return Ok(());
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-openblas/src/matmul_impl.rs b/crates-device/rstsr-openblas/src/matmul_impl.rs
index 211def8..9124467 100644
--- a/crates-device/rstsr-openblas/src/matmul_impl.rs
+++ b/crates-device/rstsr-openblas/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix, and only beta * C remains
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        }
+        IterLayoutColMajor::new(lc)?.for_each(|idx| c[idx] *= beta);
+        return Ok(());
     }
 
     // handle the special case that n/m is zero-dimensional
-- 
2.43.0


From cad8d8f5790e68393111df8234de8955c99c800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:45 +0000
Subject: [PATCH 37/37] fix: BLAS builders honour the offsets and leading
 dimensions of their operands; SYMM for wide results and copied matrices

---
 rstsr-blas-traits/src/blas3/gemm.rs   |  9 +++++----
 rstsr-blas-traits/src/blas3/syhemm.rs | 21 ++++++++-------------
 rstsr-blas-traits/src/blas3/trsm.rs   |  7 ++++---
 rstsr-core/src/tensor/tensor2_impl.rs |  8 ++++----
 4 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/rstsr-blas-traits/src/blas3/gemm.rs b/rstsr-blas-traits/src/blas3/gemm.rs
index 7f8101e..fd0dda0 100644
--- a/rstsr-blas-traits/src/blas3/gemm.rs
+++ b/rstsr-blas-traits/src/blas3/gemm.rs
@@ -134,12 +134,13 @@ where
         };
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.raw().as_ptr();
-        let ptr_c = c.view_mut().raw_mut().as_mut_ptr();
+        let ldc = c.view().ld_col().unwrap();
+        let ptr_a = a.as_ptr();
+        let ptr_b = b.as_ptr();
+        let ptr_c = c.view_mut().as_mut_ptr();
 
         unsafe {
-            B::driver_gemm(ColMajor, transa, transb, m, n, k, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, m);
+            B::driver_gemm(ColMajor, transa, transb, m, n, k, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, ldc);
         }
 
         Ok(c.clone_to_mut())
diff --git a/rstsr-blas-traits/src/blas3/syhemm.rs b/rstsr-blas-traits/src/blas3/syhemm.rs
index 5487f7c..a5e81dd 100644
--- a/rstsr-blas-traits/src/blas3/syhemm.rs
+++ b/rstsr-blas-traits/src/blas3/syhemm.rs
@@ -63,18 +63,12 @@ where
         let default_order = a.device().default_order();
         let order = get_output_order(&[order, order_c], &[], default_order);
         if order == ColMajor {
-            let (uplo, a_cow) = match (HERMI, a.f_prefer()) {
-                (false, false) => (uplo.flip(), a.to_contig_f(ColMajor)?),
-                _ => (uplo, a.to_contig_f(ColMajor)?),
-            };
+            let a_cow = a.to_contig_f(ColMajor)?;
             let b_cow = b.to_contig_f(ColMajor)?;
             let obj = SYHEMM_ { a: a_cow.view(), b: b_cow.view(), c, alpha, beta, side, uplo, order: Some(ColMajor) };
             obj.internal_run()
         } else {
-            let (uplo, a_cow) = match (HERMI, a.c_prefer()) {
-                (false, false) => (uplo.flip(), a.to_contig_f(RowMajor)?),
-                _ => (uplo, a.to_contig_f(RowMajor)?),
-            };
+            let a_cow = a.to_contig_f(RowMajor)?;
             let b_cow = b.to_contig_f(RowMajor)?;
             let obj = SYHEMM_ {
                 a: a_cow.t(),
@@ -103,7 +97,7 @@ where
 
         // initialize intent(hide)
         let m = b.nrow();
-        let n = a.ncol();
+        let n = b.ncol();
         let lda = a.ld_col().unwrap();
         let ldb = b.ld_col().unwrap();
 
@@ -128,12 +122,13 @@ where
         };
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.raw().as_ptr();
-        let ptr_c = c.view_mut().raw_mut().as_mut_ptr();
+        let ldc = c.view().ld_col().unwrap();
+        let ptr_a = a.as_ptr();
+        let ptr_b = b.as_ptr();
+        let ptr_c = c.view_mut().as_mut_ptr();
 
         unsafe {
-            B::driver_syhemm(ColMajor, side, uplo, m, n, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, m);
+            B::driver_syhemm(ColMajor, side, uplo, m, n, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, ldc);
         }
 
         Ok(c.clone_to_mut())
diff --git a/rstsr-blas-traits/src/blas3/trsm.rs b/rstsr-blas-traits/src/blas3/trsm.rs
index 63acc13..0ba1341 100644
--- a/rstsr-blas-traits/src/blas3/trsm.rs
+++ b/rstsr-blas-traits/src/blas3/trsm.rs
@@ -123,10 +123,11 @@ where
         let mut b = overwritable_convert_with_order(b, ColMajor)?;
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.view_mut().raw_mut().as_mut_ptr();
+        let ldb = b.view().ld_col().unwrap();
+        let ptr_a = a.as_ptr();
+        let ptr_b = b.view_mut().as_mut_ptr();
 
-        unsafe { B::driver_trsm(ColMajor, side, uplo, transa, diag, m, n, alpha, ptr_a, lda, ptr_b, m) };
+        unsafe { B::driver_trsm(ColMajor, side, uplo, transa, diag, m, n, alpha, ptr_a, lda, ptr_b, ldb) };
 
         Ok(b.clone_to_mut())
     }
diff --git a/rstsr-core/src/tensor/tensor2_impl.rs b/rstsr-core/src/tensor/tensor2_impl.rs
index 2ab80ac..6249c76 100644
--- a/rstsr-core/src/tensor/tensor2_impl.rs
+++ b/rstsr-core/src/tensor/tensor2_impl.rs
@@ -16,9 +16,9 @@ impl<S> TensorBase<S, Ix2> {
         if !self.c_prefer() {
             // leading dimension is only defined if not c-prefer
             return None;
-        } else if self.shape()[0] == 1 {
+        } else if self.shape()[0] == 1 || self.size() == 0 {
             // col-vector, leading dimension must be larger than dimension of col
-            return Some(self.shape()[1]);
+            return Some(self.shape()[1].max(1));
         } else {
             // usual definition that leading dimension is stride of row
             return Some(self.stride()[0] as usize);
@@ -33,9 +33,9 @@ impl<S> TensorBase<S, Ix2> {
         if !self.f_prefer() {
             // leading dimension is only defined if not f-prefer
             return None;
-        } else if self.shape()[1] == 1 {
+        } else if self.shape()[1] == 1 || self.size() == 0 {
             // row-vector, leading dimension must be larger than dimension of row
-            return Some(self.shape()[0]);
+            return Some(self.shape()[0].max(1));
         } else {
             // usual definition that leading dimension is stride of col
             return Some(self.stride()[1] as usize);
-- 
2.43.0

