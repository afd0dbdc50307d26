From cb1c497a9c5d0c6bc5ac8dbd769d423e42c2f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 01/22] fix: matrix product gradient lands in the right place
 for operands of more than 32 elements

---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 3056080..dfb369e 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -152,7 +152,7 @@ impl<'a, T: Numeric> SplitArrayWriter<'a, T> {
         let bit_width = 5;
         let width = 1 << bit_width;
         let splits = slice.len() / width;
-        let segments: Vec<_> = slice.rchunks_mut(width).collect();
+        let segments: Vec<_> = slice.chunks_mut(width).collect();
         let (senders, receivers) = iter::repeat_with(unbounded).take(segments.len()).unzip();
         SplitArrayWriter {
             segments,
-- 
2.43.0


From c3837aca75acd3f3986070f8382380a54cb1ce48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 02/22] fix: sum passes the upstream gradient on instead of
 ones

---
 src/tensor/autograd/jvp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tensor/autograd/jvp.rs b/src/tensor/autograd/jvp.rs
index 74c9ffc..1f51649 100644
--- a/src/tensor/autograd/jvp.rs
+++ b/src/tensor/autograd/jvp.rs
@@ -74,6 +74,10 @@ pub fn ones<T: Numeric>(tensors: Vec<RcTensor<T>>, grads: Vec<RcTensor<T>>) -> V
     assert!(grads.len() == 1);
     let length_1 = tensors[0].shape().iter().product::<usize>();
     let length_2 = grads[0].shape().iter().product::<usize>();
-    let raw_tensor = RawTensor::new_with_filler(vec![length_2, length_1], T::one());
+    let mut array = Vec::with_capacity(length_2 * length_1);
+    for &grad in grads[0].array.iter() {
+        array.extend(std::iter::repeat(grad).take(length_1));
+    }
+    let raw_tensor = RawTensor::new(array, vec![length_2, length_1]);
     vec![RcTensor::from_raw(raw_tensor)]
 }
-- 
2.43.0


From 412f3c42eafb2a2fef09d6cdd1f89320eb1a078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 03/22] fix: a fresh sum has no gradient yet

---
 src/tensor/raw_tensor.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 87f8c6f..8f414b1 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -320,12 +320,7 @@ where
             .array
             .iter()
             .fold(Self::Elem::zero(), |acc, x| acc + *x);
-        let scalar = RawTensor::from(v);
-        scalar.update_grad(RcTensor::new_with_filler(
-            self.shape.clone(),
-            Self::Elem::one(),
-        ));
-        scalar
+        RawTensor::from(v)
     }
 
     fn tensor(&self) -> Self::TensorRef<'_> {
-- 
2.43.0


From 4e44b944caf84a7988a6fed97a4a79f198841fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 04/22] fix: dot product gradient can be propagated further

---
 src/tensor/functional/misc.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index dfb369e..723680f 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -1,7 +1,7 @@
 use super::super::numeric::*;
 use crate::tensor::autograd::Derivative;
 use crate::tensor::utils::{global_index, ElementIterator};
-use crate::tensor::{autograd, RawTensor, RcTensor, TensorLike};
+use crate::tensor::{RawTensor, RcTensor, TensorLike};
 
 use crossbeam::channel::{unbounded, Receiver, Sender};
 use std::{iter, ops::Deref, sync::Arc};
@@ -366,10 +366,17 @@ fn dot_jvp<T: Numeric>(inputs: Vec<RcTensor<T>>, jacobians: Vec<RcTensor<T>>) ->
         inputs.len(),
         jacobians.len()
     );
-    let (left, right) = (inputs[0].clone(), inputs[1].clone());
-    let jacobian = jacobians[0].clone();
-    let left_jvp = autograd::jvp_from_full_jacobians(jacobian.clone(), right);
-    let right_jvp = autograd::jvp_from_full_jacobians(jacobian, left);
+    // the derivative of dot(left, right) in left is right, and the other way around
+    let scaled = |other: &RcTensor<T>| {
+        let rows = jacobians[0].count();
+        let mut array = Vec::with_capacity(rows * other.count());
+        for &grad in jacobians[0].array.iter() {
+            array.extend(other.array.iter().map(|&v| grad * v));
+        }
+        RcTensor::new(array, vec![rows, other.count()])
+    };
+    let left_jvp = scaled(&inputs[1]);
+    let right_jvp = scaled(&inputs[0]);
     vec![left_jvp, right_jvp]
 }
 
-- 
2.43.0


From 097f4772f2f9a19e9162c55ad7e5aad4fb1bd32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 05/22] fix: backward works directly on a one-element abs or
 matrix product

---
 src/tensor/rc_tensor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/rc_tensor.rs b/src/tensor/rc_tensor.rs
index cab1716..cb0df9a 100644
--- a/src/tensor/rc_tensor.rs
+++ b/src/tensor/rc_tensor.rs
@@ -56,7 +56,7 @@ impl<T: Numeric> RcTensor<T> {
         self.grad_fn
             .as_ref()
             .unwrap()
-            .compute_jvp(vec![RcTensor::scalar(T::one())])
+            .compute_jvp(vec![RcTensor::new(vec![T::one()], vec![1, 1])])
     }
     pub fn is_scalar(&self) -> bool {
         self.0.array.len() == 1 && self.0.shape.is_empty()
-- 
2.43.0


From d2a31e6a057aaef59a50f0e9b13e79694f58e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 06/22] fix: concurrent gradient updates are not lost

---
 src/tensor/raw_tensor.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 8f414b1..20e0aa5 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -305,11 +305,12 @@ where
     }
 
     fn update_grad(&self, grad: Self::GradType) {
-        let new_grad = match self.grad.read().unwrap().as_ref() {
-            None => Some(grad),
-            Some(other_grad) => Some(other_grad + &grad),
+        let mut current = self.grad.write().unwrap();
+        let new_grad = match current.as_ref() {
+            None => grad,
+            Some(other_grad) => other_grad + &grad,
         };
-        *self.grad.write().unwrap() = new_grad;
+        *current = Some(new_grad);
     }
     fn shape(&self) -> Self::ShapeReturn<'_> {
         &self.shape
-- 
2.43.0


From d408427008690b8acda41bc337e06d3c3ebbd385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 07/22] fix: matrix product gradient does not deadlock inside a
 small thread pool

---
 src/tensor/functional/misc.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 723680f..0d0e680 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -255,11 +255,11 @@ pub(crate) fn bmm_jvp<T: Numeric>(
     // currently: loop through all the non-zero values:
     // J_A[ø[i,j], ø[i,k]] = B[k,j]
     // Consider seeing if there is a way to get this to work such that we also build the array as
+    let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
+    let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
+    let left_split_writer_ref = &mut left_split_writer;
+    let right_split_writer_ref = &mut right_split_writer;
     rayon::in_place_scope(|s| {
-        let mut left_split_writer = SplitArrayWriter::new(&mut left_array[..]);
-        let mut right_split_writer = SplitArrayWriter::new(&mut right_array[..]);
-        let left_split_writer_ref = &mut left_split_writer;
-        let right_split_writer_ref = &mut right_split_writer;
         for i in 0..inputs[0].shape()[0] {
             for k in 0..inputs[0].shape()[1] {
                 for j in 0..inputs[1].shape()[1] {
@@ -321,6 +321,10 @@ pub(crate) fn bmm_jvp<T: Numeric>(
                 }
             }
         }
+    });
+    // The receivers block their worker threads until every sender is gone, so all the senders
+    // must have run first: otherwise they may be queued behind the receivers for good.
+    rayon::in_place_scope(|s| {
         right_split_writer.start_then_join(s);
         left_split_writer.start_then_join(s);
     });
-- 
2.43.0


From 9a0f306ed486d337579966252e546fee964e2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 08/22] fix: index lookup honours a slice's own extents, short
 indices and huge components

---
 src/tensor/utils.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 53d9f17..669a4a0 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -179,9 +179,15 @@ pub(in crate::tensor) fn global_index(
     shape: &[usize],
     offset: Option<&Vec<SliceRange>>,
 ) -> Result<usize, String> {
+    // the number of positions that are visible in the i-th dimension
+    let extent = |i: usize| match offset {
+        Some(range_vec) => range_vec[i].end - range_vec[i].start,
+        None => shape[i],
+    };
     if index.len() < shape.len() {
-        for &dim in &shape[..shape.len() - index.len()] {
-            if dim > 1 {
+        for i in 0..shape.len() - index.len() {
+            let dim = extent(i);
+            if dim != 1 {
                 return Err(format!(
                     "shapes do not match: self.shape={:?}, index={:?}
                     Need index to be at least as long as shape.
@@ -194,23 +200,15 @@ pub(in crate::tensor) fn global_index(
     let mut global_idx = 0;
     let mut multiplier = 1;
     // TODO: consider turning this into a fold operation.
-    for (i, (&dim, &idx_dim)) in shape.iter().rev().zip(index.iter().rev()).enumerate() {
-        // Fix the indexing.  We need to have all the reverses index may be shorter than shape.
-        let i = shape.len() - i - 1;
-        let shaped_dim;
-        let shifted_idx;
-        if dim == 1 {
+    for (i, &dim) in shape.iter().enumerate().rev() {
+        let shaped_dim = extent(i);
+        let idx_dim = if shaped_dim == 1 {
             // we pick the 0th element during broadcasting
-            continue;
-        }
-        if let Some(range_vec) = offset {
-            // println!("setting offset: {:?}", range_vec.clone());
-            shaped_dim = range_vec[i].end - range_vec[i].start;
-            shifted_idx = range_vec[i].start + idx_dim;
+            0
         } else {
-            shaped_dim = dim;
-            shifted_idx = idx_dim;
-        }
+            // the index is aligned with the shape at its last position, it may be longer
+            index[index.len() + i - shape.len()]
+        };
         if shaped_dim <= idx_dim {
             return Err(format!(
                     "Trying to index too far into the view!
@@ -218,12 +216,16 @@ pub(in crate::tensor) fn global_index(
                     index is: {:?}
                     Offest: {:?}
                     the {i}-th position is out-of-bounds!
-                    shaped_dim={shaped_dim}, shifted_idx={shifted_idx}, dim={dim}, idx_dim={idx_dim}",
+                    shaped_dim={shaped_dim}, dim={dim}, idx_dim={idx_dim}",
                     shape,
                     index,
                     offset,
                 ));
         }
+        let shifted_idx = match offset {
+            Some(range_vec) => range_vec[i].start + idx_dim,
+            None => idx_dim,
+        };
 
         if dim <= shifted_idx {
             return Err(format!(
-- 
2.43.0


From 6d339e3913e0bcf4b5be0bebd5d177734919b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 09/22] fix: looking outside a slice returns an error instead
 of panicking

---
 src/tensor/tensor_view.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 4683c38..81b4943 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -125,11 +125,7 @@ where
     }
 
     fn get(&self, index: IndexType) -> Result<&T, String> {
-        let idx = self
-            .tensor
-            .global_index(index, Some(&self.view.offset))
-            .unwrap();
-        Ok(&self.tensor.array[idx])
+        self.tensor.get_with_offset(index, &self.view.offset)
     }
 
     fn count(&self) -> usize {
-- 
2.43.0


From b12dad14d925e431bd3498f93c10fb7876b0fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 10/22] fix: slicing a slice is relative to the slice

---
 src/tensor/tensor_view.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index 81b4943..d6a0982 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -133,6 +133,16 @@ where
     }
 
     fn slice(&self, offset: Vec<SliceRange>) -> TensorView<T> {
+        assert_eq!(offset.len(), self.view.shape.len());
+        // the ranges are relative to this view, the result refers to the underlying tensor
+        let offset = offset
+            .iter()
+            .zip(self.view.offset.iter())
+            .map(|(inner, outer)| {
+                assert!(inner.end <= outer.end - outer.start);
+                SliceRange::new(outer.start + inner.start, outer.start + inner.end)
+            })
+            .collect();
         TensorView::new(self.tensor(), offset)
     }
 
-- 
2.43.0


From 5b378175d7a8b9f1a6295c965e6f5d6038c00dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 11/22] fix: a reshaped view shows the elements of the view

---
 src/tensor/tensor_view.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/tensor/tensor_view.rs b/src/tensor/tensor_view.rs
index d6a0982..c179195 100644
--- a/src/tensor/tensor_view.rs
+++ b/src/tensor/tensor_view.rs
@@ -68,14 +68,10 @@ where
             self.view.shape.iter().product::<usize>(),
             shape.iter().product::<usize>()
         );
-        TensorView {
-            tensor: self.tensor.clone(),
-            view: View {
-                shape,
-                offset: self.view.offset.clone(),
-            }
-            .into(),
-        }
+        // the elements that the view shows need not be contiguous in the underlying tensor
+        let offset = shape.iter().map(|&dim| SliceRange::new(0, dim)).collect();
+        let tensor = RcTensor::new(self.to_tensor().array.clone(), shape);
+        TensorView::new(tensor, offset)
     }
 }
 
-- 
2.43.0


From 1a761ecf08b0337b241bca52c1a7cdd33a16cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:12 +0000
Subject: [PATCH 12/22] fix: scaling a slice scales the elements it shows

---
 src/tensor/tensor_like.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_like.rs b/src/tensor/tensor_like.rs
index c1244f7..1845bdb 100644
--- a/src/tensor/tensor_like.rs
+++ b/src/tensor/tensor_like.rs
@@ -66,7 +66,7 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn left_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for &elem in self.to_tensor().array.iter() {
             result.array.push(scalar * elem);
         }
         result
@@ -74,7 +74,7 @@ pub trait TensorLike: TensorLikePrivate + Sync + Send + std::fmt::Debug {
 
     fn right_scalar_multiplication(&self, &scalar: &Self::Elem) -> RawTensor<Self::Elem> {
         let mut result = RawTensor::new_empty((*self.shape()).clone());
-        for &elem in self.tensor().array.iter() {
+        for &elem in self.to_tensor().array.iter() {
             result.array.push(elem * scalar);
         }
         result
-- 
2.43.0


From 8f25885c0f3fb7a79d15b369a2ea5009a54d0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 13/22] fix: dot product of slices uses the elements they show

---
 src/tensor/functional/misc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index 0d0e680..afd2d4b 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -32,8 +32,8 @@ where
     //! generalised dot product: returns to acculumulated sum of the elementwise product.
     assert!(left.same_shape(&right));
     let mut result = T::zero();
-    for i in 0..left.tensor().array.len() {
-        result += left.tensor().array[i] * right.tensor().array[i];
+    for (l, r) in ElementIterator::new(left).zip(ElementIterator::new(right)) {
+        result += l * r;
     }
     RawTensor {
         array: vec![result],
-- 
2.43.0


From 3d1824e7eeb1dc8f0793a83ff597bc50925f407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 14/22] fix: shapes with a zero dimension have no indices

---
 src/tensor/utils.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tensor/utils.rs b/src/tensor/utils.rs
index 669a4a0..e38a9f9 100644
--- a/src/tensor/utils.rs
+++ b/src/tensor/utils.rs
@@ -38,6 +38,9 @@ where
 {
     type Item = T;
     fn next(&mut self) -> Option<Self::Item> {
+        if self.tensor_like.shape().contains(&0) {
+            return None;
+        }
         if self.first {
             self.first = false;
             let &elem = self.tensor_like.get(&self.index).unwrap();
@@ -87,6 +90,9 @@ impl IndexIterator {
 impl Iterator for IndexIterator {
     type Item = Vec<usize>;
     fn next(&mut self) -> Option<Self::Item> {
+        if self.dimensions.contains(&0) {
+            return None;
+        }
         if self.first {
             self.first = false;
             return Some(self.index.clone());
@@ -103,7 +109,7 @@ pub(crate) fn increment_index<V: Deref<Target = [usize]>>(index: &mut [usize], s
     for i in (0..index.len()).rev() {
         let v = index[i];
         let dim = shape[i];
-        while v < dim - 1 && carry > 0 {
+        while v + 1 < dim && carry > 0 {
             index[i] = v + 1;
             carry -= 1;
         }
-- 
2.43.0


From 846dce78f4e7889efc5d2ebee1183676bc96fe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 15/22] fix: a zero dimension broadcasts against one to zero

---
 src/tensor/functional/element_wise_ops.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tensor/functional/element_wise_ops.rs b/src/tensor/functional/element_wise_ops.rs
index be46bc2..6795313 100644
--- a/src/tensor/functional/element_wise_ops.rs
+++ b/src/tensor/functional/element_wise_ops.rs
@@ -269,7 +269,8 @@ fn max_shape(left_shape: &[usize], right_shape: &[usize]) -> Vec<usize> {
         .rev()
     {
         let dim = match pair {
-            Both(&l, &r) => max(l, r),
+            Both(&1, &r) => r,
+            Both(&l, _) => l,
             Left(&l) => l,
             Right(&r) => r,
         };
-- 
2.43.0


From f1264405e7bff040b7f8f35794892455ca13528d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 16/22] fix: gradients of operations on tensors without
 elements

---
 src/tensor/functional/element_wise_ops.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/tensor/functional/element_wise_ops.rs b/src/tensor/functional/element_wise_ops.rs
index 6795313..848da3d 100644
--- a/src/tensor/functional/element_wise_ops.rs
+++ b/src/tensor/functional/element_wise_ops.rs
@@ -152,6 +152,9 @@ pub(crate) fn jvp_from_diagonal_broadcast<T: Numeric>(
         jvp_shape
     );
     let mut array = vec![T::zero(); jvp_shape[0] * jvp_shape[1]];
+    if diagonal.count() == 0 {
+        return RcTensor::new(array, jvp_shape);
+    }
     let mut idx = vec![0; diagonal.shape().len()];
     let mut orig_idx = vec![0; broadcast_shape.len()];
     // let mut tensor_idx = vec![0; ]
@@ -229,13 +232,9 @@ jacobians are not matrix multipliable",
 
     //    dbg!(&left.shape(), &right.shape(), &diag_shape, &broadcast_shape);
     let mut array = Vec::with_capacity(diag_length);
-    let mut idx = vec![0; broadcast_shape.len()];
-    loop {
+    for idx in IndexIterator::new(broadcast_shape.clone()) {
         let (&l, &r) = (left.get(&idx).unwrap(), right.get(&idx).unwrap());
         array.push(op_derivative(l, r));
-        if !increment_index(&mut idx, &broadcast_shape[..]) {
-            break;
-        }
     }
 
     let diag = RcTensor::new(array, diag_shape.clone());
@@ -374,15 +373,11 @@ pub(crate) fn generic_unary_jvp<T: Numeric>(
     let jvp_shape = vec![dim_0, diag_length];
 
     let mut array = Vec::with_capacity(diag_length);
-    let mut idx = vec![0; tensor.shape().len()];
-    loop {
+    for idx in IndexIterator::new(tensor.shape().clone()) {
         let &v = tensor.get(&idx).unwrap();
         let d = op_derivative(v);
         //        //        dbg!(&d);
         array.push(d);
-        if !increment_index(&mut idx, &tensor.shape()[..]) {
-            break;
-        }
     }
     let diag = RcTensor::new(array, diag_shape);
     vec![jvp_from_diagonal_broadcast(
-- 
2.43.0


From 7b961edabcc73d895d84ee5315f59a4b251d0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 17/22] fix: parameters replaced by an SGD step are no longer
 touched by later rounds

---
 src/optim/sgd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optim/sgd.rs b/src/optim/sgd.rs
index 0ba9465..b7dbd44 100644
--- a/src/optim/sgd.rs
+++ b/src/optim/sgd.rs
@@ -34,8 +34,8 @@ pub fn sgd_step<T: Numeric + Real, U: Module<T>>(module: &mut U, step_size: Scal
         .iter()
         .map(|p| {
             let new = p.clone() - &step_size * p.grad();
-            new.zero_grad();
-            new
+            // without the history: later backward passes must stop at the new parameters
+            new.deep_clone()
         })
         .collect();
     module.update_params(new_params);
-- 
2.43.0


From 59cf3d47a86242ae6c3b2edbcbe7971ba2a717b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 18/22] fix: matrix product rejects a left operand of rank four
 or more

---
 src/tensor/functional/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/functional/misc.rs b/src/tensor/functional/misc.rs
index afd2d4b..4328cd3 100644
--- a/src/tensor/functional/misc.rs
+++ b/src/tensor/functional/misc.rs
@@ -55,7 +55,7 @@ where
 {
     // assert!(2 <= self.shape().len() && self.shape().len() <= 3); // For now we can only do Batch matrix
     //    dbg!(left.shape(), right.shape());
-    assert!(2 <= left.shape().len()); // For now we can only do Batch matrix
+    assert!(2 <= left.shape().len() && left.shape().len() <= 3); // For now we can only do Batch matrix
     assert!(right.shape().len() == 2); // rhs must be a matrix
                                        //
     assert!(left.shape()[left.shape().len() - 1] == right.shape()[right.shape().len() - 2]);
-- 
2.43.0


From a33ab4733355daa1b4bdc5c1a52cabeb908b22b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 19/22] fix: constructors reject a shape whose element count
 overflows

---
 src/tensor/raw_tensor.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 20e0aa5..416aefb 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -159,9 +159,11 @@ where
                 ..Default::default()
             };
         }
-        let mut total = 1;
+        let mut total: usize = 1;
         for &dim in shape.iter() {
-            total *= dim;
+            total = total
+                .checked_mul(dim)
+                .expect("shape has too many elements");
         }
 
         let mut tensor = RawTensor {
@@ -184,9 +186,9 @@ where
     }
 
     pub fn new(array: Vec<T>, shape: Vec<usize>) -> RawTensor<T> {
-        let mut len = 1;
-        for dim in shape.iter() {
-            len *= dim;
+        let mut len: usize = 1;
+        for &dim in shape.iter() {
+            len = len.checked_mul(dim).expect("shape has too many elements");
         }
         assert_eq!(
             len,
-- 
2.43.0


From 7cf0efc3e67f658c4e58cd16392cd1fbb54cfa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 20/22] fix: accumulated gradients do not keep the history of
 their sum

---
 src/tensor/raw_tensor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index 416aefb..ad61be6 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -310,7 +310,8 @@ where
         let mut current = self.grad.write().unwrap();
         let new_grad = match current.as_ref() {
             None => grad,
-            Some(other_grad) => other_grad + &grad,
+            // not `other_grad + &grad`, which would record every earlier gradient as its history
+            Some(other_grad) => RcTensor::from_raw(functional::add_raw(other_grad, &grad)),
         };
         *current = Some(new_grad);
     }
-- 
2.43.0


From 9bc28790f5fe59b93b18f9070f57ef1dbe6a83d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 21/22] fix: a refused gradient does not make the stored one
 unusable

---
 src/tensor/raw_tensor.rs | 14 ++++++++++----
 src/tensor/rc_tensor.rs  |  8 ++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/tensor/raw_tensor.rs b/src/tensor/raw_tensor.rs
index ad61be6..e2dae0e 100644
--- a/src/tensor/raw_tensor.rs
+++ b/src/tensor/raw_tensor.rs
@@ -2,7 +2,7 @@ use std::cmp::PartialEq;
 use std::convert::From;
 use std::{
     ops::{Add, Deref, Index, Mul, Neg, Sub},
-    sync::RwLock,
+    sync::{PoisonError, RwLock},
 };
 
 use super::autograd::Derivative;
@@ -53,7 +53,12 @@ impl<T: Numeric> Clone for RawTensor<T> {
         RawTensor {
             array: self.array.clone(),
             shape: self.shape.clone(),
-            grad: self.grad.read().unwrap().clone().into(),
+            grad: self
+                .grad
+                .read()
+                .unwrap_or_else(PoisonError::into_inner)
+                .clone()
+                .into(),
             grad_fn: self.grad_fn.clone(),
         }
     }
@@ -303,11 +308,12 @@ where
     }
 
     fn zero_grad(&self) {
-        *self.grad.write().unwrap() = None;
+        *self.grad.write().unwrap_or_else(PoisonError::into_inner) = None;
     }
 
     fn update_grad(&self, grad: Self::GradType) {
-        let mut current = self.grad.write().unwrap();
+        // a panic in the addition leaves the gradient as it was, so a poisoned lock is usable
+        let mut current = self.grad.write().unwrap_or_else(PoisonError::into_inner);
         let new_grad = match current.as_ref() {
             None => grad,
             // not `other_grad + &grad`, which would record every earlier gradient as its history
diff --git a/src/tensor/rc_tensor.rs b/src/tensor/rc_tensor.rs
index cb0df9a..fd3f029 100644
--- a/src/tensor/rc_tensor.rs
+++ b/src/tensor/rc_tensor.rs
@@ -4,7 +4,7 @@ use std::cmp::PartialEq;
 use std::convert::From;
 use std::{
     ops::{Add, Deref, Mul, Sub},
-    sync::Arc,
+    sync::{Arc, PoisonError},
 };
 
 use super::autograd::{self, Derivative};
@@ -124,7 +124,11 @@ impl<T: Numeric> RcTensor<T> {
     where
         Self: 'a,
     {
-        self.0.grad.read().unwrap().clone()
+        self.0
+            .grad
+            .read()
+            .unwrap_or_else(PoisonError::into_inner)
+            .clone()
     }
 
     //TODO: deprecate
-- 
2.43.0


From b1e56bdf7d84adc7df92864574cf4a9d7c27e5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 22/22] fix: an MLP refuses a parameter list of the wrong
 length without changing any layer

---
 src/nn/feed_foward.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nn/feed_foward.rs b/src/nn/feed_foward.rs
index 69f311a..500eb58 100644
--- a/src/nn/feed_foward.rs
+++ b/src/nn/feed_foward.rs
@@ -38,6 +38,12 @@ impl<T: Numeric, const N: usize> Module<T> for Mlp<T, N> {
     }
 
     fn update_params(&mut self, new_params: TensorList<T>) {
+        // checked before any layer changes: a short list would leave the layers half replaced
+        assert_eq!(
+            new_params.len(),
+            2 * self.layers.len(),
+            "a parameter list has weights and bias for each layer"
+        );
         let mut param_iter = new_params.into_iter().rev();
         for i in (0..self.layers.len()).rev() {
             let bias = param_iter.next().unwrap();
-- 
2.43.0

