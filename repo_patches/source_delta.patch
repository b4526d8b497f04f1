From e3db27e4e5a42170ac273f22bbb9c81405c5fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:25 +0000
Subject: [PATCH 01/10] fix: do not yield elements when iterating over an empty
 expression

If an outer dimension is empty but the inner ones are not (or vice versa), the
iterator still visited elements, reading or writing outside of the array.
---
 src/expr/iter.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index 6b59c3e..c61dfa9 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -20,15 +20,23 @@ impl<E: Expression> Iter<E> {
         let outer_rank = expr.rank().saturating_sub(expr.inner_rank());
 
         let inner_index = 0;
-        let inner_limit = expr.shape().with_dims(|dims| dims[outer_rank..].iter().product());
+        let mut inner_limit = 0;
 
         let mut outer_index = Default::default();
         let mut outer_limit = Default::default();
 
+        // Leave all limits as zero if the expression is empty, also if some dimensions are not.
+        if !expr.is_empty() {
+            inner_limit = expr.shape().with_dims(|dims| dims[outer_rank..].iter().product());
+        }
+
         if outer_rank > 0 {
             outer_index = Dims::new(expr.rank());
-            outer_limit =
-                expr.shape().with_dims(|dims| TryFrom::try_from(dims).expect("invalid rank"));
+            outer_limit = if expr.is_empty() {
+                Dims::new(expr.rank())
+            } else {
+                expr.shape().with_dims(|dims| TryFrom::try_from(dims).expect("invalid rank"))
+            };
         }
 
         Self { expr, inner_index, inner_limit, outer_index, outer_limit }
-- 
2.43.0


From 00b65425b46800ac8aff977f6075cd22b95e816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:28 +0000
Subject: [PATCH 02/10] fix: do not restart iteration after the last element

The iterator is marked as fused, but with outer dimensions it started over from
the beginning, giving aliasing references when iterating over a mutable view.
---
 src/expr/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/iter.rs b/src/expr/iter.rs
index c61dfa9..54ea281 100644
--- a/src/expr/iter.rs
+++ b/src/expr/iter.rs
@@ -65,7 +65,7 @@ impl<E: Expression> Iter<E> {
             }
         }
 
-        self.outer_index.as_mut().fill(0); // Ensure that following calls return false.
+        self.outer_limit.as_mut().fill(1); // Ensure that following calls return false.
 
         false
     }
-- 
2.43.0


From 448d3b6ccdc7bcda45bb51402d5b5311fd9e140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:59 +0000
Subject: [PATCH 03/10] fix: include the outer offset when indexing array lanes

Lanes expressions over arrays with more than one remaining, non-dense dimension
repeated the lanes for the first outer index, and gave aliasing mutable views.
---
 src/expr/sources.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index e8bb131..ceb2eb2 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -439,7 +439,7 @@ macro_rules! impl_lanes {
             }
 
             unsafe fn get_unchecked(&mut self, index: usize) -> Self::Item {
-                let offset = self.mapping.inner_stride() * index as isize;
+                let offset = self.offset + self.mapping.inner_stride() * index as isize;
                 let mapping = self.axis.get(self.slice.mapping());
 
                 // If the view is empty, we must not offset the pointer.
-- 
2.43.0


From 1f06349e9c86e5f9febe9950af0ebf689a4bd70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:03 +0000
Subject: [PATCH 04/10] fix: allocate the index for from_fn expressions with
 dynamic rank

---
 src/expr/sources.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr/sources.rs b/src/expr/sources.rs
index ceb2eb2..30ab88a 100644
--- a/src/expr/sources.rs
+++ b/src/expr/sources.rs
@@ -1,5 +1,6 @@
 use std::fmt::{Debug, Formatter, Result};
 
+use crate::dim::Dims;
 use crate::expr::expression::Expression;
 use crate::expr::iter::Iter;
 use crate::index::{Axis, Keep, Split};
@@ -350,7 +351,9 @@ impl<S: Shape, F> FromFn<S, F> {
     pub(crate) fn new(shape: S, f: F) -> Self {
         _ = shape.checked_len().expect("invalid length");
 
-        Self { shape, f, index: S::Dims::default() }
+        let index = Dims::new(shape.rank());
+
+        Self { shape, f, index }
     }
 }
 
-- 
2.43.0


From 57318d232aef8cf74c81f1784cac63a22b9a9e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:10 +0000
Subject: [PATCH 05/10] fix: validate permutations of rank 64 and above

The bit mask used in the validation wraps around, so that valid permutations
were rejected and invalid permutations accepted.
---
 src/mapping.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/mapping.rs b/src/mapping.rs
index d996750..c6814d7 100644
--- a/src/mapping.rs
+++ b/src/mapping.rs
@@ -324,25 +324,21 @@ impl<S: Shape> Mapping for StridedMapping<S> {
     fn permute<M: Mapping>(mapping: &M, perm: &[usize]) -> Self {
         assert!(perm.len() == mapping.rank(), "invalid permutation");
 
-        let mut index_mask = 0;
-
-        for i in 0..mapping.rank() {
-            assert!(perm[i] < mapping.rank(), "invalid permutation");
-
-            index_mask |= 1 << perm[i];
-        }
-
-        assert!(index_mask == !(usize::MAX << mapping.rank()), "invalid permutation");
-
         let mut shape = S::new(mapping.rank());
         let mut strides = S::Dims::new(mapping.rank());
 
         shape.with_mut_dims(|dims| {
             // Calculate inverse permutation
             for i in 0..mapping.rank() {
+                assert!(perm[i] < mapping.rank(), "invalid permutation");
+
                 dims[perm[i]] = i;
             }
 
+            for i in 0..mapping.rank() {
+                assert!(dims[perm[i]] == i, "invalid permutation");
+            }
+
             // Permute strides
             mapping.for_each_stride(|i, stride| strides.as_mut()[dims[i]] = stride);
 
-- 
2.43.0


From f2f576478a77bfc6af8b549b02246da424fdc2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:13 +0000
Subject: [PATCH 06/10] fix: validate the new shape before resizing the array

With constant-sized dimensions, a mismatch was detected after modifying the
vector which aborts the process if all dimensions have constant size.
---
 src/raw_tensor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/raw_tensor.rs b/src/raw_tensor.rs
index 9e279d1..4905874 100644
--- a/src/raw_tensor.rs
+++ b/src/raw_tensor.rs
@@ -118,6 +118,8 @@ impl<T, S: Shape, A: Allocator> RawTensor<T, S, A> {
             let new_len = new_dims.iter().try_fold(1usize, |acc, &x| acc.checked_mul(x));
             let new_len = new_len.expect("invalid length");
 
+            _ = S::from_dims(new_dims); // Ensure that the new shape is valid.
+
             unsafe {
                 self.with_mut_parts(|vec, old_mapping| {
                     old_mapping.shape().with_dims(|old_dims| {
-- 
2.43.0


From b7760aaac12889a698a3944fd3308b0a60fa15da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:16 +0000
Subject: [PATCH 07/10] fix: do not leak an element if the argument of zip_with
 panics

If the argument expression panics, the preceding element is already written
back and should be dropped.
---
 src/tensor.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 2f28ced..a7adfb5 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -430,35 +430,34 @@ impl<T, S: Shape, A: Allocator> Tensor<T, S, A> {
     {
         struct DropGuard<T, S: Shape, A: Allocator> {
             tensor: ManuallyDrop<Tensor<T, S, A>>,
-            index: usize,
+            read: usize,
+            written: usize,
         }
 
         impl<T, S: Shape, A: Allocator> Drop for DropGuard<T, S, A> {
             fn drop(&mut self) {
                 let ptr = self.tensor.as_mut_ptr();
-                let tail = self.tensor.len() - self.index;
+                let tail = self.tensor.len() - self.read;
 
-                // Drop all elements except the current one, which is read but not written back.
+                // Drop all elements except the current one, if it is read but not written back.
                 unsafe {
                     let mut vec = ManuallyDrop::take(&mut self.tensor).into_vec();
 
                     vec.set_len(0);
 
-                    if self.index > 1 {
-                        ptr::slice_from_raw_parts_mut(ptr, self.index - 1).drop_in_place();
-                    }
-
-                    ptr::slice_from_raw_parts_mut(ptr.add(self.index), tail).drop_in_place();
+                    ptr::slice_from_raw_parts_mut(ptr, self.written).drop_in_place();
+                    ptr::slice_from_raw_parts_mut(ptr.add(self.read), tail).drop_in_place();
                 }
             }
         }
 
-        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), index: 0 };
+        let mut guard = DropGuard { tensor: ManuallyDrop::new(self), read: 0, written: 0 };
         let expr = guard.tensor.expr_mut().zip(expr);
 
         expr.for_each(|(x, y)| unsafe {
-            guard.index += 1;
+            guard.read += 1;
             ptr::write(x, f((ptr::read(x), y)));
+            guard.written += 1;
         });
 
         let tensor = unsafe { ManuallyDrop::take(&mut guard.tensor) };
-- 
2.43.0


From 3f24e0815b22d34ac079ae96dfdf69e67088a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:34 +0000
Subject: [PATCH 08/10] fix: drop existing elements when cloning into a moving
 expression

---
 src/expr/into_expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/into_expr.rs b/src/expr/into_expr.rs
index 319aafd..a4f28e6 100644
--- a/src/expr/into_expr.rs
+++ b/src/expr/into_expr.rs
@@ -49,9 +49,9 @@ impl<B: Buffer + Clone> Clone for IntoExpr<B> {
     }
 
     fn clone_from(&mut self, source: &Self) {
-        assert!(self.index == 0 && source.index == 0, "expression in use");
+        assert!(self.index == 0, "expression in use");
 
-        self.buffer.clone_from(&source.buffer);
+        *self = source.clone(); // Ensure that existing elements are dropped.
     }
 }
 
-- 
2.43.0


From 5fab35d8c27a66dc042baab4e18d4758aecdc51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:21 +0000
Subject: [PATCH 09/10] fix: limit the allocation from size hints when
 deserializing

Malformed input can give size hints that are not consistent with the number of
elements, which should be an error instead of panic or excessive allocation.
---
 src/serde.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index ef5e30d..a7a0fd3 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -2,6 +2,7 @@
 use std::alloc::Allocator;
 use std::fmt::{self, Formatter};
 use std::marker::PhantomData;
+use std::mem;
 
 use serde::de::{Error, SeqAccess, Visitor};
 use serde::ser::SerializeSeq;
@@ -38,8 +39,11 @@ impl<'a, T: Deserialize<'a>, S: Shape> Visitor<'a> for TensorVisitor<T, S> {
 
         let size_hint = seq.size_hint().unwrap_or(0);
 
+        // Limit the initial allocation to 1 MiB, since the size hint cannot be trusted.
+        let max_capacity = (1 << 20) / mem::size_of::<T>().max(1);
+
         if S::RANK == Some(1) {
-            vec.reserve(size_hint);
+            vec.reserve(size_hint.min(max_capacity));
 
             while let Some(value) = seq.next_element()? {
                 vec.push(value);
@@ -48,7 +52,7 @@ impl<'a, T: Deserialize<'a>, S: Shape> Visitor<'a> for TensorVisitor<T, S> {
         } else {
             while let Some(value) = seq.next_element::<Tensor<T, S::Tail>>()? {
                 if size == 0 {
-                    vec.reserve(value.len() * size_hint);
+                    vec.reserve(value.len().saturating_mul(size_hint).min(max_capacity));
                     shape.with_mut_dims(|dims| {
                         value.shape().with_dims(|src| dims[1..].copy_from_slice(src));
                     });
-- 
2.43.0


From 8e580b10d7da8a647da1c33e93b0c478e25e80c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:05 +0000
Subject: [PATCH 10/10] fix: Array::into_shape accepted target shapes with
 overflowing length

---
 src/array.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/array.rs b/src/array.rs
index f2b27ce..9d12d30 100644
--- a/src/array.rs
+++ b/src/array.rs
@@ -52,7 +52,9 @@ impl<T, S: ConstShape> Array<T, S> {
     ///
     /// Panics if the array length is changed.
     pub fn into_shape<I: ConstShape>(self) -> Array<T, I> {
-        assert!(I::default().len() == self.len(), "length must not change");
+        let new_len = I::default().checked_len().expect("invalid length");
+
+        assert!(new_len == self.len(), "length must not change");
 
         let me = ManuallyDrop::new(self);
 
-- 
2.43.0

