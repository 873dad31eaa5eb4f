From 6a8c30051ef76888f5a63636aa9fe5e4b4281d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:46 +0000
Subject: [PATCH 01/30] fix: Tensor::get applied a view's offset twice

---
 src/tensor/tensor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 80d0fb6..1abb295 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -62,9 +62,7 @@ impl<T: Type> Tensor<T> {
     pub fn get(&self, offset: usize) -> Option<&T> {
         unsafe {
             if offset < self.size {
-                let count = offset + self.offset;
-
-                self.as_ptr().add(count).as_ref()
+                self.as_ptr().add(offset).as_ref()
             } else {
                 None
             }
-- 
2.43.0


From c83610d88dfe5f23b5082b4d6c40df05fe31c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:47 +0000
Subject: [PATCH 02/30] fix: as_wrap_slice_n applied a view's offset twice

---
 src/tensor/tensor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 1abb295..4ea492a 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -110,11 +110,10 @@ impl<T: Type> Tensor<T> {
             offset % self.size
         };
 
-        let count = self.offset + offset;
-        assert!(count + len <= self.size);
+        assert!(len <= self.size - offset);
 
         unsafe {
-            ptr::slice_from_raw_parts(self.as_ptr().add(count), len)
+            ptr::slice_from_raw_parts(self.as_ptr().add(offset), len)
                 .as_ref()
                 .unwrap()
         }
-- 
2.43.0


From 6240fe5c6760060e600dffddc8acba9b00689468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:47 +0000
Subject: [PATCH 03/30] fix: normalize wrote results transposed when the axis
 is not the last

---
 src/tensor/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/map.rs b/src/tensor/map.rs
index a25a3ba..897d102 100644
--- a/src/tensor/map.rs
+++ b/src/tensor/map.rs
@@ -619,7 +619,7 @@ where
                     for k in 0..a_len {
                         let v = &a[(n * a_len + k) * inner + i];
 
-                        o.add((n * inner + i) * a_len + k)
+                        o.add((n * a_len + k) * inner + i)
                             .write((norm)(&state, v));
                     }
                 }
-- 
2.43.0


From 786890fd44b4931dcd077e3d8dbf803edbe5ccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:47 +0000
Subject: [PATCH 04/30] fix: unsafe_init called alloc with a zero-size layout
 and ignored a null result

---
 src/tensor/data.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tensor/data.rs b/src/tensor/data.rs
index 1ad5c1a..646f097 100644
--- a/src/tensor/data.rs
+++ b/src/tensor/data.rs
@@ -88,7 +88,14 @@ pub unsafe fn unsafe_init<T: Type>(
     let shape = shape.into();
 
     let layout = Layout::array::<T>(len).unwrap();
-    let data = NonNull::<T>::new_unchecked(alloc::alloc(layout).cast::<T>());
+    let data = if layout.size() == 0 {
+        NonNull::<T>::dangling()
+    } else {
+        match NonNull::<T>::new(alloc::alloc(layout).cast::<T>()) {
+            Some(data) => data,
+            None => alloc::handle_alloc_error(layout),
+        }
+    };
 
     (init)(data.cast::<T>().as_mut());
 
-- 
2.43.0


From 4a20d0cfe4e67aea0b174e155dc32e4837f49409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:48 +0000
Subject: [PATCH 05/30] fix: squeeze of an axis removed the dimension next to
 it

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 4a8552a..d404bfa 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -317,7 +317,7 @@ impl Shape {
             Some(axis) => {
                 let len = self.rank;
                 let axis = (axis + len as isize) % len as isize;
-                let axis = self.rank as usize - axis as usize;
+                let axis = self.rank as usize - 1 - axis as usize;
                 
                 let mut rank = 0;
                 let mut dims = [0; Self::MAX_RANK];
-- 
2.43.0


From 92125046c34138bf407c5e5fa97d4790e3817647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:48 +0000
Subject: [PATCH 06/30] fix: Shape::append produced an invalid rank and
 prepended the tail

---
 src/tensor/shape.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index d404bfa..282b521 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -241,16 +241,10 @@ impl Shape {
 
     #[must_use]
     pub fn append(&self, tail: &[usize]) -> Self {
-        let mut dims = self.dims.clone();
-
-        for (i, dim) in tail.iter().enumerate() {
-            dims[i + self.rank as usize] = *dim as u32;
-        }
+        let mut vec = self.as_vec();
+        vec.extend_from_slice(tail);
 
-        Self {
-            dims,
-            rank: self.rank + dims.len(),
-        }
+        Self::from(vec.as_slice())
     }
 
     #[inline]
-- 
2.43.0


From 31b8009bc85ad6212b93f33e70054af0387c67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:49 +0000
Subject: [PATCH 07/30] fix: Shape::batch_len multiplied the inner dimensions

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 282b521..e41fab7 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -149,7 +149,7 @@ impl Shape {
         let rank = self.rank();
 
         if base_rank < rank {
-            self.dims[0..rank - base_rank].iter().product::<u32>() as usize
+            self.dims[base_rank..rank].iter().product::<u32>() as usize
         } else {
             1
         }
-- 
2.43.0


From 315c8e8f30ac10df9e59cb39c769f1083c68bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:49 +0000
Subject: [PATCH 08/30] fix: rank 3 and 4 indexing checked the size in place of
 the rank

---
 src/tensor/index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/index.rs b/src/tensor/index.rs
index 8999e1a..324f365 100644
--- a/src/tensor/index.rs
+++ b/src/tensor/index.rs
@@ -42,7 +42,7 @@ impl<T: Type> Index<(usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 2);
         assert!(index.0 < shape.rdim(2));
@@ -65,7 +65,7 @@ impl<T: Type> Index<(usize, usize, usize, usize)> for Tensor<T> {
 
     fn index(&self, index: (usize, usize, usize, usize)) -> &Self::Output {
         let shape = self.shape();
-        let len = shape.size();
+        let len = shape.rank();
 
         assert!(len > 3);
         assert!(index.0 < shape.rdim(3));
-- 
2.43.0


From ced1b945e94a62248e59793d46841a2c99a835f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:50 +0000
Subject: [PATCH 09/30] fix: Rand64::next_uniform was not in the unit interval

---
 src/random/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.rs b/src/random/random.rs
index 94c5be3..c92d42a 100644
--- a/src/random/random.rs
+++ b/src/random/random.rs
@@ -76,7 +76,7 @@ impl Rand64 {
 
     #[inline]
     pub fn next_uniform(&mut self) -> f64 {
-        self.next() as f64 / u32::MAX as f64
+        self.next() as f64 / u64::MAX as f64
     }
 
     #[inline]
-- 
2.43.0


From 0e94f4273caf3e96d44dfb00f90dbfb6de96dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:50 +0000
Subject: [PATCH 10/30] fix: next_normal was infinite or NaN when the uniform
 draw is zero

---
 src/random/random.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random/random.rs b/src/random/random.rs
index c92d42a..659f68a 100644
--- a/src/random/random.rs
+++ b/src/random/random.rs
@@ -33,7 +33,7 @@ impl Rand32 {
 
     #[inline]
     pub fn next_normal(&mut self) -> f32 {
-        let rng_a = self.next_uniform();
+        let rng_a = self.next_uniform().max(f32::MIN_POSITIVE);
         let rng_b = self.next_uniform();
 
         // Box-Muller
@@ -81,7 +81,7 @@ impl Rand64 {
 
     #[inline]
     pub fn next_normal(&mut self) -> f64 {
-        let rng_a = self.next_uniform();
+        let rng_a = self.next_uniform().max(f64::MIN_POSITIVE);
         let rng_b = self.next_uniform();
 
         // Box-Muller
-- 
2.43.0


From a54a53e06f6bec1e015d132e1bc27f5e91069824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:51 +0000
Subject: [PATCH 11/30] fix: matmul swapped the rows and columns of the result
 shape

---
 src/linalg/matmul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index e9c13bb..289c5c3 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -54,7 +54,7 @@ pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Ten
     let b_size = b.rows() * b.cols();
     let o_size = m * n;
 
-    let shape = b.shape().clone().with_cols(m).with_rows(n);
+    let shape = b.shape().clone().with_cols(n).with_rows(m);
 
     unsafe {
         unsafe_init::<f32>(o_size * batch_len, shape, |o| {
-- 
2.43.0


From 0cc685b8b8e88d232ee6f64a5cb638f2c18dfa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:51 +0000
Subject: [PATCH 12/30] fix: matmul read out of bounds when the batch shapes
 differ

---
 src/linalg/matmul.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linalg/matmul.rs b/src/linalg/matmul.rs
index 289c5c3..bc5d744 100644
--- a/src/linalg/matmul.rs
+++ b/src/linalg/matmul.rs
@@ -44,8 +44,11 @@ pub fn matmul(a: &Tensor, b: &Tensor) -> Tensor {
 pub fn matmul_t<T: TransposeMatmul>(a: &Tensor, b: &Tensor, transpose: T) -> Tensor {
     //assert_eq!(M, N, "matrix multiplication requires matching dim >= 2");
     assert!(a.rank() > 1, "matrix multiplication requires rank >= 2");
-    // todo!() - re-enable this assertion
-    //assert_eq!(&a.shape().as_subslice(2..), &b.shape().as_subslice(2..), "matmul batch shape must match");
+    assert!(b.rank() > 1, "matrix multiplication requires rank >= 2");
+    assert_eq!(
+        &a.shape().as_vec()[..a.rank() - 2], &b.shape().as_vec()[..b.rank() - 2],
+        "matmul batch shape must match"
+    );
 
     let (m, _, n) = transpose.mkn(a, b);
 
-- 
2.43.0


From 4df45cedcf43936200acc018adce5d79c2cade93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:52 +0000
Subject: [PATCH 13/30] fix: arange with a negative step never terminated

---
 src/init/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init/vector.rs b/src/init/vector.rs
index c976b77..de1a4e9 100644
--- a/src/init/vector.rs
+++ b/src/init/vector.rs
@@ -25,7 +25,7 @@ pub fn arange(start: f32, end: f32, step: f32) -> Tensor {
 
         while end < start {
             vec.push(start);
-            start -= step;
+            start += step;
         }
 
         Tensor::from(vec)
-- 
2.43.0


From 3a0cb3415b3a179159a6fd7138771aa6b332698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:52 +0000
Subject: [PATCH 14/30] fix: histogram2d always panicked, taking the range over
 both columns

---
 src/stats/histogram2d.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/stats/histogram2d.rs b/src/stats/histogram2d.rs
index d907428..f5dd785 100644
--- a/src/stats/histogram2d.rs
+++ b/src/stats/histogram2d.rs
@@ -6,10 +6,8 @@ pub fn histogram2d(data: impl Into<Tensor>, args: impl Into<Hist2Args>) -> (Tens
     assert!(data.cols() == 2, "histogram2d requires 2D tensor {:?}", data.shape().as_vec());
 
     let args = args.into();
-    // let min = data.reduce_min_opt(0);
-    // let max = data.reduce_max_opt(0);
-    let min = data.reduce_min();
-    let max = data.reduce_max();
+    let min = data.reduce_min_axis(0);
+    let max = data.reduce_max_axis(0);
     let (min_x, min_y) = (min[0], min[1]);
     let (max_x, max_y) = (max[0], max[1]);
 
-- 
2.43.0


From 4b8b1e050078cacd17e8e85625a42bdade29aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:53 +0000
Subject: [PATCH 15/30] fix: rfft_norm computed the number of rows from the
 outer dimension only

---
 src/signal/rfft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal/rfft.rs b/src/signal/rfft.rs
index 4c1b322..c18237c 100644
--- a/src/signal/rfft.rs
+++ b/src/signal/rfft.rs
@@ -9,7 +9,7 @@ pub fn rfft_norm(tensor: impl Into<Tensor>, opt: impl FftOpt) -> Tensor {
     let tensor = tensor.into();
     let opt = opt.into_arg();
     let len = tensor.cols();
-    let batch = tensor.len() / len;
+    let batch = tensor.size() / len;
 
     let mut planner = FftPlanner::<f32>::new();
     let fft_fwd = planner.plan_fft_forward(len);
-- 
2.43.0


From 9c1156467199384f7009d75094fb40b4337d8ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:53 +0000
Subject: [PATCH 16/30] fix: unstack returned nothing for axis 0 and the whole
 tensor otherwise

---
 src/array/stack.rs | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/array/stack.rs b/src/array/stack.rs
index c565cb3..3d5ba6d 100644
--- a/src/array/stack.rs
+++ b/src/array/stack.rs
@@ -154,24 +154,12 @@ impl<T: Type + Clone> Tensor<T> {
     
         let axis = axis.axis_from_rank(self.rank());
     
-        let cuts = Vec::<usize>::new();
-    
-        if axis == 0 {
-            let mut slices = Vec::<Tensor<T>>::new();
-    
-            let mut prev = 0;
-            for i in cuts {
-                if i != prev {
-                    slices.push(self.subslice(prev, i - prev));
-                }
-                prev = i;
-            }
-        
-    
-            slices
-        } else {
-            self.split_axis(Axis::axis(axis as isize), cuts)
-        }
+        let shape = self.shape().clone().remove(axis);
+
+        self.split_axis(Axis::axis(axis as isize), self.dim(axis))
+            .into_iter()
+            .map(|tensor| tensor.reshape(shape.clone()))
+            .collect()
     }
 }
 
-- 
2.43.0


From fab94b3e4ca33171855fcc5d7d4dfe95f19a3375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:54 +0000
Subject: [PATCH 17/30] fix: Shape::rinsert rejected valid positions and
 accepted invalid ones

---
 src/tensor/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index e41fab7..e3b6ed6 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -386,7 +386,7 @@ impl Shape {
     #[must_use]
     #[inline]
     pub fn rinsert(mut self, axis: usize, len: usize) -> Shape {
-        assert!(axis + 1 < Self::MAX_RANK);
+        assert!(axis <= self.rank && self.rank < Self::MAX_RANK);
 
         for i in (axis..self.rank).rev() {
             self.dims[i + 1] = self.dims[i];
-- 
2.43.0


From cb7a6d9ae019880bde435a6cde1400de766946b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:54 +0000
Subject: [PATCH 18/30] fix: fold_row of a vector along an axis repeated the
 row

---
 src/tensor/axis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/axis.rs b/src/tensor/axis.rs
index 479fcc9..b8a132b 100644
--- a/src/tensor/axis.rs
+++ b/src/tensor/axis.rs
@@ -81,7 +81,7 @@ impl Axis {
                 assert!(axis < rank);
             
                 if rank == 1 {
-                    return (Shape::from([cols]), 1, shape.size(), 1)
+                    return (Shape::from([cols]), 1, 1, 1)
                 }
 
                 assert!(axis + 1 < rank);
-- 
2.43.0


From f5ba8ae5229678548b2691d000ca8c1ed27a656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:55 +0000
Subject: [PATCH 19/30] fix: subslice_flat accepted an empty shape for one
 element

---
 src/tensor/tensor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index 4ea492a..df5ac35 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -142,7 +142,7 @@ impl<T: Type> Tensor<T> {
         let shape = shape.into();
 
         let shape_len : usize = shape.size();
-        assert!(shape_len == len || shape.size() == 0 && len == 1);
+        assert!(shape_len == len);
 
         Self {
             shape,
-- 
2.43.0


From 7d4d636d9fe7aaf06104aa6203c1b41c300e2cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:55 +0000
Subject: [PATCH 20/30] fix: Shape sizes were multiplied in 32 bits

---
 src/tensor/shape.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index e3b6ed6..932fd21 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -35,7 +35,7 @@ impl Shape {
 
     #[inline]
     pub fn size(&self) -> usize {
-        self.dims[0..self.rank as usize].iter().product::<u32>() as usize
+        self.dims[0..self.rank as usize].iter().map(|d| *d as usize).product()
     }
 
     #[inline]
@@ -149,7 +149,7 @@ impl Shape {
         let rank = self.rank();
 
         if base_rank < rank {
-            self.dims[base_rank..rank].iter().product::<u32>() as usize
+            self.dims[base_rank..rank].iter().map(|d| *d as usize).product()
         } else {
             1
         }
@@ -255,10 +255,10 @@ impl Shape {
         let (start, end) = (self.rank - end, self.rank - start);
 
         for i in start..end {
-            size *= self.dims[i];
+            size *= self.dims[i] as usize;
         }
 
-        size as usize
+        size
     }
 
     #[inline]
@@ -267,10 +267,10 @@ impl Shape {
         let mut size = 1;
 
         for i in start..end {
-            size *= self.dims[i];
+            size *= self.dims[i] as usize;
         }
 
-        size as usize
+        size
     }
 
     #[inline]
-- 
2.43.0


From f160d10a0f2304102e83e9ca3493e7066fc14907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:55 +0000
Subject: [PATCH 21/30] fix: Shape dimensions above u32::MAX were truncated
 silently

---
 src/tensor/shape.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 932fd21..6020c6e 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -9,6 +9,11 @@ pub struct Shape {
     rank: usize,
 }
 
+#[inline]
+fn to_dim(value: usize) -> u32 {
+    u32::try_from(value).expect("tensor dimension is too large")
+}
+
 impl Shape {
     pub const MAX_RANK: usize = 6;
 
@@ -25,7 +30,7 @@ impl Shape {
         assert!(len > 0, "Shape requires a non-zero size");
 
         let mut dims = [0; Self::MAX_RANK];
-        dims[0] = len as u32;
+        dims[0] = to_dim(len);
 
         Self {
             dims,
@@ -81,7 +86,7 @@ impl Shape {
     pub fn rreplace(mut self, i: usize, value: usize) -> Self {
         assert!(i < self.rank);
 
-        self.dims[i] = value as u32;
+        self.dims[i] = to_dim(value);
 
         self
     }
@@ -116,7 +121,7 @@ impl Shape {
     pub fn with_cols(self, col: usize) -> Self {
         let mut own = self;
 
-        own.dims[0] = col as u32;
+        own.dims[0] = to_dim(col);
 
         own
     }
@@ -139,7 +144,7 @@ impl Shape {
 
         let mut own = self;
 
-        own.dims[1] = row as u32;
+        own.dims[1] = to_dim(row);
 
         own
     }
@@ -231,7 +236,7 @@ impl Shape {
 
     pub fn push(&self, dim: usize) -> Self {
         let mut dims = self.dims.clone();
-        dims[self.rank as usize] = dim as u32;
+        dims[self.rank as usize] = to_dim(dim);
 
         Self {
             dims,
@@ -392,7 +397,7 @@ impl Shape {
             self.dims[i + 1] = self.dims[i];
         }
 
-        self.dims[axis] = len as u32;
+        self.dims[axis] = to_dim(len);
         self.rank += 1;
 
         self
@@ -427,7 +432,7 @@ impl From<&Shape> for Shape {
 impl From<usize> for Shape {
     fn from(value: usize) -> Self {
         let mut dims = [0; Self::MAX_RANK];
-        dims[0] = value as u32;
+        dims[0] = to_dim(value);
 
         Shape {
             dims,
@@ -441,7 +446,7 @@ impl From<&[usize]> for Shape {
         let mut dims = [0; Self::MAX_RANK];
 
         for (i, dim) in value.iter().rev().enumerate() {
-            dims[i] = *dim as u32;
+            dims[i] = to_dim(*dim);
         }
 
         Shape {
@@ -456,7 +461,7 @@ impl<const N: usize> From<[usize; N]> for Shape {
         let mut dims = [0; Self::MAX_RANK];
 
         for (i, dim) in value.iter().rev().enumerate() {
-            dims[i] = *dim as u32;
+            dims[i] = to_dim(*dim);
         }
 
         Shape {
@@ -472,7 +477,7 @@ impl From<Vec<usize>> for Shape {
 
         for (i, v) in value.iter().rev().enumerate() {
             assert!(*v > 0);
-            dims[i] = *v as u32;
+            dims[i] = to_dim(*v);
         }
 
         Shape {
-- 
2.43.0


From c16d10532e0e7f33ad8a581e980a79fff011fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:56 +0000
Subject: [PATCH 22/30] fix: the naive feature did not compile

---
 src/linalg/blas.rs       | 3 +++
 src/linalg/blas_naive.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/linalg/blas.rs b/src/linalg/blas.rs
index 24a3f6a..967c2d2 100644
--- a/src/linalg/blas.rs
+++ b/src/linalg/blas.rs
@@ -1,3 +1,6 @@
+#[cfg(feature="naive")]
+use super::blas_naive::sgemm_naive;
+
 //
 // C = alpha * A * B + beta * C
 // A: m by k
diff --git a/src/linalg/blas_naive.rs b/src/linalg/blas_naive.rs
index 71c4105..13c34dd 100644
--- a/src/linalg/blas_naive.rs
+++ b/src/linalg/blas_naive.rs
@@ -1,6 +1,6 @@
 
 #[allow(dead_code)]
-unsafe fn sgemm_naive(
+pub(super) unsafe fn sgemm_naive(
     m: usize, k: usize, n: usize,
     alpha: f32,
     a: *const f32, rsa: usize, csa: usize,
-- 
2.43.0


From 150273855be1b6f9b4f300797657a10ffe6ee612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:19 +0000
Subject: [PATCH 23/30] fix: tensors with different shapes compared as equal in
 order but not in equality

---
 src/math/num.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/math/num.rs b/src/math/num.rs
index 1455197..0a5480b 100644
--- a/src/math/num.rs
+++ b/src/math/num.rs
@@ -1,4 +1,4 @@
-use std::ops;
+use std::{cmp::Ordering, ops};
 
 use num_traits::Signed;
 
@@ -45,7 +45,10 @@ impl<T: Type + Ord + Clone> Tensor<T> {
 
 impl<T: Type + PartialOrd> PartialOrd for Tensor<T> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        self.iter().partial_cmp(other.iter())
+        match self.iter().partial_cmp(other.iter()) {
+            Some(Ordering::Equal) => self.shape().as_vec().partial_cmp(&other.shape().as_vec()),
+            order => order,
+        }
     }
 }
 
-- 
2.43.0


From 19cae69747200f181aeefd5405e3192b9bd38897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:19 +0000
Subject: [PATCH 24/30] fix: read_file returned zero-filled data after a short
 read

---
 src/io/read_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/read_file.rs b/src/io/read_file.rs
index 93f739f..623fccb 100644
--- a/src/io/read_file.rs
+++ b/src/io/read_file.rs
@@ -10,7 +10,7 @@ pub fn read_file(filename: impl Into<Tensor<String>>) -> Result<Tensor<u8>, std:
     data.reserve_exact(len as usize);
     data.resize(len as usize, 0);
 
-    file.read(data.as_mut_slice())?;
+    file.read_exact(data.as_mut_slice())?;
 
     Ok(Tensor::from(data))
 }
-- 
2.43.0


From 68d403af4c63503c9614f08a89d4085afb8d4f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:20 +0000
Subject: [PATCH 25/30] fix: with_cols and reduce of a scalar shape left a
 hidden dimension behind

---
 src/tensor/shape.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 6020c6e..167c698 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -119,6 +119,8 @@ impl Shape {
     #[inline]
     #[must_use]
     pub fn with_cols(self, col: usize) -> Self {
+        assert!(self.rank > 0);
+
         let mut own = self;
 
         own.dims[0] = to_dim(col);
@@ -375,6 +377,8 @@ impl Shape {
     pub fn reduce(self) -> Shape {
         if self.rank > 1 {
             self.rremove(0)
+        } else if self.rank == 0 {
+            self
         } else {
             self.with_cols(1)
         }
-- 
2.43.0


From 2da565ba52c0c7797acc133de73ec72dc984499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:17 +0000
Subject: [PATCH 26/30] hook: export Transpose and matmul_t under cfg(vp_hooks)

---
 src/linalg/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 5fa3fe6..7119c08 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -5,3 +5,6 @@ mod matvec;
 
 pub use matmul::matmul;
 
+
+#[cfg(vp_hooks)]
+pub use matmul::{matmul_t, Transpose};
-- 
2.43.0


From f10b96e7d8435c3443e8d7bf510f476d9e5038df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:01 +0000
Subject: [PATCH 27/30] fix: subslice bounds checks wrap around for huge
 offsets and lengths

---
 src/tensor/tensor.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tensor/tensor.rs b/src/tensor/tensor.rs
index df5ac35..6838d8c 100644
--- a/src/tensor/tensor.rs
+++ b/src/tensor/tensor.rs
@@ -137,7 +137,7 @@ impl<T: Type> Tensor<T> {
 
     pub fn subslice_flat(&self, offset: usize, len: usize, shape: impl Into<Shape>) -> Self {
         assert!(offset <= self.size);
-        assert!(offset + len <= self.size);
+        assert!(len <= self.size - offset);
 
         let shape = shape.into();
 
@@ -158,8 +158,10 @@ impl<T: Type> Tensor<T> {
     pub fn subslice(&self, offset: usize, len: usize) -> Self {
         let dim_0 = self.dim(0);
 
-        // assert!(offset <= dim_0);
-        assert!(offset + len <= dim_0, "subslice end={} with shape={:?}", offset + len, self.shape().as_vec());
+        assert!(
+            offset <= dim_0 && len <= dim_0 - offset, 
+            "subslice offset={} len={} with shape={:?}", offset, len, self.shape().as_vec()
+        );
 
         let size : usize = self.shape().as_vec()[1..].iter().product();
 
-- 
2.43.0


From d9f340807a15517b53b6c7ee244a812334d6f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:01 +0000
Subject: [PATCH 28/30] fix: Shape::size wraps around when the element count
 exceeds usize

---
 src/tensor/shape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tensor/shape.rs b/src/tensor/shape.rs
index 167c698..95aaf58 100644
--- a/src/tensor/shape.rs
+++ b/src/tensor/shape.rs
@@ -40,7 +40,9 @@ impl Shape {
 
     #[inline]
     pub fn size(&self) -> usize {
-        self.dims[0..self.rank as usize].iter().map(|d| *d as usize).product()
+        self.dims[0..self.rank as usize].iter().fold(1usize, |size, d| {
+            size.checked_mul(*d as usize).expect("tensor shape is too large")
+        })
     }
 
     #[inline]
-- 
2.43.0


From ff0bded1a5b3ebc01aa6e137c7f7a3aacbe3c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:01 +0000
Subject: [PATCH 29/30] fix: decode_wav rejects a data size beyond the file
 before reserving memory for it

---
 src/io/decode_wav.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/decode_wav.rs b/src/io/decode_wav.rs
index d35aa0e..03aee3d 100644
--- a/src/io/decode_wav.rs
+++ b/src/io/decode_wav.rs
@@ -31,6 +31,7 @@ pub fn decode_wav(
 
     assert_eq!(cursor.read_u32_big(), 0x6461_7461);
     let size = cursor.read_u32_little();
+    assert!(size as usize <= cursor.remaining(), "wav data size {} exceeds the file", size);
 
     let n_samples = size / 2;
     //let len = meta.n_channels * 
@@ -75,6 +76,10 @@ impl<'a> Cursor<'a> {
         }
     }
 
+    fn remaining(&self) -> usize {
+        self.slice.len() - self.index
+    }
+
     fn read(&mut self) -> u8 {
         let v = self.slice[self.index];
         self.index += 1;
-- 
2.43.0


From e39e68a338c7e3b5258f544510c2054b2f03864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:40 +0000
Subject: [PATCH 30/30] hook: export FftOpt and FftArg under cfg(vp_hooks)

---
 src/signal/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/signal/mod.rs b/src/signal/mod.rs
index e1a6c1f..f691028 100644
--- a/src/signal/mod.rs
+++ b/src/signal/mod.rs
@@ -4,3 +4,6 @@ mod rfft;
 pub use frame::frame;
 pub use rfft::rfft_norm;
 
+#[cfg(vp_hooks)]
+pub use rfft::{FftArg, FftOpt};
+
-- 
2.43.0

