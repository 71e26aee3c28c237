From 1b93901b29dd39528fc1ae46c3f5f44a69a84480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:33 +0000
Subject: [PATCH 01/27] fix: compound complex multiplication and division read
 the operand before overwriting it

---
 src/math/cfloat/mod.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/math/cfloat/mod.rs b/src/math/cfloat/mod.rs
index 8b2d0e8..c669e8c 100644
--- a/src/math/cfloat/mod.rs
+++ b/src/math/cfloat/mod.rs
@@ -212,19 +212,13 @@ impl SubAssign for Cf32 {
 
 impl MulAssign for Cf32 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
-    self.y = self.x * rhs.y + self.y * rhs.x;
+    *self = *self * rhs;
   }
 }
 
 impl DivAssign for Cf32 {
   fn div_assign(&mut self, rhs: Self) {
-    let den = rhs.x.powi(2) + rhs.y.powi(2);
-
-    if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
-
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
-    self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    *self = *self / rhs;
   }
 }
 
@@ -347,19 +341,13 @@ impl SubAssign for Cf64 {
 
 impl MulAssign for Cf64 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
-    self.y = self.x * rhs.y + self.y * rhs.x;
+    *self = *self * rhs;
   }
 }
 
 impl DivAssign for Cf64 {
   fn div_assign(&mut self, rhs: Self) {
-    let den = rhs.x.powi(2) + rhs.y.powi(2);
-
-    if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
-
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
-    self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    *self = *self / rhs;
   }
 }
 
-- 
2.43.0


From 0b59f666f40dbc32aa70503552b476da423ba6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:34 +0000
Subject: [PATCH 02/27] fix: double precision phase covers the whole complex
 plane

---
 src/math/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 81e2fd8..f106bf5 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -379,7 +379,7 @@ impl Complex for Cf64 {
   }
 
   fn phase(&self) -> Self::Precision {
-    (self.y / self.x).atan()
+    self.y.atan2(self.x)
   }
 
   fn conj(&self) -> Self {
-- 
2.43.0


From 369bab4f15643443e803e7aeea64f2ac32d144da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:34 +0000
Subject: [PATCH 03/27] fix: cardioid derivatives are the Wirtinger derivatives
 of the cardioid

---
 src/act/mod.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/act/mod.rs b/src/act/mod.rs
index 9b46399..11dfe2a 100644
--- a/src/act/mod.rs
+++ b/src/act/mod.rs
@@ -264,11 +264,11 @@ fn d_card_cf32(val: Cf32) -> Cf32 {
   );
 
   let dfdy = Cf32::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx - i * dfdy
+  (dfdx - i * dfdy) * Cf32::new(0.5, 0.0)
 }
 
 fn d_card_cf64(val: Cf64) -> Cf64 {
@@ -292,11 +292,11 @@ fn d_card_cf64(val: Cf64) -> Cf64 {
   );
 
   let dfdy = Cf64::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx - i * dfdy
+  (dfdx - i * dfdy) * Cf64::new(0.5, 0.0)
 }
 
 fn d_conj_card_cf32(val: Cf32) -> Cf32 {
@@ -320,11 +320,11 @@ fn d_conj_card_cf32(val: Cf32) -> Cf32 {
   );
 
   let dfdy = Cf32::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx + i * dfdy
+  (dfdx + i * dfdy) * Cf32::new(0.5, 0.0)
 }
 
 fn d_conj_card_cf64(val: Cf64) -> Cf64 {
@@ -348,11 +348,11 @@ fn d_conj_card_cf64(val: Cf64) -> Cf64 {
   );
 
   let dfdy = Cf64::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx + i * dfdy
+  (dfdx + i * dfdy) * Cf64::new(0.5, 0.0)
 }
 
 /* modz */
-- 
2.43.0


From 6afadab990cbb696f1ec881c4cedc49f00cc50e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:34 +0000
Subject: [PATCH 04/27] fix: mean squared error divides by the number of
 components

---
 src/opt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 5151299..744a1d6 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -46,7 +46,7 @@ fn mean_sq_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf32(*t, *p)
     });
   
@@ -72,7 +72,7 @@ fn mean_sq_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf64(*t, *p)
     });
   
-- 
2.43.0


From de69f3ca645ae663436003cdf138bda7f7ecea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:06 +0000
Subject: [PATCH 05/27] fix: losses reject targets and predictions of different
 sizes

---
 src/opt/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 744a1d6..09d0e95 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -209,6 +209,8 @@ impl ComplexLossFunc {
       IOType::Scalar(pred) => {
         match target {
           IOType::Scalar(targ) => {
+            if targ.len() != pred.len() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_func_cf32::<_,_>();
             Ok(func(targ.iter(), pred.iter()))
           },
@@ -223,6 +225,8 @@ impl ComplexLossFunc {
             let targ_flatten = targ
               .iter().flat_map(|elm| { elm.get_body() });
 
+            if targ_flatten.clone().count() != pred_flatten.clone().count() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_func_cf32::<_,_>();
             Ok(func(targ_flatten, pred_flatten))
           },
@@ -243,6 +247,8 @@ impl ComplexLossFunc {
       IOType::Scalar(pred) => {
         match target {
           IOType::Scalar(targ) => {
+            if targ.len() != pred.len() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_func_cf64::<_,_>();
             Ok(func(targ.iter(), pred.iter()))
           },
@@ -257,6 +263,8 @@ impl ComplexLossFunc {
             let targ_flatten = targ
               .iter().flat_map(|elm| { elm.get_body() });
 
+            if targ_flatten.clone().count() != pred_flatten.clone().count() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_func_cf64::<_,_>();
             Ok(func(targ_flatten, pred_flatten))
           },
@@ -277,6 +285,8 @@ impl ComplexLossFunc {
       IOType::Scalar(pred) => {
         match target {
           IOType::Scalar(targ) => {
+            if targ.len() != pred.len() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_dfunc_cf32::<_,_>();
             Ok(func(targ.iter(), pred.iter()))
           },
@@ -291,6 +301,8 @@ impl ComplexLossFunc {
             let targ_flatten = targ
               .iter().flat_map(|elm| { elm.get_body() });
             
+            if targ_flatten.clone().count() != pred_flatten.clone().count() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_dfunc_cf32::<_,_>();
             Ok(func(targ_flatten, pred_flatten))
           },
@@ -311,6 +323,8 @@ impl ComplexLossFunc {
       IOType::Scalar(pred) => {
         match target {
           IOType::Scalar(targ) => {
+            if targ.len() != pred.len() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_dfunc_cf64::<_,_>();
             Ok(func(targ.iter(), pred.iter()))
           },
@@ -325,6 +339,8 @@ impl ComplexLossFunc {
             let targ_flatten = targ
               .iter().flat_map(|elm| { elm.get_body() });
             
+            if targ_flatten.clone().count() != pred_flatten.clone().count() { return Err(LossCalcError::InconsistentIO) }
+
             let func = self.release_dfunc_cf64::<_,_>();
             Ok(func(targ_flatten, pred_flatten))
           },
-- 
2.43.0


From 7b5af2920f59ebdf2a660f51183ddd368b16ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:06 +0000
Subject: [PATCH 06/27] fix: adding a column accepts fitting columns and
 rejects the others

---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index ab73802..e739610 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -258,11 +258,11 @@ impl<T> Matrix<T> {
   /// Not very performant. Use this method outside heavy computation, if possible.
   pub fn add_col(&mut self, col: &mut Vec<T>) -> Result<(), UpdateError> {
     // a row must first be added
-    if col.len() == self.shape[0] {
+    if col.len() != self.shape[0] {
       return Err(UpdateError::InconsistentLength);
     }
 
-    if self.shape[1] < self.capacity[1] {
+    if self.shape[1] >= self.capacity[1] {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From 5bd707c83ff8a5751e2456873e429da61c848ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:06 +0000
Subject: [PATCH 07/27] fix: flushing a row into a matrix respects its shape
 and capacity

---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index e739610..878ff3c 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -202,11 +202,11 @@ impl<T> Matrix<T> {
   /// * `row` - mutable reference to a generic `Vec<T>`. 
   ///           Gets flushed after the addition of the row to `Matrix<T>`.
   pub fn add_mut_row(&mut self, row: &mut Vec<T>) -> Result<(), UpdateError> {
-    if !(row.len() == self.shape[1] || self.shape[1] == 0) {
+    if !(row.len() == self.shape[1] || self.shape == [0, 0]) {
       return Err(UpdateError::InconsistentLength);
     }
     
-    if (self.shape[0] >= self.capacity[0]) || (self.shape[1] > self.capacity[1]) {
+    if (self.shape[0] >= self.capacity[0]) || (row.len() > self.capacity[1]) {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From 9828e001eb2b75f1a6701dd384f42bb84f86e256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:07 +0000
Subject: [PATCH 08/27] fix: row iteration over matrices without columns does
 not panic

---
 src/math/matrix/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 878ff3c..23ed6a6 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -284,12 +284,12 @@ impl<T> Matrix<T> {
 
   /// Returns an iterator that goes through the rows of the matrix.
   pub fn rows_as_iter(&self) -> std::slice::Chunks<'_, T> {
-    self.body.chunks(self.shape[1])
+    self.body.chunks(self.shape[1].max(1))
   }
 
   /// Returns an iterator that goes through mutable rows of the matrix.
   pub fn rows_as_iter_mut(&mut self) -> std::slice::ChunksMut<'_, T> {
-    self.body.chunks_mut(self.shape[1])
+    self.body.chunks_mut(self.shape[1].max(1))
   }
 
   /// Returns the i-th slider of matrix with the number of rows of `rows`. 
@@ -299,7 +299,7 @@ impl<T> Matrix<T> {
     let start = i*cols;
     let end = i*cols + rows*cols;
 
-    self.body[start..end].chunks(cols)
+    self.body[start..end].chunks(cols.max(1))
   }
 
   /// Consumes the matrix and puts its body into an iterator.
@@ -311,7 +311,7 @@ impl<T> Matrix<T> {
 impl<T: Sync> Matrix<T> {
   /// Returns rows as parallel chunks with the help of rayon.
   pub fn rows_as_par_chunks(&self) -> rayon::slice::Chunks<'_, T> {
-    self.body.par_chunks(self.shape[1])
+    self.body.par_chunks(self.shape[1].max(1))
   }
 }
 
@@ -793,7 +793,7 @@ impl<T: Copy> SliceToMatrix<T> for [T] {
 impl<T: Debug> Display for Matrix<T> {
 
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-    for elm in self.body.chunks(self.shape[1]) {
+    for elm in self.body.chunks(self.shape[1].max(1)) {
       writeln!(f, "{:?}", elm)?;
     }
 
@@ -806,7 +806,7 @@ impl<T: Display + Copy> Matrix<T> {
     let mut file = File::create(path)?;
     
     let data_row_len = self.get_shape()[1];
-    let data_chunks = self.get_body().chunks(data_row_len);
+    let data_chunks = self.get_body().chunks(data_row_len.max(1));
 
     for row in data_chunks {
       for val in row.into_iter() {
-- 
2.43.0


From 70aa6353937af0e7c05d3ca7ad03483211596ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:07 +0000
Subject: [PATCH 09/27] fix: convolution rejects empty kernels

---
 src/math/matrix/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 23ed6a6..9d0cf9b 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -499,6 +499,11 @@ impl<T: BasicOperations<T>> Matrix<T> {
       return Err(OperationError::InvalidRHS)
     }
 
+    // an empty kernel has nothing to slide
+    if k_shape[0] == 0 || k_shape[1] == 0 {
+      return Err(OperationError::InvalidRHS)
+    }
+
     // determine the final shape
     let final_shape = [
       initial_shape[0] - (k_shape[0]-1), 
-- 
2.43.0


From 55c4217252f9b87dadf6861be95dd835f3298942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:07 +0000
Subject: [PATCH 10/27] fix: up-sampling keeps the up-sampled shape for every
 block and odd kernel size

---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 9d0cf9b..35c3d71 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -591,7 +591,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let upper: usize = if block_size[0] % 2 == 0 {(block_size[0] / 2) - 1} else { (block_size[0] - 1) / 2 };
     let bottom: usize = block_size[0] - upper - 1;
-    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[0] - 1) / 2 };
+    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[1] - 1) / 2 };
     let right: usize = block_size[1] - left - 1;
 
     let final_shape = [matrix_shape[0] * block_size[0], matrix_shape[1] * block_size[1]];
@@ -626,7 +626,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let out = matrix_res
       /* pad to conserve the shap on the convolution */
-      .pad((kernel_shape[0]-2, kernel_shape[0]-2))
+      .pad(((kernel_shape[0]-1) / 2, (kernel_shape[1]-1) / 2))
       .convolution(kernel)
       .unwrap();
 
-- 
2.43.0


From c4c02885db7c2bad3112af4f87a78f7dfef2917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:07 +0000
Subject: [PATCH 11/27] fix: block operations reject empty blocks

---
 src/math/matrix/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 35c3d71..fc85294 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -543,6 +543,8 @@ impl<T: BasicOperations<T>> Matrix<T> {
   pub fn block_reduce(&self, block_size: &[usize], block_func: impl Fn(&[T]) -> T) -> Result<Self, OperationError> {
     let matrix_shape = self.get_shape();
 
+    if block_size[0] == 0 || block_size[1] == 0 { return Err(OperationError::InconsistentShape) }
+
     if matrix_shape[0] % block_size[0] != 0 || matrix_shape[1] % block_size[1] != 0 {
       return Err(OperationError::InconsistentShape)
     }
@@ -587,6 +589,8 @@ impl<T: BasicOperations<T>> Matrix<T> {
     let matrix_shape = self.get_shape();
     let mut matrix_rows = self.rows_as_iter();
 
+    if block_size[0] == 0 || block_size[1] == 0 { return Err(OperationError::InconsistentShape) }
+
     let n_rows = matrix_shape[0];
 
     let upper: usize = if block_size[0] % 2 == 0 {(block_size[0] / 2) - 1} else { (block_size[0] - 1) / 2 };
-- 
2.43.0


From 8327be23c4e4b989af5aedc0c47d219f66f71702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:07 +0000
Subject: [PATCH 12/27] fix: adding a hidden layer to an empty network returns
 an error

---
 src/cvnn/network/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index 2d1222f..0f1b726 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -78,7 +78,7 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
     /* also takes care of the shape and size respectively */
     /* still the user has to request a coherent amount of units (input, ouput shape) */
     /* the network will not initialize the layer based previous output */
-    let last_layer_out = self.layers.last().unwrap().get_output_shape();
+    let last_layer_out = self.get_output_shape()?;
     if last_layer_out != layer.get_input_shape() { return Err(LayerAdditionError::IncompatibleIO) }
 
     self.layers.push(layer);
-- 
2.43.0


From 2524e08ab3fbaf8f842dc17388f24a2f8be32887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:08 +0000
Subject: [PATCH 13/27] fix: intercepting an empty network returns an error

---
 src/cvnn/network/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index 0f1b726..525fab0 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -121,7 +121,7 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
   /// Not an heavily used function but might be for obtaining the activations in the
   /// back-propagation algorithm.
   pub fn intercept(&self, input_type: IOType<T>, index: usize) -> Result<(IOType<T>, &CLayer<T>), ForwardError> {
-    if index > self.layers.len() - 1 { return Err(ForwardError::InvalidLayerIndex) }
+    if index >= self.layers.len() { return Err(ForwardError::InvalidLayerIndex) }
     
     /* go through hidden layers */
     let layers_iter = self.layers.iter();
-- 
2.43.0


From 96d771071e2f5f583d5da3a835e468422e9505ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:08 +0000
Subject: [PATCH 14/27] fix: dense layers report inputs of the wrong length

---
 src/cvnn/layer/dense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/layer/dense.rs b/src/cvnn/layer/dense.rs
index 474d566..763735f 100644
--- a/src/cvnn/layer/dense.rs
+++ b/src/cvnn/layer/dense.rs
@@ -108,7 +108,7 @@ impl<T: Complex + BasicOperations<T>> DenseCLayer<T> {
         /* instantiate the result (it is going to be a column matrix) */
         let mut res = self.weights
           .mul_slice(input)
-          .unwrap();
+          .map_err(|_| LayerForwardError::InvalidInput)?;
 
         /* add the biases to the result */
         res
-- 
2.43.0


From 2620a5371fd1f6f4c7ea5b9def79d225593d0267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:08 +0000
Subject: [PATCH 15/27] fix: convolutional layers report missing and undersized
 feature maps

---
 src/cvnn/layer/conv.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index a225d11..081703f 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -116,15 +116,16 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         let kernels_shape = self.kernels.get_shape();
         let channels = kernels_shape[1];
         let func = &self.func;
+        let input_features_len = input.len();
+        if channels != input_features_len { return Err(LayerForwardError::InvalidInput) }
+
         /* it has to be the same for all */
-        let filters_shape = self.kernels.elm(0, 0).unwrap().get_shape();
+        let filters_shape = self.kernels.elm(0, 0).map_err(|_| LayerForwardError::InvalidInput)?.get_shape();
         let input_shape = input[0].get_shape();
+        if input_shape[0] < filters_shape[0] || input_shape[1] < filters_shape[1] { return Err(LayerForwardError::InvalidInput) }
         /* output of the convolutions */
         let output_shape = [input_shape[0]-(filters_shape[0]-1), input_shape[1]-(filters_shape[1]-1)];
 
-        let input_features_len = input.len();
-        if channels != input_features_len { return Err(LayerForwardError::InvalidInput) }
-
         let output_features = self.kernels
           //.rows_as_par_chunks()
           .rows_as_iter()
-- 
2.43.0


From 45cbe85f85e20b428f027dedde7142aca4e0854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:08 +0000
Subject: [PATCH 16/27] fix: reduce layers report feature maps that do not
 split into blocks

---
 src/cvnn/layer/reduce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/layer/reduce.rs b/src/cvnn/layer/reduce.rs
index dc4e4db..1d5a78d 100644
--- a/src/cvnn/layer/reduce.rs
+++ b/src/cvnn/layer/reduce.rs
@@ -80,7 +80,7 @@ impl<T: BasicOperations<T>> Reduce<T> {
           let new_feature = feature.block_reduce(
             self.block_size.as_slice(), 
             &self.block_func
-          ).unwrap();
+          ).map_err(|_| LayerForwardError::InvalidInput)?;
 
           new_features.push(new_feature);
         }
-- 
2.43.0


From 529ab33f0ecbff6f2479f80798fac09a158e94ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:09 +0000
Subject: [PATCH 17/27] fix: convolutional and reduce layers reject gradients
 of the wrong length

---
 src/cvnn/layer/conv.rs   | 1 +
 src/cvnn/layer/reduce.rs | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index 081703f..d3ce218 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -183,6 +183,7 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         let act_func = &self.func;
 
         let q = self.compute_q(input);
+        if dlda.len() != q.len() || dlda_conj.len() != q.len() { return Err(GradientError::InconsistentShape) }
 
         /*  CHECK IF CALCULATING THE DERIVATIVE OF THE ACTIVATION HERE IS CORRECT */
         /* yap it seems to be correct */
diff --git a/src/cvnn/layer/reduce.rs b/src/cvnn/layer/reduce.rs
index 1d5a78d..0724021 100644
--- a/src/cvnn/layer/reduce.rs
+++ b/src/cvnn/layer/reduce.rs
@@ -102,6 +102,9 @@ impl<T: BasicOperations<T>> Reduce<T> {
     match previous_act {
       IOType::Matrix(features) => {
         let features_len = features.len();
+        if features_len == 0 || dlda.is_empty() || dlda.len() % features_len != 0 || dlda_conj.len() != dlda.len() {
+          return Err(GradientError::InconsistentShape)
+        }
         let features_chunks = dlda.len() / features_len;
 
         let mut new_dlda = Vec::new();
@@ -119,13 +122,13 @@ impl<T: BasicOperations<T>> Reduce<T> {
           
           let dlda_upsampled = dlda_feats.next().unwrap()
             .to_matrix([final_shape[0], final_shape[1]])
-            .unwrap()
+            .map_err(|_| GradientError::InconsistentShape)?
             .fractional_upsampling(&self.block_size, &self.interp_kernel)
             .unwrap();
 
           let dlda_conj_upsampled = dlda_conj_feats.next().unwrap()
             .to_matrix([final_shape[0], final_shape[1]])
-            .unwrap()
+            .map_err(|_| GradientError::InconsistentShape)?
             .fractional_upsampling(&self.block_size, &self.interp_kernel)
             .unwrap();
           
-- 
2.43.0


From 9e26c61142cc0ee2d79709317625083a269645d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:09 +0000
Subject: [PATCH 18/27] fix: convolutional layers propagate both Wirtinger
 terms of the gradient

---
 src/cvnn/layer/conv.rs | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index d3ce218..91f3772 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -215,7 +215,6 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         let mut dldk = Vec::new();
         let mut dldb = Vec::new();
         let mut new_dlda = vec![T::default(); input_shape[0] * input_shape[1] * n_input_features];
-        let mut new_dlda_conj = vec![T::default(); input_shape[0] * input_shape[1] * n_input_features];
         let filters = self.kernels.rows_as_iter();
         filters.for_each(|filter| {
           /* collecting loss derivatives to matrices */
@@ -260,11 +259,12 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
             })
             .collect::<Vec<_>>();
           /* calculate loss derivative */
-          let dlda_padded = dlda_dadq_feat.clone().pad((padx, pady));
-          let dlda_conj_padded = dlda_conj_da_conj_dq_feat.clone().pad((padx, pady));
+          let mut dlda_total = dlda_dadq_feat.clone();
+          dlda_total.add_mut(&dlda_conj_da_conj_dq_feat).unwrap();
+          let dlda_padded = dlda_total.pad((padx, pady));
 
           let oper_b = || {
-            let new_dlda_acc = fliped_filter
+            fliped_filter
               .iter()
               .flat_map(|flip_kernel| {
                 /* CHANGED HERE FOR COMPLEX CONVOLUTION OR NOT */
@@ -272,30 +272,19 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
                   .convolution(flip_kernel)
                   .unwrap()
                   .export_body()
-              }).collect::<Vec<_>>();
-            
-            let new_dlda_conj_acc = fliped_filter
-              .iter()
-              .flat_map(|flip_kernel| {
-                /* CHANGED HERE FOR COMPLEX CONVOLUTION OR NOT */
-                dlda_conj_padded
-                  .convolution(flip_kernel)
-                  .unwrap()
-                  .export_body()
-              }).collect::<Vec<_>>();
-            
-            (new_dlda_acc, new_dlda_conj_acc)
+              }).collect::<Vec<_>>()
           };
 
           /* using rayon join might be a good addition in the future */
           /* be careful because if it is not, you can change in the future for a more memory efficient approach */
-          let ((dldk_filter, dldb_filter), (new_dlda_acc, new_dlda_conj_acc)) = (oper_a(), oper_b());
+          let ((dldk_filter, dldb_filter), new_dlda_acc) = (oper_a(), oper_b());
           dldk.extend(dldk_filter);
           dldb.push(dldb_filter.into_iter().reduce(|acc, elm| { acc + elm }).unwrap());
           new_dlda.add_slice_mut(&new_dlda_acc).unwrap();
-          new_dlda_conj.add_slice_mut(&new_dlda_conj_acc).unwrap();
         });
 
+        let new_dlda_conj = new_dlda.iter().map(|elm| { elm.conj() }).collect::<Vec<_>>();
+
         Ok((dldk, dldb, new_dlda, new_dlda_conj))
       },
       _ => { panic!("Something went terribily wrong.") }
-- 
2.43.0


From 8e0550a6d5672649074cd7fb0cbc50330732441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:09 +0000
Subject: [PATCH 19/27] fix: random generators accept every seed

---
 src/math/random/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 768bb8b..7f79ff2 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -22,7 +22,7 @@ pub fn lcgf32(seed: &mut u128) -> f32 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f32) / (m as f32)
 
@@ -52,7 +52,7 @@ pub fn lcgf64(seed: &mut u128) -> f64 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f64) / (m as f64)
 
@@ -86,7 +86,7 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     ( *seed / ( (m-1) / limit ) ) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 2483a33a53c93a902f6636b1e2abff12792a18cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:09 +0000
Subject: [PATCH 20/27] fix: random indexes stay below the requested limit

---
 src/math/random/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 7f79ff2..d47c43d 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -88,5 +88,5 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
 
     *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
-    ( *seed / ( (m-1) / limit ) ) as usize
+    ( *seed * limit / (m-1) ) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 686c1363cb0f312d2ff503e0a83792089e6e5301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:09 +0000
Subject: [PATCH 21/27] fix: normally distributed samples are finite for every
 seed

---
 src/dataset/mod.rs | 4 ++--
 src/math/mod.rs    | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 0e7955d..beeed97 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -286,7 +286,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
@@ -308,7 +308,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
diff --git a/src/math/mod.rs b/src/math/mod.rs
index f106bf5..6880761 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -247,7 +247,7 @@ impl Complex for Cf32 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(Self::Precision::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* centered in zero and standard deviation of float scale */
@@ -283,7 +283,7 @@ impl Complex for Cf32 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(Self::Precision::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* normal distributed number (centered in 0) with new_std as std */
@@ -406,7 +406,7 @@ impl Complex for Cf64 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(Self::Precision::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* centered in zero and standard deviation of float scale */
@@ -442,7 +442,7 @@ impl Complex for Cf64 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(Self::Precision::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* normal distributed number (centered in 0) with new_std as std */
-- 
2.43.0


From 497608229afe1ce0fe37b38bcdf1f5f48588041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:10 +0000
Subject: [PATCH 22/27] fix: one-hot predictions reject an index equal to the
 size

---
 src/math/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 6880761..179b526 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -56,7 +56,7 @@ impl Real for f32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -85,7 +85,7 @@ impl Real for f64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -294,7 +294,7 @@ impl Complex for Cf32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -454,7 +454,7 @@ impl Complex for Cf64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
-- 
2.43.0


From 61994106409d649f969aee816e636ba354dba20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:10 +0000
Subject: [PATCH 23/27] fix: training noise is drawn from the training seed
 only

---
 src/dataset/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index beeed97..f44fc3c 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -286,8 +286,8 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
-        let u2 = lcgf32(test_seed);
+        let u1 = lcgf32(train_seed).max(f32::MIN_POSITIVE);
+        let u2 = lcgf32(train_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
         let z2 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).sin() ) * noise2;
-- 
2.43.0


From 51167f9645f76017aa14814a77960d50db05f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:10 +0000
Subject: [PATCH 24/27] fix: signals with an odd number of samples can be
 generated

---
 src/dataset/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index f44fc3c..f103e80 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -278,7 +278,7 @@ impl Dataset<Cf32, Cf32> {
       // corrupt the signal with gausian noise
       let corrupted_signal = clean_signal.chunks(2).flat_map(|elm| {
         let elm1 = elm[0];
-        let elm2 = elm[1];
+        let elm2 = elm[elm.len() - 1];
         // check point amplitude
         let a1 = elm1.norm();
         let noise1 = noise_threshold + int_percentage * a1;
@@ -296,11 +296,11 @@ impl Dataset<Cf32, Cf32> {
         let p2 = 2.0 * PI32 * lcgf32(train_seed);
         
         // corrupt point
-        [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)]
+        [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)].into_iter().take(elm.len())
       }).collect::<Vec<_>>();
       let corrupted_signal_t = clean_signal_t.chunks(2).flat_map(|elm| {
         let elm1 = elm[0];
-        let elm2 = elm[1];
+        let elm2 = elm[elm.len() - 1];
         // check point amplitude
         let a1 = elm1.norm();
         let noise1 = noise_threshold + int_percentage * a1;
@@ -318,7 +318,7 @@ impl Dataset<Cf32, Cf32> {
         let p2 = 2.0 * PI32 * lcgf32(test_seed);
 
         // corrupt point
-        [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)]
+        [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)].into_iter().take(elm.len())
       }).collect::<Vec<_>>();
 
       // add to the dataset
-- 
2.43.0


From 1547d65462207ec875f900a1533f9a0d5e981ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:10 +0000
Subject: [PATCH 25/27] fix: image batches only contain points that were
 completely read

---
 src/dataset/mod.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index f103e80..060af50 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -3,7 +3,7 @@
 
 use std::fmt::Display;
 use std::{fmt::Debug, fs::File, slice::Iter, vec::IntoIter};
-use std::io::{Read, Write};
+use std::io::{ErrorKind, Read, Write};
 
 use crate::math::cfloat::Cf32;
 use crate::math::random::{lcgf32, lcgi};
@@ -108,9 +108,10 @@ impl<T: Real + BasicOperations<T>> Dataset<T, T> {
     /* have not read a single byte */
     if *tracker == 0 {
       /* skip first 16 bytes of training image file */
-      data_file.read(&mut [0u8; 16]).unwrap();
+      data_file.read_exact(&mut [0u8; 16]).unwrap();
       /* skip first 8 bytes of training label file */
-      *tracker += label_file.read(&mut [0u8; 8]).unwrap();
+      label_file.read_exact(&mut [0u8; 8]).unwrap();
+      *tracker += 8;
     }
     
     let ref mut image_buffer = [0u8; MINIST_IMAGE_DIMS.0 * MINIST_IMAGE_DIMS.1];
@@ -119,8 +120,12 @@ impl<T: Real + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      /* stop when there are no more complete points */
+      if let Err(err) = data_file.read_exact(image_buffer).and_then(|_| label_file.read_exact(label_buffer)) {
+        if err.kind() == ErrorKind::UnexpectedEof { break; }
+        panic!("{}", err);
+      }
+      *tracker += 1;
       let image = image_buffer.iter().map(|elm| { T::usize_to_real(*elm as usize) / T::usize_to_real(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
@@ -143,9 +148,10 @@ impl<T: Complex + BasicOperations<T>> Dataset<T, T> {
     /* have not read a single byte */
     if *tracker == 0 {
       /* skip first 16 bytes of training image file */
-      data_file.read(&mut [0u8; 16]).unwrap();
+      data_file.read_exact(&mut [0u8; 16]).unwrap();
       /* skip first 8 bytes of training label file */
-      *tracker += label_file.read(&mut [0u8; 8]).unwrap();
+      label_file.read_exact(&mut [0u8; 8]).unwrap();
+      *tracker += 8;
     }
     
     let ref mut image_buffer = [0u8; MINIST_IMAGE_DIMS.0 * MINIST_IMAGE_DIMS.1];
@@ -154,8 +160,12 @@ impl<T: Complex + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      /* stop when there are no more complete points */
+      if let Err(err) = data_file.read_exact(image_buffer).and_then(|_| label_file.read_exact(label_buffer)) {
+        if err.kind() == ErrorKind::UnexpectedEof { break; }
+        panic!("{}", err);
+      }
+      *tracker += 1;
       let image = image_buffer.iter().map(|elm| { T::usize_to_complex(*elm as usize) / T::usize_to_complex(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
-- 
2.43.0


From 75b39497e65abccc20dfbd14b4fd4514d4f0a0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:11 +0000
Subject: [PATCH 26/27] fix: layers are only shared between threads when their
 reduce function can be

---
 src/cvnn/layer/mod.rs    | 3 ---
 src/cvnn/layer/reduce.rs | 4 ++--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/cvnn/layer/mod.rs b/src/cvnn/layer/mod.rs
index a56368a..da31de0 100644
--- a/src/cvnn/layer/mod.rs
+++ b/src/cvnn/layer/mod.rs
@@ -27,9 +27,6 @@ pub enum CLayer<T> {
   Flatten(Flatten)
 }
 
-unsafe impl<T: Send> Send for CLayer<T> {}
-unsafe impl<T: Sync> Sync for CLayer<T> {}
-
 impl<T: Complex + BasicOperations<T>> CLayer<T> {
   /// Method that checks if the layer was already initialized.
   /// 
diff --git a/src/cvnn/layer/reduce.rs b/src/cvnn/layer/reduce.rs
index 0724021..c4ebb50 100644
--- a/src/cvnn/layer/reduce.rs
+++ b/src/cvnn/layer/reduce.rs
@@ -5,7 +5,7 @@ use super::{CLayer, ComplexDerivatives};
 pub struct Reduce<T> {
   input_features_len: usize,
   block_size: [usize; 2],
-  block_func: Box<dyn Fn(&[T]) -> T>,
+  block_func: Box<dyn Fn(&[T]) -> T + Send + Sync>,
   interp_kernel: Matrix<T>
 }
 
@@ -61,7 +61,7 @@ impl<T: BasicOperations<T>> Reduce<T> {
   pub fn init(
     input_features_len: usize, 
     block_size: [usize; 2], 
-    block_func: Box<dyn Fn(&[T]) -> T>, 
+    block_func: Box<dyn Fn(&[T]) -> T + Send + Sync>, 
     interp_kernel: Matrix<T>
   ) -> Reduce<T> {
     Reduce { input_features_len, block_size, block_func, interp_kernel }
-- 
2.43.0


From c7052cca73c8dd6135b453ee14ad4f62726d178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:12 +0000
Subject: [PATCH 27/27] fix: convolutional layers report feature maps of
 different sizes

---
 src/cvnn/layer/conv.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index 91f3772..10ad529 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -123,6 +123,7 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         let filters_shape = self.kernels.elm(0, 0).map_err(|_| LayerForwardError::InvalidInput)?.get_shape();
         let input_shape = input[0].get_shape();
         if input_shape[0] < filters_shape[0] || input_shape[1] < filters_shape[1] { return Err(LayerForwardError::InvalidInput) }
+        if input.iter().any(|feature| feature.get_shape() != input_shape) { return Err(LayerForwardError::InvalidInput) }
         /* output of the convolutions */
         let output_shape = [input_shape[0]-(filters_shape[0]-1), input_shape[1]-(filters_shape[1]-1)];
 
-- 
2.43.0

