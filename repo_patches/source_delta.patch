From a8677ac79727222900e767636358b3049bf2cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 1/7] fix: row_vector returns a 1 x N_COLS matrix

The declared element count was that of the whole matrix, so row_vector
panicked for every matrix with more than one row.
---
 poseidon-parameters/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 45a0517..6584988 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -146,7 +146,7 @@ impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize>
     Matrix<N_ROWS, N_COLS, N_ELEMENTS>
 {
     /// Get row vector at a specified row index
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_COLS> {
         let mut row_elements = [Fq::default(); N_COLS];
         for j in 0..N_COLS {
             row_elements[j] = self.get_element(i, j);
@@ -322,7 +322,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> Mul<Fq> for SquareMatrix<N_RO
 
 impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrix<N_ROWS, N_ELEMENTS> {
     /// Get row vector at a specified row index.
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ROWS> {
         self.0.row_vector(i)
     }
 
-- 
2.43.0


From d56880e94bf43e69cbaa33d63bfaf956efe10a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 2/7] fix: inverting the 1x1 zero matrix is an error, not a
 panic

---
 poseidon-parameters/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 6584988..9388214 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -214,7 +214,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrixOperations
             let elements = [self
                 .get_element(0, 0)
                 .inverse()
-                .expect("inverse of single element must exist for 1x1 matrix")];
+                .ok_or(PoseidonParameterError::NoMatrixInverse)?];
             return Ok(Self::new(&elements));
         }
 
-- 
2.43.0


From d03fc5acd552378f5201fc9627d4d0d47b9ff0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 3/7] fix: the minor of a 1x1 matrix is 1

---
 poseidon-parameters/src/matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 9388214..6d4fab6 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -252,7 +252,8 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrixOperations
     fn minors(&self) -> Self {
         match N_ROWS {
             0 => panic!("matrix has no elements!"),
-            1 => Self::new(&[self.get_element(0, 0)]),
+            // Removing the only row and column leaves the empty matrix, whose determinant is 1
+            1 => Self::new(&[Fq::from(1u64)]),
             2 => {
                 let a = self.get_element(0, 0);
                 let b = self.get_element(0, 1);
-- 
2.43.0


From 8535d67b016beeb0094543c6612aab3f42d71b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 4/7] fix: every MdsMatrix constructor checks its dimensions

from_elements and new_from_known accepted a companion size that is not
one less than the width, after which hat, v and w return wrong views.
---
 poseidon-parameters/src/mds_matrix.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/poseidon-parameters/src/mds_matrix.rs b/poseidon-parameters/src/mds_matrix.rs
index b7bb3c2..3cbc22d 100644
--- a/poseidon-parameters/src/mds_matrix.rs
+++ b/poseidon-parameters/src/mds_matrix.rs
@@ -73,7 +73,7 @@ impl<
     /// using the random subsampling method described in the original
     /// paper.
     pub fn from_elements(elements: &[Fq]) -> Self {
-        Self(SquareMatrix::new(elements))
+        Self::new(elements)
     }
 
     pub fn transpose(&self) -> Self {
@@ -133,6 +133,9 @@ impl<
     /// using the random subsampling method described in the original
     /// paper.
     pub const fn new_from_known(elements: [Fq; NUM_ELEMENTS]) -> Self {
+        assert!(STATE_SIZE == STATE_SIZE_MINUS_1 + 1);
+        assert!(STATE_SIZE * STATE_SIZE == NUM_ELEMENTS);
+        assert!(STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1 == NUM_ELEMENTS_STATE_SIZE_MINUS_1_2);
         Self(SquareMatrix::new_from_known(elements))
     }
 }
-- 
2.43.0


From 432a3b98b6290eb27d4976ee8c40ee6b0c7a31d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 5/7] fix: the in-circuit hash accepts constant operands

Summing a row of constant terms panicked (MissingCS).  The constraint
matrices for variable operands are unchanged.
---
 poseidon-permutation/src/r1cs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/poseidon-permutation/src/r1cs.rs b/poseidon-permutation/src/r1cs.rs
index 71b3a59..edb8d30 100644
--- a/poseidon-permutation/src/r1cs.rs
+++ b/poseidon-permutation/src/r1cs.rs
@@ -173,7 +173,8 @@ impl<
                             * y
                     })
                     .collect();
-                let result = temp_vec.iter().sum();
+                // `sum` panics when every term is a constant
+                let result = temp_vec.iter().fold(FpVar::<Fq>::zero(), |acc, y| acc + y);
                 result
             })
             .collect();
-- 
2.43.0


From 8bc50f175451f16744380526980166a92b581043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:04 +0000
Subject: [PATCH 6/7] fix: matrix constructors refuse dimensions whose product
 overflows

---
 poseidon-parameters/src/matrix.rs     | 10 ++++++----
 poseidon-parameters/src/mds_matrix.rs |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 6d4fab6..01e4464 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -34,8 +34,9 @@ impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize>
 
     /// Create a new matrix from a slice of elements.
     pub const fn new_from_known(elements: [Fq; N_ELEMENTS]) -> Self {
-        if N_ELEMENTS != N_ROWS * N_COLS {
-            panic!("Matrix has an insufficient number of elements")
+        match N_ROWS.checked_mul(N_COLS) {
+            Some(n_elements) if n_elements == N_ELEMENTS => {}
+            _ => panic!("Matrix has an insufficient number of elements"),
         }
 
         Self { elements }
@@ -49,8 +50,9 @@ impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize> MatrixOp
         // Note: We use a third const generic to denote the number of elements in the
         // matrix here due to `generic_const_exprs` being an unstable Rust feature at
         // the time of writing.
-        if N_ELEMENTS != N_ROWS * N_COLS {
-            panic!("Matrix has an insufficient number of elements")
+        match N_ROWS.checked_mul(N_COLS) {
+            Some(n_elements) if n_elements == N_ELEMENTS => {}
+            _ => panic!("Matrix has an insufficient number of elements"),
         }
 
         let elements: [Fq; N_ELEMENTS] = elements
diff --git a/poseidon-parameters/src/mds_matrix.rs b/poseidon-parameters/src/mds_matrix.rs
index 3cbc22d..e13e30d 100644
--- a/poseidon-parameters/src/mds_matrix.rs
+++ b/poseidon-parameters/src/mds_matrix.rs
@@ -23,7 +23,7 @@ impl<
     for MdsMatrix<STATE_SIZE, STATE_SIZE_MINUS_1, NUM_ELEMENTS, NUM_ELEMENTS_STATE_SIZE_MINUS_1_2>
 {
     fn new(elements: &[Fq]) -> Self {
-        assert!(STATE_SIZE == STATE_SIZE_MINUS_1 + 1);
+        assert!(STATE_SIZE > STATE_SIZE_MINUS_1 && STATE_SIZE - STATE_SIZE_MINUS_1 == 1);
         assert!(STATE_SIZE * STATE_SIZE == NUM_ELEMENTS);
         assert!(STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1 == NUM_ELEMENTS_STATE_SIZE_MINUS_1_2);
         Self(SquareMatrix::new(elements))
@@ -133,7 +133,7 @@ impl<
     /// using the random subsampling method described in the original
     /// paper.
     pub const fn new_from_known(elements: [Fq; NUM_ELEMENTS]) -> Self {
-        assert!(STATE_SIZE == STATE_SIZE_MINUS_1 + 1);
+        assert!(STATE_SIZE > STATE_SIZE_MINUS_1 && STATE_SIZE - STATE_SIZE_MINUS_1 == 1);
         assert!(STATE_SIZE * STATE_SIZE == NUM_ELEMENTS);
         assert!(STATE_SIZE_MINUS_1 * STATE_SIZE_MINUS_1 == NUM_ELEMENTS_STATE_SIZE_MINUS_1_2);
         Self(SquareMatrix::new_from_known(elements))
-- 
2.43.0


From 2f1cfb350f19dfdd25ac6a7f79323a3c74877fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 7/7] fix: matrix products check the inner dimensions

---
 poseidon-parameters/src/matrix.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 01e4464..efd8fff 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -112,6 +112,10 @@ pub fn mat_mul<
     lhs: &Matrix<LHS_N_ROWS, LHS_N_COLS, LHS_N_ELEMENTS>,
     rhs: &Matrix<RHS_N_ROWS, RHS_N_COLS, RHS_N_ELEMENTS>,
 ) -> Matrix<LHS_N_ROWS, RHS_N_COLS, RESULT_N_ELEMENTS> {
+    if LHS_N_COLS != RHS_N_ROWS {
+        panic!("matrices have incompatible dimensions")
+    }
+
     let rhs_T = rhs.transpose();
 
     let mut new_elements = [Fq::default(); RESULT_N_ELEMENTS];
@@ -351,6 +355,10 @@ pub fn square_mat_mul<
     lhs: &SquareMatrix<LHS_N_ROWS, LHS_N_ELEMENTS>,
     rhs: &SquareMatrix<RHS_N_ROWS, RHS_N_ELEMENTS>,
 ) -> SquareMatrix<LHS_N_ROWS, RESULT_N_ELEMENTS> {
+    if LHS_N_ROWS != RHS_N_ROWS {
+        panic!("matrices have incompatible dimensions")
+    }
+
     let rhs_T = rhs.transpose();
 
     let mut new_elements = [Fq::default(); RESULT_N_ELEMENTS];
-- 
2.43.0

