From b83356c5596ab678527b2eb19928ac50101c49ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 1/4] fix: row_vector panicked for every matrix with more than
 one row

The result type had as many elements as the whole matrix, so building it from
one row always failed.
---
 poseidon-parameters/src/matrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 45a0517..6584988 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -146,7 +146,7 @@ impl<const N_ROWS: usize, const N_COLS: usize, const N_ELEMENTS: usize>
     Matrix<N_ROWS, N_COLS, N_ELEMENTS>
 {
     /// Get row vector at a specified row index
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_COLS, N_COLS> {
         let mut row_elements = [Fq::default(); N_COLS];
         for j in 0..N_COLS {
             row_elements[j] = self.get_element(i, j);
@@ -322,7 +322,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> Mul<Fq> for SquareMatrix<N_RO
 
 impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrix<N_ROWS, N_ELEMENTS> {
     /// Get row vector at a specified row index.
-    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ELEMENTS> {
+    pub fn row_vector(&self, i: usize) -> Matrix<1, N_ROWS, N_ROWS> {
         self.0.row_vector(i)
     }
 
-- 
2.43.0


From 5843c78de5b82b66bcd755e84ecbcbe88c648774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 2/4] fix: inverting a singular 1x1 matrix panicked instead of
 returning NoMatrixInverse

---
 poseidon-parameters/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 6584988..9388214 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -214,7 +214,7 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrixOperations
             let elements = [self
                 .get_element(0, 0)
                 .inverse()
-                .expect("inverse of single element must exist for 1x1 matrix")];
+                .ok_or(PoseidonParameterError::NoMatrixInverse)?];
             return Ok(Self::new(&elements));
         }
 
-- 
2.43.0


From 8cad0b9bfc687b4b8726ce737b6c440c34a54e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 3/4] fix: the minor of a 1x1 matrix is one, not its element

---
 poseidon-parameters/src/matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/poseidon-parameters/src/matrix.rs b/poseidon-parameters/src/matrix.rs
index 9388214..d11504d 100644
--- a/poseidon-parameters/src/matrix.rs
+++ b/poseidon-parameters/src/matrix.rs
@@ -252,7 +252,8 @@ impl<const N_ROWS: usize, const N_ELEMENTS: usize> SquareMatrixOperations
     fn minors(&self) -> Self {
         match N_ROWS {
             0 => panic!("matrix has no elements!"),
-            1 => Self::new(&[self.get_element(0, 0)]),
+            // The minor of a single element is the determinant of the empty matrix.
+            1 => Self::new(&[Fq::from(1u64)]),
             2 => {
                 let a = self.get_element(0, 0);
                 let b = self.get_element(0, 1);
-- 
2.43.0


From 78cfafeb4b89a380b2348fa206408021757538cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 4/4] fix: hashing constants alone in a circuit panicked

The sum of a mixing row takes its constraint system from the variables in it,
so it failed with MissingCS when every argument is a constant.
---
 poseidon-permutation/src/r1cs.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/poseidon-permutation/src/r1cs.rs b/poseidon-permutation/src/r1cs.rs
index 71b3a59..8f6d8a6 100644
--- a/poseidon-permutation/src/r1cs.rs
+++ b/poseidon-permutation/src/r1cs.rs
@@ -173,8 +173,15 @@ impl<
                             * y
                     })
                     .collect();
-                let result = temp_vec.iter().sum();
-                result
+                // `sum` takes its constraint system from the variables it adds up,
+                // so it cannot be used when there are none.
+                if temp_vec.is_constant() {
+                    temp_vec
+                        .into_iter()
+                        .fold(FpVar::<Fq>::zero(), |acc, term| acc + term)
+                } else {
+                    temp_vec.iter().sum()
+                }
             })
             .collect();
     }
-- 
2.43.0

