From 4bc6a1fd442c9ee13579d25de18c70057187e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:46 +0000
Subject: [PATCH 01/14] fix: multiplying the zero Polynomial by itself no
 longer underflows the term count

---
 src/polynomial/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 4ef141a..8e236d1 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -58,6 +58,9 @@ where
 {
     let rhs = &rhs[first_nonzero_index(&rhs)..];
     let lhs = &lhs[first_nonzero_index(&lhs)..];
+    if rhs.is_empty() || lhs.is_empty() {
+        return Vec::new();
+    }
     let mut terms = vec![N::zero(); rhs.len() + lhs.len() - 1];
     for (index, &rterm) in rhs.iter().enumerate() {
         if rterm.is_zero() {
-- 
2.43.0


From 664a21df11213377e0b5807b4dfaf68d721d5a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:46 +0000
Subject: [PATCH 02/14] fix: dividing a Polynomial always terminates, and keeps
 quotient and remainder consistent

---
 src/polynomial/polynomial.rs | 98 +++++++++++++++---------------------
 1 file changed, 41 insertions(+), 57 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 8e236d1..874b2fc 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -86,6 +86,33 @@ where
     }
 }
 
+/// Reduces `lhs` by `rhs`, which has the leading term `rhs_first * x^rhs_deg`, from the highest
+/// degree down, so that the number of steps is bounded by the degree of `lhs`. What is left in
+/// `lhs` is the remainder, and `quotient` receives each non-zero term of the quotient.
+fn vec_reduce<N>(
+    lhs: &mut [N],
+    rhs: &[N],
+    rhs_first: N,
+    rhs_deg: usize,
+    mut quotient: impl FnMut(N, usize),
+) where
+    N: Copy + Zero + SubAssign + Mul<Output = N> + Div<Output = N>,
+{
+    for loc in first_nonzero_index(lhs)..lhs.len().saturating_sub(rhs_deg) {
+        let scale = lhs[loc] / rhs_first;
+        if scale.is_zero() {
+            continue;
+        }
+        let degree = lhs.len() - loc - 1;
+        vec_sub_w_scale(lhs, degree, rhs, rhs_deg, scale);
+        // Rounding can leave a residue in the term that has just been cancelled.
+        if !(lhs[loc] / rhs_first).is_zero() {
+            lhs[loc] = N::zero();
+        }
+        quotient(scale, degree - rhs_deg);
+    }
+}
+
 pub(crate) fn degree<N>(coeffs: &[N]) -> Degree
 where
     N: Zero + Copy,
@@ -485,34 +512,29 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut coeff, mut self_degree) = match first_term(&self.terms) {
+        let self_degree = match first_term(&self.terms) {
             Term::ZeroTerm => {
                 return (Polynomial::zero(), self.clone());
             }
-            Term::Term(coeff, degree) => {
+            Term::Term(_, degree) => {
                 if degree < rhs_deg {
                     return (Polynomial::zero(), self.clone());
                 }
-                (coeff, degree)
+                degree
             }
         };
 
         let mut remainder = self.terms.clone();
         let mut div = vec![zero; self_degree - rhs_deg + 1];
-        let offset = self_degree;
-
-        while self_degree >= rhs_deg {
-            let scale = coeff / rhs_first;
-            vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
-            div[offset - self_degree] = scale;
-            match first_term(&remainder) {
-                Term::ZeroTerm => break,
-                Term::Term(coeffx, degree) => {
-                    coeff = coeffx;
-                    self_degree = degree;
-                }
-            }
-        }
+        let offset = self_degree - rhs_deg;
+
+        vec_reduce(
+            &mut remainder,
+            &rhs.terms,
+            rhs_first,
+            rhs_deg,
+            |scale, degree| div[offset - degree] = scale,
+        );
 
         (Polynomial::new(div), Polynomial::new(remainder))
     }
@@ -541,28 +563,9 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => return self.clone(),
-            Term::Term(coeff, degree) => {
-                if degree < rhs_deg {
-                    return self.clone();
-                }
-                (coeff / rhs_first, degree)
-            }
-        };
-
         let mut remainder = self.terms.clone();
 
-        while self_degree >= rhs_deg {
-            vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
-                Term::ZeroTerm => break,
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
+        vec_reduce(&mut remainder, &rhs.terms, rhs_first, rhs_deg, |_, _| {});
 
         Polynomial::new(remainder)
     }
@@ -579,26 +582,7 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => return,
-            Term::Term(coeff, degree) => {
-                if degree < rhs_deg {
-                    return;
-                }
-                (coeff / rhs_first, degree)
-            }
-        };
-
-        while self_degree >= rhs_deg {
-            vec_sub_w_scale(&mut self.terms, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
-                Term::ZeroTerm => break,
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
+        vec_reduce(&mut self.terms, &rhs.terms, rhs_first, rhs_deg, |_, _| {});
     }
 }
 
-- 
2.43.0


From 4e9d9b09fbce14d1e053c0a0d865210af27375e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:58 +0000
Subject: [PATCH 03/14] fix: dividing a SparsePolynomial aligns the divisor by
 degree and always terminates

---
 src/polynomial/sparsepolynomial.rs | 147 ++++++++++++-----------------
 1 file changed, 62 insertions(+), 85 deletions(-)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 8486861..3be52fe 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -47,14 +47,21 @@ where
     terms
 }
 
-fn map_sub_w_scale<N>(lhs: &mut BTreeMap<usize, N>, rhs: &BTreeMap<usize, N>, rhs_scale: N)
-where
-    N: Copy + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
+fn map_sub_w_scale<N>(
+    lhs: &mut BTreeMap<usize, N>,
+    rhs: &BTreeMap<usize, N>,
+    rhs_scale: N,
+    rhs_shift: usize,
+) where
+    N: Copy + Zero + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
 {
     for (rdeg, &rcoeff) in rhs.iter() {
-        match lhs.get_mut(rdeg) {
+        if rcoeff.is_zero() {
+            continue;
+        }
+        match lhs.get_mut(&(rdeg + rhs_shift)) {
             None => {
-                lhs.insert(*rdeg, -rcoeff * rhs_scale);
+                lhs.insert(rdeg + rhs_shift, -rcoeff * rhs_scale);
             }
             Some(lcoeff) => {
                 *lcoeff -= rcoeff * rhs_scale;
@@ -63,6 +70,47 @@ where
     }
 }
 
+/// Reduces `lhs` by `rhs`, which has the leading term `rhs_first * x^rhs_deg`, from the highest
+/// degree down, so that the number of steps is bounded by the degree of `lhs`. What is left in
+/// `lhs` is the remainder, and `quotient` receives each non-zero term of the quotient.
+fn map_reduce<N>(
+    lhs: &mut BTreeMap<usize, N>,
+    rhs: &BTreeMap<usize, N>,
+    rhs_first: N,
+    rhs_deg: usize,
+    mut quotient: impl FnMut(N, usize),
+) where
+    N: Copy
+        + Zero
+        + Neg<Output = N>
+        + Sub<Output = N>
+        + SubAssign
+        + Mul<Output = N>
+        + Div<Output = N>,
+{
+    let mut next = lhs.iter().next_back().map(|(&deg, &coeff)| (deg, coeff));
+    while let Some((degree, coeff)) = next {
+        if degree < rhs_deg {
+            break;
+        }
+        let scale = coeff / rhs_first;
+        if !scale.is_zero() {
+            map_sub_w_scale(lhs, rhs, scale, degree - rhs_deg);
+            if let Some(residue) = lhs.get_mut(&degree) {
+                // Rounding can leave a residue in the term that has just been cancelled.
+                if !(*residue / rhs_first).is_zero() {
+                    *residue = N::zero();
+                }
+            }
+            quotient(scale, degree - rhs_deg);
+        }
+        next = lhs
+            .range(..degree)
+            .next_back()
+            .map(|(&deg, &coeff)| (deg, coeff));
+    }
+}
+
 fn degree<N: Zero + Copy>(terms: &BTreeMap<usize, N>) -> Degree {
     let mut term_iter = terms.iter();
     let (mut max_term, mut max_degree) = match term_iter.next() {
@@ -522,41 +570,16 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => {
-                return (
-                    SparsePolynomial::zero(),
-                    SparsePolynomial::new(self.terms.clone()),
-                );
-            }
-            Term::Term(term, degree) => {
-                if degree < rhs_deg {
-                    return (
-                        SparsePolynomial::zero(),
-                        SparsePolynomial::new(self.terms.clone()),
-                    );
-                }
-                (term / rhs_first, degree)
-            }
-        };
-
         let mut remainder = self.terms.clone();
-        let offset = self_degree - rhs_deg;
         let mut div = SparsePolynomial::from(Vec::new());
 
-        while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
-            div.add_term(scale, offset);
-            match first_term(&remainder) {
-                Term::ZeroTerm => {
-                    break;
-                }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
+        map_reduce(
+            &mut remainder,
+            &rhs.terms,
+            rhs_first,
+            rhs_deg,
+            |scale, degree| div.add_term(scale, degree),
+        );
 
         (div, SparsePolynomial::new(remainder))
     }
@@ -584,32 +607,9 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => {
-                return SparsePolynomial::new(self.terms.clone());
-            }
-            Term::Term(term, degree) => {
-                if degree < rhs_deg {
-                    return SparsePolynomial::new(self.terms.clone());
-                }
-                (term / rhs_first, degree)
-            }
-        };
-
         let mut remainder = self.terms;
 
-        while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
-            match first_term(&remainder) {
-                Term::ZeroTerm => {
-                    break;
-                }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
+        map_reduce(&mut remainder, &rhs.terms, rhs_first, rhs_deg, |_, _| {});
 
         SparsePolynomial::new(remainder)
     }
@@ -635,30 +635,7 @@ where
             Term::Term(coeff, deg) => (coeff, deg),
         };
 
-        let (mut scale, mut self_degree) = match first_term(&self.terms) {
-            Term::ZeroTerm => {
-                return;
-            }
-            Term::Term(coeff, degree) => {
-                if degree < rhs_deg {
-                    return;
-                }
-                (coeff / rhs_first, degree)
-            }
-        };
-
-        while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut self.terms, &rhs.terms, scale);
-            match first_term(&self.terms) {
-                Term::ZeroTerm => {
-                    break;
-                }
-                Term::Term(coeff, degree) => {
-                    scale = coeff / rhs_first;
-                    self_degree = degree;
-                }
-            }
-        }
+        map_reduce(&mut self.terms, &rhs.terms, rhs_first, rhs_deg, |_, _| {});
     }
 }
 
-- 
2.43.0


From 8671ceb39ff20430db473f910d58dbf5ee864e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:50 +0000
Subject: [PATCH 04/14] fix: shifting a Polynomial right past its leading zeros
 gives zero instead of panicking

---
 src/polynomial/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 874b2fc..15ef622 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -910,7 +910,7 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
             let rhs = rhs as usize;
             let index = first_nonzero_index(&self.terms);
             Polynomial {
-                terms: if rhs > self.terms.len() {
+                terms: if rhs > self.terms.len() - index {
                     vec![]
                 } else {
                     self.terms[index..self.terms.len() - rhs].to_vec()
-- 
2.43.0


From 4caf1d71d4efb57c50141a60946d3cb6dd64f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:50 +0000
Subject: [PATCH 05/14] fix: shifting by i32::MIN no longer overflows

---
 src/polynomial/monomial.rs         | 14 ++++++++++----
 src/polynomial/polynomial.rs       | 14 ++++++++++----
 src/polynomial/sparsepolynomial.rs | 14 ++++++++++----
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/polynomial/monomial.rs b/src/polynomial/monomial.rs
index 1ba7dd6..aa8b6e2 100644
--- a/src/polynomial/monomial.rs
+++ b/src/polynomial/monomial.rs
@@ -503,7 +503,8 @@ impl<N: Zero + Copy> Shl<i32> for Monomial<N> {
 
     fn shl(self, rhs: i32) -> Monomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            // `-rhs` would overflow for `i32::MIN`
+            (self >> -(rhs + 1)) >> 1
         } else {
             Monomial::new(self.coefficient, self.deg + (rhs as usize))
         }
@@ -513,7 +514,9 @@ impl<N: Zero + Copy> Shl<i32> for Monomial<N> {
 impl<N: Zero + Copy> ShlAssign<i32> for Monomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            // `-rhs` would overflow for `i32::MIN`
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             self.deg += rhs as usize;
         }
@@ -525,7 +528,8 @@ impl<N: Zero + Copy> Shr<i32> for Monomial<N> {
 
     fn shr(self, rhs: i32) -> Monomial<N> {
         if rhs < 0 {
-            self << -rhs
+            // `-rhs` would overflow for `i32::MIN`
+            (self << -(rhs + 1)) << 1
         } else {
             let rhs = rhs as usize;
             if rhs > self.deg {
@@ -540,7 +544,9 @@ impl<N: Zero + Copy> Shr<i32> for Monomial<N> {
 impl<N: Zero + Copy> ShrAssign<i32> for Monomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            // `-rhs` would overflow for `i32::MIN`
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let rhs = rhs as usize;
             if rhs > self.deg {
diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 15ef622..34ed7af 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -880,7 +880,8 @@ impl<N: Zero + Copy> Shl<i32> for Polynomial<N> {
 
     fn shl(self, rhs: i32) -> Polynomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            // `-rhs` would overflow for `i32::MIN`
+            (self >> -(rhs + 1)) >> 1
         } else {
             let index = first_nonzero_index(&self.terms);
             let mut terms = self.terms[index..].to_vec();
@@ -893,7 +894,9 @@ impl<N: Zero + Copy> Shl<i32> for Polynomial<N> {
 impl<N: Zero + Copy> ShlAssign<i32> for Polynomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            // `-rhs` would overflow for `i32::MIN`
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             self.terms.extend(vec![N::zero(); rhs as usize]);
         }
@@ -905,7 +908,8 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
 
     fn shr(self, rhs: i32) -> Polynomial<N> {
         if rhs < 0 {
-            self << -rhs
+            // `-rhs` would overflow for `i32::MIN`
+            (self << -(rhs + 1)) << 1
         } else {
             let rhs = rhs as usize;
             let index = first_nonzero_index(&self.terms);
@@ -923,7 +927,9 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
 impl<N: Zero + Copy> ShrAssign<i32> for Polynomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            // `-rhs` would overflow for `i32::MIN`
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let rhs = rhs as usize;
             if rhs > self.terms.len() {
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 3be52fe..917d23f 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -880,7 +880,8 @@ impl<N: Copy> Shl<i32> for SparsePolynomial<N> {
 
     fn shl(self, rhs: i32) -> SparsePolynomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            // `-rhs` would overflow for `i32::MIN`
+            (self >> -(rhs + 1)) >> 1
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -895,7 +896,9 @@ impl<N: Copy> Shl<i32> for SparsePolynomial<N> {
 impl<N: Copy> ShlAssign<i32> for SparsePolynomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            // `-rhs` would overflow for `i32::MIN`
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -912,7 +915,8 @@ impl<N: Copy> Shr<i32> for SparsePolynomial<N> {
 
     fn shr(self, rhs: i32) -> SparsePolynomial<N> {
         if rhs < 0 {
-            self << -rhs
+            // `-rhs` would overflow for `i32::MIN`
+            (self << -(rhs + 1)) << 1
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -929,7 +933,9 @@ impl<N: Copy> Shr<i32> for SparsePolynomial<N> {
 impl<N: Copy> ShrAssign<i32> for SparsePolynomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            // `-rhs` would overflow for `i32::MIN`
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
-- 
2.43.0


From 8e5bc1c5535b60a65aea69a9397fc3bd73837843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:50 +0000
Subject: [PATCH 06/14] fix: raising to a power does not truncate large
 exponents

---
 src/numerics.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index a67744d..e1d312b 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -89,7 +89,7 @@ macro_rules! pow_u {
     ($T:ty) => {
         impl PowUsize for $T {
             fn upow(self, exp: usize) -> Self {
-                self.pow(exp as u32)
+                num::pow::pow(self, exp)
             }
         }
     };
@@ -110,13 +110,21 @@ pow_u!(isize);
 
 impl PowUsize for f32 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        if exp > i32::MAX as usize {
+            num::pow::pow(self, exp)
+        } else {
+            self.powi(exp as i32)
+        }
     }
 }
 
 impl PowUsize for f64 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        if exp > i32::MAX as usize {
+            num::pow::pow(self, exp)
+        } else {
+            self.powi(exp as i32)
+        }
     }
 }
 
-- 
2.43.0


From 9bc08c6c251d44262f890eeb15383b07965dd6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:46 +0000
Subject: [PATCH 07/14] fix: terms with a zero coefficient do not take part in
 evaluation and integration

---
 src/polynomial/monomial.rs         |  5 ++++-
 src/polynomial/sparsepolynomial.rs | 18 +++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/polynomial/monomial.rs b/src/polynomial/monomial.rs
index aa8b6e2..14b808b 100644
--- a/src/polynomial/monomial.rs
+++ b/src/polynomial/monomial.rs
@@ -163,7 +163,7 @@ where
 
 impl<N> Evaluable<N> for Monomial<N>
 where
-    N: PowUsize + Mul<Output = N> + Copy,
+    N: Zero + PowUsize + Mul<Output = N> + Copy,
 {
     /// Returns the value of the `Monomial` at the given point.
     ///
@@ -176,6 +176,9 @@ where
     /// assert_eq!(1, Monomial::new(1, 0).eval(0));
     /// ```
     fn eval(&self, point: N) -> N {
+        if self.coefficient.is_zero() {
+            return N::zero();
+        }
         self.coefficient * point.upow(self.deg)
     }
 }
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 917d23f..5dbe102 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -422,7 +422,9 @@ where
     fn eval(&self, point: N) -> N {
         let mut sum = N::zero();
         for (&degree, &val) in self.terms.iter() {
-            sum += val * point.upow(degree);
+            if !val.is_zero() {
+                sum += val * point.upow(degree);
+            }
         }
         sum
     }
@@ -488,12 +490,14 @@ where
     fn integral(&self) -> Integral<N, SparsePolynomial<N>> {
         let mut new_terms = BTreeMap::new();
         for (&deg, &coeff) in self.terms.iter() {
-            new_terms.insert(
-                deg + 1,
-                coeff
-                    / N::try_from_usize_exact(deg + 1)
-                        .expect("Degree has no lossless representation in N."),
-            );
+            if !coeff.is_zero() {
+                new_terms.insert(
+                    deg + 1,
+                    coeff
+                        / N::try_from_usize_exact(deg + 1)
+                            .expect("Degree has no lossless representation in N."),
+                );
+            }
         }
 
         Integral::new(SparsePolynomial::new(new_terms))
-- 
2.43.0


From 7f6c570ce4ea14be15838583cb1c6ce51a87367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:17 +0000
Subject: [PATCH 08/14] fix: displaying the smallest value of a signed integer
 type as a trailing coefficient

---
 src/strings.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/strings.rs b/src/strings.rs
index 0570e04..fa4ed50 100644
--- a/src/strings.rs
+++ b/src/strings.rs
@@ -1,8 +1,9 @@
+use alloc::string::ToString;
 use core::fmt;
 
 use num::One;
 
-use crate::numerics::{Abs, IsNegativeOne, IsPositive};
+use crate::numerics::{IsNegativeOne, IsPositive};
 
 macro_rules! fmt_poly {
     ($T:ident) => {
@@ -91,18 +92,21 @@ where
 
 pub(crate) fn write_trailing_term<N>(f: &mut fmt::Formatter, coeff: N, degree: usize) -> fmt::Result
 where
-    N: fmt::Display + One + IsPositive + PartialEq + Copy + Abs,
+    N: fmt::Display + One + IsPositive + PartialEq + Copy + IsNegativeOne,
 {
     write!(f, " {} ", if coeff.is_positive() { "+" } else { "-" })?;
 
-    let coeff = coeff.abs();
+    // The sign has been written, and the smallest value of a signed integer type
+    // has no absolute value in that type.
+    let text = coeff.to_string();
+    let magnitude = text.strip_prefix('-').unwrap_or(&text);
 
     if degree == 0 {
-        return write!(f, "{}", coeff);
+        return write!(f, "{}", magnitude);
     }
 
-    if !coeff.is_one() {
-        write!(f, "{}", coeff)?;
+    if !coeff.is_one() && !coeff.is_negative_one() {
+        write!(f, "{}", magnitude)?;
     }
 
     if degree > 1 {
-- 
2.43.0


From 0803711a940d6f1d513ddb5520e0930a4ffb3af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:17 +0000
Subject: [PATCH 09/14] fix: the derivative of a Polynomial only needs its
 degree to be representable

---
 src/polynomial/polynomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 34ed7af..db02517 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -410,7 +410,7 @@ where
     /// Will panic if `N` can not losslessly encode the numbers from 0 to the degree of `self`.
     fn derivative(&self) -> Polynomial<N> {
         let index = first_nonzero_index(&self.terms);
-        let mut degree = N::try_from_usize_cont(self.terms.len() - index)
+        let mut degree = N::try_from_usize_cont((self.terms.len() - index).saturating_sub(1))
             .expect("Degree has no lossless representation in N.");
         let mut terms = {
             if let Some((_, terms)) = self.terms.split_at(index).1.split_last() {
@@ -420,8 +420,8 @@ where
             }
         };
         for term in terms.iter_mut() {
-            degree -= N::one();
             *term *= degree;
+            degree -= N::one();
         }
         Polynomial { terms }
     }
-- 
2.43.0


From 2372295dd3ab487b154d9a747534ab60af1269c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:59 +0000
Subject: [PATCH 10/14] fix: integer roots of a QuadraticTrinomial are exact,
 and the largest root comes first

---
 src/polynomial/find_roots.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index eb68f42..68e3aff 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -47,16 +47,21 @@ where
 {
     let discriminant = discriminant_trinomial(a, b, c);
     let a = a * N::from(2);
-    let b = -b / a;
-
-    if discriminant.is_zero() {
-        return Roots::TwoRealRoots(b, b);
+    if discriminant.is_positive() {
+        let sqrt = discriminant.abs_sqrt();
+        let (root_a, root_b) = ((-b + sqrt) / a, (-b - sqrt) / a);
+        return if a.is_positive() {
+            Roots::TwoRealRoots(root_a, root_b)
+        } else {
+            Roots::TwoRealRoots(root_b, root_a)
+        };
     }
 
-    let sqrt = discriminant.abs_sqrt() / a;
-    if discriminant.is_positive() {
-        Roots::TwoRealRoots(b + sqrt, b - sqrt)
+    let b = -b / a;
+    if discriminant.is_zero() {
+        Roots::TwoRealRoots(b, b)
     } else {
+        let sqrt = discriminant.abs_sqrt() / a;
         Roots::TwoComplexRoots(Complex::new(b, sqrt), Complex::new(b, -sqrt))
     }
 }
-- 
2.43.0


From f48ab2debf35db0d8c60ab6097dff2df21a3b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:00 +0000
Subject: [PATCH 11/14] fix: complex factors of a QuadraticTrinomial vanish at
 its roots

---
 src/polynomial/trinomial.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/trinomial.rs b/src/polynomial/trinomial.rs
index 782a373..ff45ba4 100644
--- a/src/polynomial/trinomial.rs
+++ b/src/polynomial/trinomial.rs
@@ -81,8 +81,14 @@ where
         match self.roots() {
             Roots::TwoComplexRoots(root_a, root_b) => (
                 self.coefficients[0],
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_a]),
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_b]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), -N::zero()),
+                    Complex::new(-root_a.re, -root_a.im),
+                ]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), -N::zero()),
+                    Complex::new(-root_b.re, -root_b.im),
+                ]),
             ),
             Roots::TwoRealRoots(a, b) => (
                 self.coefficients[0],
-- 
2.43.0


From dc31ba923a407474301fd914868680d0504103c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:06 +0000
Subject: [PATCH 12/14] fix: report a degree that can not be read as such

---
 src/terms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terms.rs b/src/terms.rs
index 871c3a2..d471d2c 100644
--- a/src/terms.rs
+++ b/src/terms.rs
@@ -99,7 +99,7 @@ where
             if let Ok(degree) = usize::from_str(&str) {
                 Ok(Term::new(coeff, degree))
             } else {
-                Err(TermFromStringError::CoeffCouldNotBeParsed)
+                Err(TermFromStringError::DegreeCouldNotBeParsed)
             }
         } else {
             let str: String = num_vec.iter().collect();
-- 
2.43.0


From 114bb7c61245c1c9c6f73f989a73cbeff699c2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:14 +0000
Subject: [PATCH 13/14] fix: usize::MAX has no exact representation as a float

---
 src/numerics.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index e1d312b..265d643 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -444,7 +444,8 @@ pub enum ExactConversionError {
 impl TryFromUsizeExact for f32 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f32;
-        if conv as usize == num {
+        // u128 holds any rounded usize: usize::MAX as a float is 2^64, which does not fit usize
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
@@ -455,7 +456,8 @@ impl TryFromUsizeExact for f32 {
 impl TryFromUsizeExact for f64 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f64;
-        if conv as usize == num {
+        // u128 holds any rounded usize: usize::MAX as a float is 2^64, which does not fit usize
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
-- 
2.43.0


From 391494c22989de3caad304165f4bd5ec5709ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:23 +0000
Subject: [PATCH 14/14] fix: cubics with three distinct real roots

Cardano's formula takes the square root of a negative number there; taking
its absolute value instead gave three wrong roots, for example
-9, -4 and 9 came out as -11.97, 2.78 and 5.19. Use the trigonometric form.
---
 src/numerics.rs              | 19 +++++++++++++++++++
 src/polynomial/find_roots.rs | 14 +++++++++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 265d643..56c8acf 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -247,6 +247,25 @@ impl Cbrt for f64 {
     }
 }
 
+pub trait TrisectCos {
+    /// Given the cosine of an angle, returns the cosine of a third of that angle.
+    fn trisect_cos(self) -> Self;
+}
+
+impl TrisectCos for f32 {
+    fn trisect_cos(self) -> Self {
+        // Rounding can leave `self` just outside of [-1, 1].
+        (self.max(-1.).min(1.).acos() / 3.).cos()
+    }
+}
+
+impl TrisectCos for f64 {
+    fn trisect_cos(self) -> Self {
+        // Rounding can leave `self` just outside of [-1, 1].
+        (self.max(-1.).min(1.).acos() / 3.).cos()
+    }
+}
+
 pub trait CanNegate {
     fn can_negate() -> bool;
 }
diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index 68e3aff..893c092 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -4,7 +4,7 @@ use core::ops::{Add, AddAssign, Div, DivAssign, Mul, Neg, Sub, SubAssign};
 use num::{Complex, One, Zero};
 use roots::find_roots_sturm;
 
-use crate::numerics::{AbsSqrt, Cbrt, IsPositive};
+use crate::numerics::{AbsSqrt, Cbrt, IsPositive, TrisectCos};
 use crate::polynomial::polynomial::{first_nonzero_index, first_term};
 use crate::{Degree, Evaluable, SizedPolynomial, Term};
 
@@ -76,6 +76,7 @@ where
         + Add<Output = N>
         + AbsSqrt
         + Cbrt
+        + TrisectCos
         + IsPositive
         + Zero
         + One
@@ -87,8 +88,15 @@ where
     let p = -b / (N::from(3) * a);
     let q = cub(p) + (b * c - N::from(3) * a * d) / (N::from(6) * sqr(a));
     let r = c / (N::from(3) * a);
-    let k = (sqr(q) + cub(r - sqr(p))).abs_sqrt();
-    let x = (q + k).cbrt() + (q - k).cbrt() + p;
+    let radicand = sqr(q) + cub(r - sqr(p));
+    let x = if (-radicand).is_positive() {
+        // Three distinct real roots: Cardano's formula would need complex cube roots.
+        let m = (sqr(p) - r).abs_sqrt();
+        N::from(2) * m * (q / cub(m)).trisect_cos() + p
+    } else {
+        let k = radicand.abs_sqrt();
+        (q + k).cbrt() + (q - k).cbrt() + p
+    };
 
     let b = b / a + x;
     let c = c / a + b * x;
-- 
2.43.0

