From 902bd7ad0a35f3340fc2a9974de550eb46d10ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 1/7] fix: Gauss-Jacobi rule is NaN or inaccurate when alpha +
 beta is (close to) -1

The first off-diagonal element of the Jacobi matrix and the total mass were
both computed through a removable 0/0 singularity at alpha + beta = -1.
---
 src/jacobi/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 8e276b3..8372a42 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -113,6 +113,12 @@ impl GaussJacobi {
                 let idx_f64 = idx as f64;
                 let idx_p1 = idx_f64 + 1.0;
                 let denom_sum = 2.0 * idx_p1 + alpha.get() + beta.get();
+                if idx == 0 {
+                    // The general expression has a factor of (1 + alpha + beta) in both the numerator
+                    // and the denominator here, which would give 0 / 0 when alpha + beta = -1.
+                    return 2.0 / denom_sum
+                        * sqrt((idx_p1 + alpha.get()) * (idx_p1 + beta.get()) / (denom_sum + 1.0));
+                }
                 2.0 / denom_sum
                     * sqrt(
                         idx_p1
@@ -125,8 +131,7 @@ impl GaussJacobi {
             pow(2.0f64, alpha.get() + beta.get() + 1.0)
                 * gamma(alpha.get() + 1.0)
                 * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 1.0)
-                / (alpha.get() + beta.get() + 1.0),
+                / gamma(alpha.get() + beta.get() + 2.0),
         );
 
         // TO FIX: implement correction
-- 
2.43.0


From 975601d672693f2c95c094126c9c8db0710bc847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 2/7] fix: Legendre and Chebyshev rules of degree usize::MAX
 are silently empty

degree + 1 wraps around to 0 in builds without overflow checks, so the
constructors returned a rule with no nodes instead of failing to allocate.
---
 src/chebyshev/mod.rs | 20 ++++++++++----------
 src/legendre/mod.rs  |  8 ++++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/chebyshev/mod.rs b/src/chebyshev/mod.rs
index b6f796a..e2f37e0 100644
--- a/src/chebyshev/mod.rs
+++ b/src/chebyshev/mod.rs
@@ -51,9 +51,9 @@ impl GaussChebyshevFirstKind {
         let n = degree.get() as f64;
 
         Self {
-            node_weight_pairs: (1..degree.get() + 1)
+            node_weight_pairs: (0..degree.get())
                 .rev()
-                .map(|i| (cos(PI * (2.0 * (i as f64) - 1.0) / (2.0 * n)), PI / n))
+                .map(|i| (cos(PI * (2.0 * ((i + 1) as f64) - 1.0) / (2.0 * n)), PI / n))
                 .collect(),
         }
     }
@@ -72,10 +72,10 @@ impl GaussChebyshevFirstKind {
         let n = degree.get() as f64;
 
         Self {
-            node_weight_pairs: (1..degree.get() + 1)
+            node_weight_pairs: (0..degree.get())
                 .into_par_iter()
                 .rev()
-                .map(|i| (cos(PI * (2.0 * (i as f64) - 1.0) / (2.0 * n)), PI / n))
+                .map(|i| (cos(PI * (2.0 * ((i + 1) as f64) - 1.0) / (2.0 * n)), PI / n))
                 .collect(),
         }
     }
@@ -149,13 +149,13 @@ impl GaussChebyshevSecondKind {
         let n = degree.get() as f64;
 
         Self {
-            node_weight_pairs: (1..degree.get() + 1)
+            node_weight_pairs: (0..degree.get())
                 .rev()
                 .map(|i| {
                     let over_n_plus_1 = 1.0 / (n + 1.0);
-                    let sin_val = sin(PI * i as f64 * over_n_plus_1);
+                    let sin_val = sin(PI * (i + 1) as f64 * over_n_plus_1);
                     (
-                        cos(PI * i as f64 * over_n_plus_1),
+                        cos(PI * (i + 1) as f64 * over_n_plus_1),
                         PI * over_n_plus_1 * sin_val * sin_val,
                     )
                 })
@@ -169,14 +169,14 @@ impl GaussChebyshevSecondKind {
         let n = degree.get() as f64;
 
         Self {
-            node_weight_pairs: (1..degree.get() + 1)
+            node_weight_pairs: (0..degree.get())
                 .into_par_iter()
                 .rev()
                 .map(|i| {
                     let over_n_plus_1 = 1.0 / (n + 1.0);
-                    let sin_val = sin(PI * i as f64 * over_n_plus_1);
+                    let sin_val = sin(PI * (i + 1) as f64 * over_n_plus_1);
                     (
-                        cos(PI * i as f64 * over_n_plus_1),
+                        cos(PI * (i + 1) as f64 * over_n_plus_1),
                         PI * over_n_plus_1 * sin_val * sin_val,
                     )
                 })
diff --git a/src/legendre/mod.rs b/src/legendre/mod.rs
index 085b790..69d009d 100644
--- a/src/legendre/mod.rs
+++ b/src/legendre/mod.rs
@@ -91,9 +91,9 @@ impl GaussLegendre {
     /// complexity.
     pub fn new(degree: NonZeroUsize) -> Self {
         Self {
-            node_weight_pairs: (1..degree.get() + 1)
+            node_weight_pairs: (0..degree.get())
                 .rev()
-                .map(|k: usize| NodeWeightPair::new(degree.get(), k).into_tuple())
+                .map(|k: usize| NodeWeightPair::new(degree.get(), k + 1).into_tuple())
                 .collect(),
         }
     }
@@ -102,10 +102,10 @@ impl GaussLegendre {
     /// Same as [`new`](GaussLegendre::new) but runs in parallel.
     pub fn par_new(degree: NonZeroUsize) -> Self {
         Self {
-            node_weight_pairs: (1..degree.get() + 1)
+            node_weight_pairs: (0..degree.get())
                 .into_par_iter()
                 .rev()
-                .map(|k| NodeWeightPair::new(degree.get(), k).into_tuple())
+                .map(|k| NodeWeightPair::new(degree.get(), k + 1).into_tuple())
                 .collect(),
         }
     }
-- 
2.43.0


From 40a5b7e7ac7334cf77a876aae18b875bebe695e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 3/7] fix: Golub-Welsch rules of very large degree write out of
 bounds

If degree^2 wraps around (e.g. degree = 2^32 on 64-bit targets) nalgebra
allocates a too small matrix and the process crashes with a segmentation
fault in builds without overflow checks. Panic instead.
---
 src/golub_welsch.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/golub_welsch.rs b/src/golub_welsch.rs
index b54b5f3..b172449 100644
--- a/src/golub_welsch.rs
+++ b/src/golub_welsch.rs
@@ -19,6 +19,10 @@ use nalgebra::{Dyn, SquareMatrix, VecStorage};
 /// The elements of the first row of the resulting eigenvector matrix is multiplied by x^2*`scale_factor`.
 ///
 /// The node-weight pairs are sorted by the node.
+///
+/// # Panics
+///
+/// Panics if the number of elements in the companion matrix (the square of the degree) overflows a `usize`.
 pub fn golub_welsch<D, O>(
     degree: NonZeroUsize,
     diag: D,
@@ -29,6 +33,13 @@ where
     D: Fn(usize) -> f64,
     O: Fn(usize) -> f64,
 {
+    // nalgebra does not check that the number of elements fits in a `usize` before it allocates
+    // and writes to the matrix.
+    assert!(
+        degree.get().checked_mul(degree.get()).is_some(),
+        "the degree is too large for the companion matrix to fit in memory"
+    );
+
     let mut companion_matrix =
         SquareMatrix::<f64, Dyn, VecStorage<f64, Dyn, Dyn>>::zeros(degree.get(), degree.get());
 
-- 
2.43.0


From bd1f9eae4bf7e2316ee5b6aa6a8e21c87c8b3b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 4/7] fix: gamma function overflows for arguments between 169.7
 and 171.6

This made all weights of Gauss-Laguerre rules with alpha in that range (minus
one) infinite even though they are representable.
---
 src/math.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index afa59e8..6ac3a74 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -131,7 +131,14 @@ pub(crate) fn gamma(x: f64) -> f64 {
             .skip(1)
             .fold(GAMMA_DK[0], |s, t| s + t.1 / (x + t.0 as f64 - 1.0));
 
-        s * TWO_SQRT_E_OVER_PI * pow((x - 0.5 + GAMMA_R) / E, x - 0.5)
+        let base = (x - 0.5 + GAMMA_R) / E;
+        if x > 160.0 {
+            // The power overflows before the gamma function itself does, so apply it in two steps.
+            let half_power = pow(base, 0.5 * (x - 0.5));
+            s * TWO_SQRT_E_OVER_PI * half_power * half_power
+        } else {
+            s * TWO_SQRT_E_OVER_PI * pow(base, x - 0.5)
+        }
     }
 }
 
-- 
2.43.0


From 5dcfcde0b0896e9fc1ce4c8566e5537c2c32137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 5/7] fix: Gauss-Jacobi weights are 0, infinite or NaN for
 large alpha and beta

The gamma functions in the expression for the integral of the weight function
overflow when alpha + beta is larger than about 169, even though the integral
itself is representable. Already alpha = beta = 85.5 made all weights 0.
---
 src/jacobi/mod.rs | 12 +++---------
 src/math.rs       | 43 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 8372a42..faaa167 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -27,7 +27,7 @@ use rayon::prelude::{IntoParallelRefIterator, ParallelIterator};
 use crate::{
     __impl_node_weight_rule, FiniteAboveNegOneF64, GaussChebyshevFirstKind,
     GaussChebyshevSecondKind, GaussLegendre, Node, Weight,
-    math::{gamma, pow, sqrt},
+    math::{jacobi_weight_integral, sqrt},
 };
 
 use crate::golub_welsch::golub_welsch;
@@ -87,10 +87,7 @@ impl GaussJacobi {
         if deg.get() == 1 {
             // Special case for degree 1, since the nodes and weights are known.
             let node = (beta.get() - alpha.get()) / (alpha.get() + beta.get() + 2.0);
-            let weight = pow(2.0, alpha.get() + beta.get() + 1.0)
-                * gamma(alpha.get() + 1.0)
-                * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 2.0);
+            let weight = jacobi_weight_integral(alpha.get(), beta.get());
             return Self {
                 node_weight_pairs: [(node, weight)].into(),
                 alpha,
@@ -128,10 +125,7 @@ impl GaussJacobi {
                             / ((denom_sum + 1.0) * (denom_sum - 1.0)),
                     )
             },
-            pow(2.0f64, alpha.get() + beta.get() + 1.0)
-                * gamma(alpha.get() + 1.0)
-                * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 2.0),
+            jacobi_weight_integral(alpha.get(), beta.get()),
         );
 
         // TO FIX: implement correction
diff --git a/src/math.rs b/src/math.rs
index 6ac3a74..1625640 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -142,6 +142,49 @@ pub(crate) fn gamma(x: f64) -> f64 {
     }
 }
 
+/// The rational part of the Lanczos approximation of the gamma function for `x >= 0.5`.
+fn lanczos_sum(x: f64) -> f64 {
+    GAMMA_DK
+        .iter()
+        .enumerate()
+        .skip(1)
+        .fold(GAMMA_DK[0], |s, t| s + t.1 / (x + t.0 as f64 - 1.0))
+}
+
+/// Computes the integral of (1 - x)^`alpha` * (1 + x)^`beta` over [-1, 1], that is
+/// 2^(alpha + beta + 1) * gamma(alpha + 1) * gamma(beta + 1) / gamma(alpha + beta + 2),
+/// for `alpha` and `beta` larger than -1.
+///
+/// The gamma functions overflow long before the integral itself does, so the powers
+/// in their Lanczos approximations are combined before they are evaluated.
+pub(crate) fn jacobi_weight_integral(alpha: f64, beta: f64) -> f64 {
+    let (mut p, mut q) = (alpha + 1.0, beta + 1.0);
+
+    // B(p, q) = B(p + 1, q) * (p + q) / p moves both arguments to where the approximation is valid.
+    let mut factor = 1.0;
+    if p < 0.5 {
+        factor *= 0.5 * (p + q) / p;
+        p += 1.0;
+    }
+    if q < 0.5 {
+        factor *= 0.5 * (p + q) / q;
+        q += 1.0;
+    }
+
+    if p < q {
+        core::mem::swap(&mut p, &mut q);
+    }
+    let denominator = p + q - 0.5 + GAMMA_R;
+    let p_ratio = 2.0 * (p - 0.5 + GAMMA_R) / denominator;
+    let q_ratio = 2.0 * (q - 0.5 + GAMMA_R) / denominator;
+
+    factor * lanczos_sum(p) * lanczos_sum(q) / lanczos_sum(p + q)
+        * TWO_SQRT_E_OVER_PI
+        * sqrt(E / denominator)
+        * pow(p_ratio * q_ratio, q - 0.5)
+        * pow(p_ratio, p - q)
+}
+
 #[cfg(test)]
 mod tests {
     use super::gamma;
-- 
2.43.0


From 6bc9a19f7c73842677bcc721d7ae04e595bfe9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 6/7] fix: deserialized FiniteAboveNegOneF64 can contain an
 invalid value

The derived Deserialize implementation accepted values that are less than or
equal to -1 (or infinite or NAN), which the type promises to never contain.
The serialized format is unchanged.
---
 src/data_api.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/data_api.rs b/src/data_api.rs
index 5ba1fd3..ab55656 100644
--- a/src/data_api.rs
+++ b/src/data_api.rs
@@ -23,7 +23,11 @@ pub type Node = f64;
 pub type Weight = f64;
 
 #[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]
-#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(serde::Serialize, serde::Deserialize),
+    serde(try_from = "UncheckedFiniteAboveNegOneF64")
+)]
 #[cfg_attr(
     feature = "rkyv",
     derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
@@ -40,6 +44,23 @@ pub type Weight = f64;
 /// A wrapper around an [`f64`] that ensures the value is greater than -1.0, finite, and not [`NAN`](f64::NAN).
 pub struct FiniteAboveNegOneF64(f64);
 
+/// What a [`FiniteAboveNegOneF64`] is deserialized from, so that the value is checked when that happens.
+/// It is a struct with the same name and not just an `f64` so that the data formats that distinguish
+/// between the two can deserialize what they serialized.
+#[cfg(feature = "serde")]
+#[derive(serde::Deserialize)]
+#[serde(rename = "FiniteAboveNegOneF64")]
+struct UncheckedFiniteAboveNegOneF64(f64);
+
+#[cfg(feature = "serde")]
+impl TryFrom<UncheckedFiniteAboveNegOneF64> for FiniteAboveNegOneF64 {
+    type Error = InfNanNegOneOrLessError;
+
+    fn try_from(value: UncheckedFiniteAboveNegOneF64) -> Result<Self, Self::Error> {
+        value.0.try_into()
+    }
+}
+
 impl fmt::Display for FiniteAboveNegOneF64 {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-- 
2.43.0


From 078f83c4b5ffed847e912951448d7bee680c8e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 7/7] fix: derive the rkyv and zerocopy traits for all
 quadrature rule structs

The documentation promises them for the quadrature rule structs, but the rkyv
traits were missing for GaussChebyshevSecondKind, and both features did nothing
for Midpoint, Simpson and Trapezoid.
---
 src/chebyshev/mod.rs | 4 ++++
 src/midpoint/mod.rs  | 5 +++++
 src/simpson/mod.rs   | 5 +++++
 src/trapezoid/mod.rs | 5 +++++
 4 files changed, 19 insertions(+)

diff --git a/src/chebyshev/mod.rs b/src/chebyshev/mod.rs
index e2f37e0..07eeac7 100644
--- a/src/chebyshev/mod.rs
+++ b/src/chebyshev/mod.rs
@@ -138,6 +138,10 @@ __impl_node_weight_rule! {GaussChebyshevFirstKind, GaussChebyshevFirstKindNodes,
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
 #[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct GaussChebyshevSecondKind {
     node_weight_pairs: Box<[(Node, Weight)]>,
diff --git a/src/midpoint/mod.rs b/src/midpoint/mod.rs
index 841ee2b..1ae402e 100644
--- a/src/midpoint/mod.rs
+++ b/src/midpoint/mod.rs
@@ -60,6 +60,11 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
+#[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct Midpoint {
     degree: NonZeroU32,
 }
diff --git a/src/simpson/mod.rs b/src/simpson/mod.rs
index 6b520a8..4e012f8 100644
--- a/src/simpson/mod.rs
+++ b/src/simpson/mod.rs
@@ -54,6 +54,11 @@ use core::num::NonZeroU32;
 /// ```
 #[derive(Debug, Clone, PartialEq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
+#[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct Simpson {
     degree: NonZeroU32,
 }
diff --git a/src/trapezoid/mod.rs b/src/trapezoid/mod.rs
index 1a47860..d7577bf 100644
--- a/src/trapezoid/mod.rs
+++ b/src/trapezoid/mod.rs
@@ -49,6 +49,11 @@ use crate::__impl_node_rule;
 /// ```
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "rkyv",
+    derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
+)]
+#[cfg_attr(feature = "zerocopy", derive(zerocopy::KnownLayout))]
 pub struct Trapezoid {
     degree: NonZeroU32,
 }
-- 
2.43.0

