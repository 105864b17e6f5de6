From 601b52c6d9d86639d1696daad30f7fcc10c52278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 1/4] fix: GaussJacobi nodes and weights are NaN when alpha +
 beta = -1

The general expression for the first off-diagonal element of the Jacobi matrix
is 0/0 when alpha + beta = -1, and so is the expression for the total mass of
the weight function. Use the equivalent expressions without a removable
singularity.
---
 src/jacobi/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 8e276b3..7d2da76 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -110,6 +110,12 @@ impl GaussJacobi {
                 }
             },
             |idx| {
+                if idx == 0 {
+                    // The general expression below is 0/0 here when alpha + beta = -1.
+                    let sum = alpha.get() + beta.get();
+                    return 2.0 / (2.0 + sum)
+                        * sqrt((1.0 + alpha.get()) * (1.0 + beta.get()) / (3.0 + sum));
+                }
                 let idx_f64 = idx as f64;
                 let idx_p1 = idx_f64 + 1.0;
                 let denom_sum = 2.0 * idx_p1 + alpha.get() + beta.get();
@@ -125,8 +131,7 @@ impl GaussJacobi {
             pow(2.0f64, alpha.get() + beta.get() + 1.0)
                 * gamma(alpha.get() + 1.0)
                 * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 1.0)
-                / (alpha.get() + beta.get() + 1.0),
+                / gamma(alpha.get() + beta.get() + 2.0),
         );
 
         // TO FIX: implement correction
-- 
2.43.0


From 2565a807f20d831722dc6ebb37128f8772da2606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 2/4] fix: validate FiniteAboveNegOneF64 when deserializing
 with serde

The derived Deserialize implementation accepted values that are not finite or
not above -1, which breaks the invariant of the type. The serialized format is
unchanged.
---
 src/data_api.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/data_api.rs b/src/data_api.rs
index 5ba1fd3..41cfe0e 100644
--- a/src/data_api.rs
+++ b/src/data_api.rs
@@ -24,6 +24,7 @@ pub type Weight = f64;
 
 #[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "UncheckedFiniteAboveNegOneF64"))]
 #[cfg_attr(
     feature = "rkyv",
     derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize)
@@ -40,6 +41,22 @@ pub type Weight = f64;
 /// A wrapper around an [`f64`] that ensures the value is greater than -1.0, finite, and not [`NAN`](f64::NAN).
 pub struct FiniteAboveNegOneF64(f64);
 
+/// The serialized form of a [`FiniteAboveNegOneF64`], whose value has not been checked yet.
+#[cfg(feature = "serde")]
+#[derive(serde::Deserialize)]
+#[serde(rename = "FiniteAboveNegOneF64")]
+struct UncheckedFiniteAboveNegOneF64(f64);
+
+#[cfg(feature = "serde")]
+impl TryFrom<UncheckedFiniteAboveNegOneF64> for FiniteAboveNegOneF64 {
+    type Error = InfNanNegOneOrLessError;
+
+    #[inline]
+    fn try_from(value: UncheckedFiniteAboveNegOneF64) -> Result<Self, Self::Error> {
+        value.0.try_into()
+    }
+}
+
 impl fmt::Display for FiniteAboveNegOneF64 {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-- 
2.43.0


From a78b5220f5ef4655d83f669f9445a42caa695e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 3/4] fix: gamma overflows for arguments between 169.7 and
 171.6 where its value is finite

---
 src/math.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index afa59e8..b137ad3 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -131,7 +131,15 @@ pub(crate) fn gamma(x: f64) -> f64 {
             .skip(1)
             .fold(GAMMA_DK[0], |s, t| s + t.1 / (x + t.0 as f64 - 1.0));
 
-        s * TWO_SQRT_E_OVER_PI * pow((x - 0.5 + GAMMA_R) / E, x - 0.5)
+        let base = (x - 0.5 + GAMMA_R) / E;
+        if x > 160.0 {
+            // The power overflows for some arguments where the gamma function does not,
+            // so it is multiplied in as two square roots of it.
+            let sqrt_pow = pow(base, 0.5 * (x - 0.5));
+            s * TWO_SQRT_E_OVER_PI * sqrt_pow * sqrt_pow
+        } else {
+            s * TWO_SQRT_E_OVER_PI * pow(base, x - 0.5)
+        }
     }
 }
 
-- 
2.43.0


From 5c94be2d649a5620c5dfbb915eaa01a5d6769ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 4/4] fix: weights of GaussJacobi overflow for large parameters
 although the gamma functions are finite

---
 src/jacobi/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jacobi/mod.rs b/src/jacobi/mod.rs
index 7d2da76..b9feae4 100644
--- a/src/jacobi/mod.rs
+++ b/src/jacobi/mod.rs
@@ -87,10 +87,10 @@ impl GaussJacobi {
         if deg.get() == 1 {
             // Special case for degree 1, since the nodes and weights are known.
             let node = (beta.get() - alpha.get()) / (alpha.get() + beta.get() + 2.0);
-            let weight = pow(2.0, alpha.get() + beta.get() + 1.0)
-                * gamma(alpha.get() + 1.0)
+            // The division comes first so that no intermediate result overflows.
+            let weight = gamma(alpha.get() + 1.0) / gamma(alpha.get() + beta.get() + 2.0)
                 * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 2.0);
+                * pow(2.0, alpha.get() + beta.get() + 1.0);
             return Self {
                 node_weight_pairs: [(node, weight)].into(),
                 alpha,
@@ -128,10 +128,10 @@ impl GaussJacobi {
                             / ((denom_sum + 1.0) * (denom_sum - 1.0)),
                     )
             },
-            pow(2.0f64, alpha.get() + beta.get() + 1.0)
-                * gamma(alpha.get() + 1.0)
+            // The division comes first so that no intermediate result overflows.
+            gamma(alpha.get() + 1.0) / gamma(alpha.get() + beta.get() + 2.0)
                 * gamma(beta.get() + 1.0)
-                / gamma(alpha.get() + beta.get() + 2.0),
+                * pow(2.0f64, alpha.get() + beta.get() + 1.0),
         );
 
         // TO FIX: implement correction
-- 
2.43.0

