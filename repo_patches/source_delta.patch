From e360ca382d601fe35ec0ecb4071e206a8825f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:05 +0000
Subject: [PATCH 1/8] fix: curve isomorphism between models with A1 = A2 or A1
 = -A2, and image of the point at infinity

---
 src/eccore.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/eccore.rs b/src/eccore.rs
index bf6c4f5..bf3a7cd 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -807,6 +807,17 @@ macro_rules! define_ec_core {
                     "Given curves are not isomorphic!"
                 );
                 let (A2, A1) = (domain.get_constant(), codomain.get_constant());
+                if A1.square().equals(&A2.square()) != 0 {
+                    // The formulas below degenerate when A1 = A2 or A1 = -A2:
+                    // the isomorphism is (x, y) -> (u*x, u*sqrt(u)*y), u = A1/A2 = +-1
+                    let u = if A1.equals(&A2) != 0 {
+                        Fq::ONE
+                    } else {
+                        -Fq::ONE
+                    };
+                    let w = (u * u.square()).sqrt().0;
+                    return CurveIsomorphism { u, v: Fq::ZERO, w };
+                }
                 let v = (A1.square() + A2.square().mul2() - Fq::THREE.square())
                     / (A1 * (Fq::THREE - A2.square()));
                 let u = (Fq::THREE * v + A1) / A2;
@@ -815,6 +826,9 @@ macro_rules! define_ec_core {
             }
 
             pub fn eval(&self, P: &Point) -> Point {
+                if P.isinfinity() != 0 {
+                    return Point::INFINITY;
+                }
                 let (Px, Py) = P.to_xy();
                 let imP = Point::new_xy(&(self.u * Px + self.v), &(self.w * Py));
                 imP
-- 
2.43.0


From 5a13b35cfa19f9b1edf860eb58a28b4bb275a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:05 +0000
Subject: [PATCH 2/8] fix: Weil pairing of linearly dependent points, points of
 smaller order and the point at infinity

---
 src/pairing.rs | 48 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/pairing.rs b/src/pairing.rs
index bc47a42..4f1ddb7 100644
--- a/src/pairing.rs
+++ b/src/pairing.rs
@@ -13,9 +13,17 @@ fn eval_line(E: &Curve, P: &Point, Q: &Point, R: &Point) -> Fq {
     let (Qx, Qy) = Q.to_xy();
     let (Rx, Ry, Rz) = R.to_xyz();
     let a = E.get_constant();
-    // When P or Q is the point at infinity i.e. D(g) = 0,
-    // the dividing by this evaluation of the line must be ignored
-    debug_assert!(P.isinfinity() == 0 && Q.isinfinity() == 0);
+    // When P or Q is the point at infinity, the line is the vertical one through
+    // the other point, and a constant if there is none
+    if P.isinfinity() != 0 && Q.isinfinity() != 0 {
+        return Rz;
+    }
+    if P.isinfinity() != 0 {
+        return Rx + (-Qx) * Rz;
+    }
+    if Q.isinfinity() != 0 {
+        return Rx + (-Px) * Rz;
+    }
 
     if P.equals(&Q) != 0 {
         if Py.iszero() != 0 {
@@ -34,10 +42,10 @@ fn eval_line(E: &Curve, P: &Point, Q: &Point, R: &Point) -> Fq {
     result
 }
 
-/// Evaluate Tate pairing using Miller's algorithm
-/// If two points P and Q are linearly dependent, it outputs zero.
-/// Reference : [crypto.stanford.edu](https://crypto.stanford.edu/pbc/notes/ep/miller.html)
-pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
+/// Miller's algorithm
+/// It outputs zero when Q is met among the multiples of P in the loop,
+/// which only happens if the two points are linearly dependent.
+fn miller_loop(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
     let mut f = Fq::ONE;
     let mut V = P.clone();
 
@@ -64,6 +72,19 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
 
     debug_assert!(V.isinfinity() != 0, "pairing point is invalid");
 
+    f
+}
+
+/// Evaluate Tate pairing using Miller's algorithm
+/// If Miller's algorithm degenerates for linearly dependent P and Q, it outputs one.
+/// Reference : [crypto.stanford.edu](https://crypto.stanford.edu/pbc/notes/ep/miller.html)
+pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
+    if P.isinfinity() != 0 || Q.isinfinity() != 0 {
+        return Fq::ONE;
+    }
+
+    let f = miller_loop(E, P, Q, order);
+
     if f.iszero() != 0 {
         return Fq::ONE;
     }
@@ -73,8 +94,17 @@ pub fn tate_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
 
 /// Computing Weil pairing of given two points using Tate pairing(Miller's algorithm).
 pub fn weil_pairing(E: &Curve, P: &Point, Q: &Point, order: &BigUint) -> Fq {
-    let ePQ = tate_pairing(E, P, Q, order);
-    let eQP = tate_pairing(E, Q, P, order);
+    if P.isinfinity() != 0 || Q.isinfinity() != 0 {
+        return Fq::ONE;
+    }
+
+    let ePQ = miller_loop(E, P, Q, order);
+    let eQP = miller_loop(E, Q, P, order);
+
+    // The Miller functions only vanish on linearly dependent points
+    if ePQ.iszero() != 0 || eQP.iszero() != 0 {
+        return Fq::ONE;
+    }
 
     if order.bit(0) {
         -ePQ / eQP
-- 
2.43.0


From 70a8e477daa5b6789ababde5e9aee8172f5b4776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:05 +0000
Subject: [PATCH 3/8] fix: 32-bit overflow in sqrt_floor

---
 src/discrete_log.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/discrete_log.rs b/src/discrete_log.rs
index 31e9b37..63e36fa 100644
--- a/src/discrete_log.rs
+++ b/src/discrete_log.rs
@@ -76,7 +76,7 @@ pub fn sqrt_floor(n: u32) -> u32 {
         }
     }
 
-    if b * b == n {
+    if (b as u64) * (b as u64) == n as u64 {
         return b;
     }
 
-- 
2.43.0


From fc4f0238e70eb1b1f4eca304ad03038c803e00bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:05 +0000
Subject: [PATCH 4/8] fix: order checks accepted elements whose order is a
 proper multiple of D

---
 src/supersingular.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/supersingular.rs b/src/supersingular.rs
index 4b9a9c8..bab150e 100644
--- a/src/supersingular.rs
+++ b/src/supersingular.rs
@@ -23,10 +23,15 @@ pub fn point_has_factored_order(E: &Curve, P: &Point, factored_order: &[(u32, u3
         pis.push(BigUint::from(*l));
     }
 
+    let radical = pis.iter().fold(BigUint::from(1u32), |m, l| m * l);
     let G_top = E.mul_big(P, &D_top);
     if G_top.equals(&Point::INFINITY) != 0 {
         return false;
     }
+    // The order of the point must divide D
+    if E.mul_big(&G_top, &radical).isinfinity() == 0 {
+        return false;
+    }
 
     /// Input : A list of elements 'G_list', such that G is the first entry and the rest is empty
     /// in the sublist G_list[lower:upper]
@@ -86,10 +91,15 @@ pub fn has_factored_order(v: Fq, factored_order: &[(u32, u32)]) -> bool {
         pis.push(BigUint::from(*l));
     }
 
+    let radical = pis.iter().fold(BigUint::from(1u32), |m, l| m * l);
     let G_top = v.pow_big(&D_top);
     if G_top.equals(&Fq::ONE) != 0 {
         return false;
     }
+    // The order of the element must divide D
+    if G_top.pow_big(&radical).equals(&Fq::ONE) == 0 {
+        return false;
+    }
 
     /// Input : A list of elements 'G_list', such that G is the first entry and the rest is empty
     /// in the sublist G_list[lower:upper]
-- 
2.43.0


From 3139ac3b93ff8be62124130cfb4bc5683ac48e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:05 +0000
Subject: [PATCH 5/8] fix: zero-length multiplier applied to a point of order 2

---
 src/eccore.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eccore.rs b/src/eccore.rs
index bf3a7cd..3f37477 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -638,7 +638,10 @@ macro_rules! define_ec_core {
                 let z1inf = !order1 & !order2 & !z0z & z1z;
                 let p1mp = !order1 & !order2 & !z0z & !z1z & x1ex;
 
-                let n_odd = ((n[0] as u32) & 1).wrapping_neg();
+                let n_odd = match nbitlen {
+                    0 => 0u32,
+                    _ => ((n[0] as u32) & 1).wrapping_neg(),
+                };
                 P3.Z.set_cond(&Fq::ZERO, order1 | (order2 & !n_odd) | z0inf);
                 P3.set_cond(&P, z1inf | (order2 & n_odd));
                 P3.set_cond(&dP, p1mp);
-- 
2.43.0


From 5063aa9fabecacca135da884e8c55040773e2fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:48 +0000
Subject: [PATCH 6/8] fix: split theta points whose second row or column
 vanishes

An image on E3 x E4 with x2 = 0 or y1 = 0 in theta coordinates (a component of
order four) was split from a zero pair and returned as the point at infinity.
---
 src/theta.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/theta.rs b/src/theta.rs
index 719c22e..acb0c91 100644
--- a/src/theta.rs
+++ b/src/theta.rs
@@ -950,10 +950,17 @@ macro_rules! define_theta_structure {
         /// Models of Kummer lines and Galois representation,
         /// Razvan Barbulescu, Damien Robert and Nicolas Sarkis
         fn split_theta_point(P: &ThetaPoint) -> ((Fq, Fq), (Fq, Fq)) {
-            let (a, b, _, d) = P.coords();
-
-            let P1 = (a, b);
-            let P2 = (b, d);
+            let (a, b, c, d) = P.coords();
+
+            // (a, b, c, d) = (x1*x2, y1*x2, x1*y2, y1*y2): either x2 or y1 can be
+            // zero, the other row (column) gives the point then
+            let (mut P1, mut P2) = ((a, b), (b, d));
+            let x2_zero = a.iszero() & b.iszero();
+            P1.0.set_cond(&c, x2_zero);
+            P1.1.set_cond(&d, x2_zero);
+            let y1_zero = b.iszero() & d.iszero();
+            P2.0.set_cond(&a, y1_zero);
+            P2.1.set_cond(&c, y1_zero);
 
             (P1, P2)
         }
-- 
2.43.0


From 85b68200977e8778200b114eee15681e852c9345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:58 +0000
Subject: [PATCH 7/8] fix: isomorphisms to and from y^2 = x^3 + x

CurveIsomorphism::new divides by zero when the j-invariant is 1728 and
one of the two Montgomery models is y^2 = x^3 + x (A = 0).
---
 src/eccore.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/eccore.rs b/src/eccore.rs
index 3f37477..e95b1a8 100644
--- a/src/eccore.rs
+++ b/src/eccore.rs
@@ -821,9 +821,20 @@ macro_rules! define_ec_core {
                     let w = (u * u.square()).sqrt().0;
                     return CurveIsomorphism { u, v: Fq::ZERO, w };
                 }
-                let v = (A1.square() + A2.square().mul2() - Fq::THREE.square())
-                    / (A1 * (Fq::THREE - A2.square()));
-                let u = (Fq::THREE * v + A1) / A2;
+                let (u, v);
+                if A1.iszero() != 0 {
+                    // j = 1728: the codomain is y^2 = x^3 + x, v is one of the roots of x^2 + 1
+                    v = Fq::ZETA;
+                    u = (Fq::THREE * v) / A2;
+                } else if A2.iszero() != 0 {
+                    // j = 1728: the domain is y^2 = x^3 + x, so that v = -A1/3
+                    v = -A1 / Fq::THREE;
+                    u = (Fq::ONE - v.square() * Fq::THREE).sqrt().0;
+                } else {
+                    v = (A1.square() + A2.square().mul2() - Fq::THREE.square())
+                        / (A1 * (Fq::THREE - A2.square()));
+                    u = (Fq::THREE * v + A1) / A2;
+                }
                 let w = (u * u.square()).sqrt().0;
                 CurveIsomorphism { u, v, w }
             }
-- 
2.43.0


From b7c06658f0c06fcb8cc2eebb1668354450c9c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:19 +0000
Subject: [PATCH 8/8] fix: do not use mulx on x86_64 targets without BMI2

umull() called the _mulx_u64 intrinsic on every x86_64 target, although
mulx is not part of the x86_64 baseline: without -C target-feature=+bmi2
this is undefined behaviour (an illegal instruction on older processors).
The portable form is now used unless the target has BMI2.
---
 src/finitefield/utils64.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/finitefield/utils64.rs b/src/finitefield/utils64.rs
index 461a217..61cdc91 100644
--- a/src/finitefield/utils64.rs
+++ b/src/finitefield/utils64.rs
@@ -45,7 +45,8 @@ pub(crate) const fn subborrow_u64(x: u64, y: u64, c: u8) -> (u64, u8) {
 // `umull_add2`, but the output performed worse than the current
 // impl!!
 // Compute x*y over 128 bits, returned as two 64-bit words (lo, hi)
-#[cfg(target_arch = "x86_64")]
+// (mulx is not part of the x86_64 baseline: it is only used when the target has BMI2)
+#[cfg(all(target_arch = "x86_64", target_feature = "bmi2"))]
 pub(crate) fn umull(x: u64, y: u64) -> (u64, u64) {
     use core::arch::x86_64::_mulx_u64;
     unsafe {
@@ -55,7 +56,7 @@ pub(crate) fn umull(x: u64, y: u64) -> (u64, u64) {
     }
 }
 
-#[cfg(not(target_arch = "x86_64"))]
+#[cfg(not(all(target_arch = "x86_64", target_feature = "bmi2")))]
 #[inline(always)]
 pub(crate) const fn umull(x: u64, y: u64) -> (u64, u64) {
     let z = (x as u128) * (y as u128);
-- 
2.43.0

