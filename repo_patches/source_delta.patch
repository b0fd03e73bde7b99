From 8856ac3b2bb22f541a433c2c0cb957608b260bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 01/21] fix: rank-0 run-time shapes enumerate their one (empty)
 index

---
 aegir/src/buffers/shapes/multi_product.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/aegir/src/buffers/shapes/multi_product.rs b/aegir/src/buffers/shapes/multi_product.rs
index aeacf7c..1878299 100644
--- a/aegir/src/buffers/shapes/multi_product.rs
+++ b/aegir/src/buffers/shapes/multi_product.rs
@@ -45,8 +45,10 @@ enum MultiProductIterState {
     MidIter { on_first_iter: bool },
 }
 
+/// The second field is only used when `DIM == 0`: it counts the indices left,
+/// of which there is exactly one (the empty index).
 #[derive(Clone)]
-pub struct MultiProduct<const DIM: usize>([MultiProductIter; DIM]);
+pub struct MultiProduct<const DIM: usize>([MultiProductIter; DIM], usize);
 
 impl<const DIM: usize> MultiProduct<DIM> {
     pub fn new(sizes: [usize; DIM]) -> Self {
@@ -54,7 +56,7 @@ impl<const DIM: usize> MultiProduct<DIM> {
             cur: None,
             iter: 0..s,
             iter_orig: 0..s,
-        }))
+        }), 1)
     }
 
     fn iterate_last(
@@ -118,6 +120,12 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     type Item = [usize; DIM];
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.0.is_empty() {
+            self.1 = self.1.checked_sub(1)?;
+
+            return Some(self.curr_iterator());
+        }
+
         if MultiProduct::<DIM>::iterate_last(&mut self.0, MultiProductIterState::StartOfIter) {
             Some(self.curr_iterator())
         } else {
@@ -127,7 +135,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
 
     fn count(self) -> usize {
         if self.0.is_empty() {
-            return 0;
+            return self.1;
         }
 
         if !self.in_progress() {
@@ -153,7 +161,7 @@ impl<const DIM: usize> Iterator for MultiProduct<DIM> {
     fn size_hint(&self) -> (usize, Option<usize>) {
         // Not ExactSizeIterator because size may be larger than usize
         if self.0.is_empty() {
-            return (0, Some(0));
+            return (self.1, Some(self.1));
         }
 
         if !self.in_progress() {
-- 
2.43.0


From 8bffecfb3cf143d5bde4088b5097dcd1bfc08d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 02/21] fix: scalar-array zip_map passes its operands in order
 for rank >= 2

---
 aegir/src/buffers/arrays/zip_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/buffers/arrays/zip_ops.rs b/aegir/src/buffers/arrays/zip_ops.rs
index 546f4db..b8f88aa 100644
--- a/aegir/src/buffers/arrays/zip_ops.rs
+++ b/aegir/src/buffers/arrays/zip_ops.rs
@@ -157,7 +157,7 @@ macro_rules! impl_map {
             };
             @zm_field_l |self, rhs, f| {
                 Ok(array_init::array_init(|i| unsafe {
-                    rhs[i].zip_map(&self, &f).unwrap_unchecked()
+                    rhs[i].zip_map(&self, |r, l| f(l, r)).unwrap_unchecked()
                 }))
             };
         );
-- 
2.43.0


From 36e66655a7cc1eb3d2bac97d3eec0c6eaca75d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 03/21] fix: vector-matrix contraction sums over all rows of
 the matrix

---
 aegir/src/buffers/arrays/contraction_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 3f44564..8360efa 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -187,7 +187,7 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
 }; S2);
 
 impl_contract!(1; <F: Scalar, N, M> [F; N], [[F; M]; N]; |self, x, y| -> [F; M] {
-    Ok(array_init::array_init(|i| (0..M).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
+    Ok(array_init::array_init(|i| (0..N).fold(F::zero(), |acc, k| acc + self[k] * y[k][i])))
 }, {
     use Spec::*;
 
-- 
2.43.0


From e42a2ac943833a237dbe9c04a99ecd53ffff4858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 04/21] fix: multiplying a dual by a plain value scales its
 adjoint

---
 aegir/src/dual.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aegir/src/dual.rs b/aegir/src/dual.rs
index 0c4b706..4de2d82 100644
--- a/aegir/src/dual.rs
+++ b/aegir/src/dual.rs
@@ -223,13 +223,14 @@ where
 impl<V, A> ops::Mul<V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<V>,
+    A: Buffer + std::ops::Mul<V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<MulOut<V, V>, MulOut<A, V>>;
 
     fn mul(self, rhs: V) -> Self::Output {
         Dual {
-            value: self.value * rhs,
-            adjoint: self.adjoint,
+            value: self.value * rhs.clone(),
+            adjoint: self.adjoint * rhs,
         }
     }
 }
@@ -237,13 +238,14 @@ where
 impl<'a, V, A> ops::Mul<&'a V> for Dual<V, A>
 where
     V: Buffer + std::ops::Mul<&'a V>,
+    A: Buffer + std::ops::Mul<&'a V>,
 {
-    type Output = Dual<V::Output, A>;
+    type Output = Dual<MulOut<V, &'a V>, MulOut<A, &'a V>>;
 
     fn mul(self, rhs: &'a V) -> Self::Output {
         Dual {
             value: self.value * rhs,
-            adjoint: self.adjoint,
+            adjoint: self.adjoint * rhs,
         }
     }
 }
-- 
2.43.0


From 2011f1028c48756b00e3118d5a8262b4eb488952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 05/21] fix: products of a homogeneous vector with a diagonal
 matrix need a square matrix to stay homogeneous

---
 aegir/src/buffers/arrays/contraction_ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 8360efa..249deaa 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -150,7 +150,7 @@ impl_contract!(1; <F: Scalar, N, M> [[F; M]; N], [F; N]; |self, x, y| -> [F; M]
     match (x, y) {
         (Full(_, fx), _) if fx.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Diagonal(_, fx), Full(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Diagonal(_, fx), Full(_, fy)) if M == N => Ok(Full(S1, fx * fy)),
 
         (Diagonal(_, fx), y) if M == N => Ok(Raw({
             let mut y = y.unwrap();
@@ -194,7 +194,7 @@ impl_contract!(1; <F: Scalar, N, M> [F; N], [[F; M]; N]; |self, x, y| -> [F; M]
     match (x, y) {
         (_, Full(_, fy)) if fy.is_zero() => Ok(Spec::zeroes(S1)),
 
-        (Full(_, fx), Diagonal(_, fy)) => Ok(Full(S1, fx * fy)),
+        (Full(_, fx), Diagonal(_, fy)) if M == N => Ok(Full(S1, fx * fy)),
 
         (x, Diagonal(_, fy)) if M == N => Ok(Raw({
             let mut x = x.unwrap();
-- 
2.43.0


From 6109f87f98553f34f85d7c2c40eec0cdf4018cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:22 +0000
Subject: [PATCH 06/21] fix: homogeneous sums and dot products do not depend on
 the count, or on a partial product, being representable

---
 aegir/src/buffers/arrays/contraction_ops.rs | 6 ++++--
 aegir/src/ops/arithmetic/unary.rs           | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/aegir/src/buffers/arrays/contraction_ops.rs b/aegir/src/buffers/arrays/contraction_ops.rs
index 249deaa..cb9a2d3 100644
--- a/aegir/src/buffers/arrays/contraction_ops.rs
+++ b/aegir/src/buffers/arrays/contraction_ops.rs
@@ -135,7 +135,8 @@ impl_contract!(1; <F: FromPrimitive, N> [F; N], [F; N]; |self, x, y| -> F {
     use Spec::*;
 
     match (x, y) {
-        (Full(_, fx), Full(_, fy)) => Ok(Full(S0, F::from_usize(N).unwrap() * fx * fy)),
+        (Full(_, fx), Full(_, fy)) if F::from_usize(N).is_some() =>
+            Ok(Full(S0, F::from_usize(N).unwrap() * (fx * fy))),
         (Full(_, fx), y) => Ok(Full(S0, y.unwrap().fold(F::zero(), |acc, yi| acc + fx * yi))),
         (x, Full(_, fy)) => Ok(Full(S0, x.unwrap().fold(F::zero(), |acc, xi| acc + xi * fy))),
         (x, y) => x.unwrap().zip_fold(&y.unwrap(), F::zero(), |acc, (xi, yi)| acc + xi * yi).map(Raw),
@@ -178,7 +179,8 @@ impl_contract!(1; <F: FromPrimitive, N, M, Z> [[F; Z]; N], [[F; M]; Z]; |self, x
     use Spec::*;
 
     match (x, y) {
-        (Full(_, fx), Full(_, fy)) => Ok(Full(S2, F::from_usize(Z).unwrap() * fx * fy)),
+        (Full(_, fx), Full(_, fy)) if F::from_usize(Z).is_some() =>
+            Ok(Full(S2, F::from_usize(Z).unwrap() * (fx * fy))),
 
         (Diagonal(_, fx), Diagonal(_, fy)) if N == Z && M == N => Ok(Diagonal(S2, fx * fy)),
 
diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index fba7786..63ac831 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -248,8 +248,10 @@ where
         use Spec::*;
 
         Ok(match self.0.evaluate_spec(ctx)? {
-            // TODO: replace unwrap with error propagation.
-            Full(sh, val) => Full(S0, F::from_usize(sh.cardinality()).unwrap() * val),
+            Full(sh, val) => match F::from_usize(sh.cardinality()) {
+                Some(n) => Full(S0, n * val),
+                None => Raw(Full::<N::Value>(sh, val).unwrap().sum()),
+            },
             spec => Raw(spec.unwrap().sum()),
         })
     }
-- 
2.43.0


From bd5839fcc6153732702df38d4de58f9065ab5345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 07/21] fix: a power of a homogeneous zero base is only zero
 for positive exponents

---
 aegir/src/ops/arithmetic/binary.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 20f1537..0d09f5b 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -111,7 +111,6 @@ where
             (b, Full(_, fx)) if fx == zero => Ok(Spec::ones(b.shape())),
 
             (Full(sx, fx), _) if fx == one => Ok(Full(sx, fx)),
-            (Full(sx, fx), _) if fx == zero => Ok(Full(sx, fx)),
 
             (b, e) => {
                 let e = e.unwrap();
-- 
2.43.0


From a2d471d42193ee8beecdfef9ff3e9c6b8bb87de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 08/21] fix: expressions containing constants can be
 differentiated more than once

---
 aegir/src/meta/constant.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/aegir/src/meta/constant.rs b/aegir/src/meta/constant.rs
index 85873ee..9b445c0 100644
--- a/aegir/src/meta/constant.rs
+++ b/aegir/src/meta/constant.rs
@@ -184,6 +184,23 @@ where
     }
 }
 
+impl<N, T, A> Differentiable<A> for ConstantAdjoint<N, T>
+where
+    N: Node,
+    A: Identifier,
+
+    Self: Clone,
+{
+    type Adjoint = ConstantAdjoint<Self, A>;
+
+    fn adjoint(&self, ident: A) -> Self::Adjoint {
+        ConstantAdjoint {
+            node: self.clone(),
+            target: ident,
+        }
+    }
+}
+
 impl<N: Node, T> ToExpr for ConstantAdjoint<N, T> {
     fn to_expr(&self) -> Expr { Expr::Zero }
 }
-- 
2.43.0


From 2d6bf3d09f10bef8df1b67cae46f32c00eaf76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:21 +0000
Subject: [PATCH 09/21] fix: a product with a homogeneous zero is zero for
 every representation of the other operand

---
 aegir/src/ops/arithmetic/binary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 0d09f5b..08f5180 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -501,9 +501,6 @@ where
         let y = self.1.evaluate_spec(ctx).map_err(BinaryError::Right)?;
 
         let z = match (x, y) {
-            // Simple performance case if both are Spec::Full:
-            (Full(sx, fx), Full(sy, fy)) => sx.broadcast(sy).map(|sz| Full(sz, fx * fy)),
-
             // Short-circuits when either value are known to be all-zeroes:
             (Full(sx, fx), y) if fx.is_zero() =>
                 sx.broadcast(y.shape()).map(|sz| Spec::zeroes(sz)),
@@ -511,6 +508,9 @@ where
             (x, Full(sy, fy)) if fy.is_zero() =>
                 x.shape().broadcast(sy).map(|sz| Spec::zeroes(sz)),
 
+            // Simple performance case if both are Spec::Full:
+            (Full(sx, fx), Full(sy, fy)) => sx.broadcast(sy).map(|sz| Full(sz, fx * fy)),
+
             // Short-circuits when either value is known to be all-ones:
             //  x * 1 = x
             (Raw(x), Full(sy, fy)) if fy.is_zero() => x.zip_shape(sy).map(Raw),
-- 
2.43.0


From 9169e0e8ff078dd51cc1524b573183c3b2bb9fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:59 +0000
Subject: [PATCH 10/21] fix: cached nodes are differentiable by any identifier
 their inner node is differentiable by

---
 aegir/src/meta/cached.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aegir/src/meta/cached.rs b/aegir/src/meta/cached.rs
index c64add8..39b414e 100644
--- a/aegir/src/meta/cached.rs
+++ b/aegir/src/meta/cached.rs
@@ -51,14 +51,15 @@ where
     }
 }
 
-impl<N, T> Differentiable<T> for Cached<N, T>
+impl<N, T, I> Differentiable<I> for Cached<N, T>
 where
-    N: Differentiable<T>,
+    N: Differentiable<I>,
     T: Identifier,
+    I: Identifier,
 {
     type Adjoint = N::Adjoint;
 
-    fn adjoint(&self, target: T) -> Self::Adjoint {
+    fn adjoint(&self, target: I) -> Self::Adjoint {
         // TODO - find a way to propagate the cached terms through the derivative.
         // This will require some kind of search in which find-and-replace all instances of
         // N in Self::Adjoint with Cached<N, T>.
-- 
2.43.0


From f9d9184d023ed5dea6e00bcfea19d0a1add23b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:40 +0000
Subject: [PATCH 11/21] fix: display AddOne, Sinh(1), ArcSin, DiGamma(1) and
 Erf as the formulas they are

---
 aegir/src/ops/arithmetic/unary.rs |  2 +-
 aegir/src/ops/special.rs          | 11 +++++++++--
 aegir/src/ops/trig.rs             |  4 ++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index 63ac831..d850f07 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -110,7 +110,7 @@ impl_unary!(
                 needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("1 - {}", pw.to_safe_string('(', ')')),
+                text: format!("{} + 1", pw.to_safe_string('(', ')')),
                 needs_wrap: true,
             })
         }
diff --git a/aegir/src/ops/special.rs b/aegir/src/ops/special.rs
index ac73dc2..42e4d1e 100644
--- a/aegir/src/ops/special.rs
+++ b/aegir/src/ops/special.rs
@@ -55,7 +55,10 @@ impl_unary!(
                 text: "\u{221E}".to_string(),
                 needs_wrap: false,
             }),
-            One => One,
+            One => Text(PreWrap {
+                text: "\u{03C8}(1)".to_string(),
+                needs_wrap: false,
+            }),
             Text(pw) => Text(PreWrap {
                 text: format!("\u{03C8}({})", pw),
                 needs_wrap: false,
@@ -137,7 +140,11 @@ impl_unary!(
         use crate::fmt::{PreWrap, Expr::*};
 
         match self.0.to_expr() {
-            Zero | One => One,
+            Zero => Zero,
+            One => Text(PreWrap {
+                text: "erf(1)".to_string(),
+                needs_wrap: false,
+            }),
             Text(pw) => Text(PreWrap {
                 text: format!("erf({})", pw),
                 needs_wrap: false,
diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index 9c1a41a..f46d6cf 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -133,7 +133,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Zero,
             One => Text(PreWrap {
-                text: "sin(1)".to_string(),
+                text: "sinh(1)".to_string(),
                 needs_wrap: false,
             }),
             Text(pw) => Text(PreWrap {
@@ -156,7 +156,7 @@ impl_unary!(
                 needs_wrap: false,
             }),
             Text(pw) => Text(PreWrap {
-                text: format!("acos({})", pw),
+                text: format!("asin({})", pw),
                 needs_wrap: false,
             })
         }
-- 
2.43.0


From fd4354e2b9859c6c518fd8f4d8fd2f39bea09764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:45 +0000
Subject: [PATCH 12/21] fix: display an expression known to be zero as 0
 instead of nothing

---
 aegir/src/fmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/fmt.rs b/aegir/src/fmt.rs
index 8ac57c5..88d707c 100644
--- a/aegir/src/fmt.rs
+++ b/aegir/src/fmt.rs
@@ -46,7 +46,7 @@ pub enum Expr {
 impl std::fmt::Display for Expr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-            Expr::Zero => Ok(()),
+            Expr::Zero => f.write_str("0"),
             Expr::One => f.write_str("1"),
             Expr::Text(pw) => f.write_str(&pw.text),
         }
-- 
2.43.0


From bec48a002d43390e71b005f1cccbcf661d79b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:42 +0000
Subject: [PATCH 13/21] fix: bracket displayed operands that bind less tightly
 than the operator around them

---
 aegir/src/meta/constant.rs         |  6 ++++--
 aegir/src/ops/arithmetic/binary.rs |  6 +++---
 aegir/src/ops/arithmetic/unary.rs  | 10 +++++-----
 aegir/src/ops/logarithmic.rs       |  4 ++--
 aegir/src/ops/trig.rs              |  8 ++++----
 5 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/aegir/src/meta/constant.rs b/aegir/src/meta/constant.rs
index 9b445c0..760cc32 100644
--- a/aegir/src/meta/constant.rs
+++ b/aegir/src/meta/constant.rs
@@ -101,9 +101,11 @@ where
 
 impl<B: Buffer + ToString> ToExpr for Constant<B> {
     fn to_expr(&self) -> Expr {
+        let text = self.0.to_string();
+
         Expr::Text(PreWrap {
-            text: self.0.to_string(),
-            needs_wrap: false,
+            needs_wrap: text.starts_with('-'),
+            text,
         })
     }
 }
diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 08f5180..592ac9b 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -159,7 +159,7 @@ impl<N: ToExpr, E: ToExpr> ToExpr for Power<N, E> {
             (l, One) => l,
             (Text(l), Text(r)) => Text(PreWrap {
                 text: format!("{}^{}", l.to_safe_string('(', ')'), r.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -412,13 +412,13 @@ impl<L: ToExpr, R: ToExpr> ToExpr for Sub<L, R> {
             (One, Zero) => One,
             (Zero, One) => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
 
             (Text(l), Zero) => Text(l),
             (Zero, Text(r)) => Text(PreWrap {
                 text: format!("-{}", r.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
 
             (Text(l), One) => Text(PreWrap {
diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index d850f07..315aafc 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -29,7 +29,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -149,7 +149,7 @@ impl_unary!(
             One => One,
             Text(pw) => Text(PreWrap {
                 text: format!("({})^2", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -191,7 +191,7 @@ impl_unary!(
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("2 \u{2218} {}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
@@ -297,11 +297,11 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "-1".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("-{}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             })
         }
     }
diff --git a/aegir/src/ops/logarithmic.rs b/aegir/src/ops/logarithmic.rs
index b89cdea..32b1766 100644
--- a/aegir/src/ops/logarithmic.rs
+++ b/aegir/src/ops/logarithmic.rs
@@ -26,7 +26,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "-\u{221E}".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -116,7 +116,7 @@ impl_unary!(
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("𝑒^{}", pw.to_safe_string('(', ')')),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
         }
     }
diff --git a/aegir/src/ops/trig.rs b/aegir/src/ops/trig.rs
index f46d6cf..dc8945e 100644
--- a/aegir/src/ops/trig.rs
+++ b/aegir/src/ops/trig.rs
@@ -64,7 +64,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -83,7 +83,7 @@ impl_unary!(
         match self.0.to_expr() {
             Zero => Text(PreWrap {
                 text: "\u{1D456}\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             One => Zero,
             Text(pw) => Text(PreWrap {
@@ -153,7 +153,7 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/2".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("asin({})", pw),
@@ -229,7 +229,7 @@ impl_unary!(
             Zero => Zero,
             One => Text(PreWrap {
                 text: "\u{03C0}/4".to_string(),
-                needs_wrap: false,
+                needs_wrap: true,
             }),
             Text(pw) => Text(PreWrap {
                 text: format!("atan({})", pw),
-- 
2.43.0


From c9185350915439c6c6a89623b2ee1c7a364dd2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:58 +0000
Subject: [PATCH 14/21] fix: display a power of zero without assuming that its
 exponent is positive

---
 aegir/src/ops/arithmetic/binary.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 592ac9b..2d81eb0 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -153,10 +153,13 @@ impl<N: ToExpr, E: ToExpr> ToExpr for Power<N, E> {
         use Expr::*;
 
         match (self.0.to_expr(), self.1.to_expr()) {
-            (Zero, _) => Zero,
             (_, Zero) => One,
             (One, _) => One,
             (l, One) => l,
+            (Zero, Text(r)) => Text(PreWrap {
+                text: format!("0^{}", r.to_safe_string('(', ')')),
+                needs_wrap: true,
+            }),
             (Text(l), Text(r)) => Text(PreWrap {
                 text: format!("{}^{}", l.to_safe_string('(', ')'), r.to_safe_string('(', ')')),
                 needs_wrap: true,
-- 
2.43.0


From c02d45f7adaf450e2593434395a0ddcf0d62e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 15/21] fix: report operands of different run-time lengths
 instead of panicking in Add, Sub and Mul

---
 aegir/src/ops/arithmetic/binary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aegir/src/ops/arithmetic/binary.rs b/aegir/src/ops/arithmetic/binary.rs
index 2d81eb0..6465b2e 100644
--- a/aegir/src/ops/arithmetic/binary.rs
+++ b/aegir/src/ops/arithmetic/binary.rs
@@ -241,7 +241,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi + yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi + yi).map(Raw)
             },
         };
 
@@ -373,7 +373,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi - yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi - yi).map(Raw)
             },
         };
 
@@ -527,7 +527,7 @@ where
                 let x = x.unwrap();
                 let y = y.unwrap();
 
-                Ok(Raw(x.zip_map_id(&y, |xi, yi| xi * yi).unwrap()))
+                x.zip_map_id(&y, |xi, yi| xi * yi).map(Raw)
             },
         };
 
-- 
2.43.0


From 10e48709c4ed2d4dff66dac9bc3b83927fcf6a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 16/21] fix: display symbols of identifiers verbatim, braces
 included

---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index 906776b..c41593e 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -38,7 +38,7 @@ impl DataIdentifier {
         syn::parse2(quote! {
             impl std::fmt::Display for #type_id {
                 fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-                    write!(f, #symbol)
+                    f.write_str(#symbol)
                 }
             }
         })
-- 
2.43.0


From 823b962f48eb0e7e6fdcde1384d74794ab0ebc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 17/21] fix: an identifier without a symbol displays its own
 name

---
 aegir_derive/src/ids.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir_derive/src/ids.rs b/aegir_derive/src/ids.rs
index c41593e..709a7eb 100644
--- a/aegir_derive/src/ids.rs
+++ b/aegir_derive/src/ids.rs
@@ -32,7 +32,7 @@ impl DataIdentifier {
 
     pub fn impl_display(&self) -> syn::ItemImpl {
         let type_id = &self.type_id;
-        let type_str = syn::LitStr::new(stringify!(type_id), type_id.span());
+        let type_str = syn::LitStr::new(&type_id.to_string(), type_id.span());
         let symbol = self.symbol.as_ref().unwrap_or(&type_str);
 
         syn::parse2(quote! {
-- 
2.43.0


From 945722311847648e7f18bb05da0996e24e8675e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 18/21] fix: Sigma, Tau and Upsilon display their own letters

---
 aegir/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/lib.rs b/aegir/src/lib.rs
index 3eba3b2..f872832 100644
--- a/aegir/src/lib.rs
+++ b/aegir/src/lib.rs
@@ -73,7 +73,7 @@ pub mod ids {
         Epsilon::"\u{03B5}", Zeta::"\u{03B6}", Eta::"\u{03B7}", Theta::"\u{03B8}",
         Iota::"\u{03B9}", Kappa::"\u{03BA}", Lambda::"\u{03BB}", Mu::"\u{03BC}",
         Nu::"\u{03BD}", Xi::"\u{03BE}", Omicron::"\u{03BF}", Pi::"\u{03C0}",
-        Rho::"\u{03C1}", Sigma::"\u{03C2}", Tau::"\u{03C3}", Upsilon::"\u{03C4}",
+        Rho::"\u{03C1}", Sigma::"\u{03C3}", Tau::"\u{03C4}", Upsilon::"\u{03C5}",
         Phi::"\u{03C6}", Chi::"\u{03C7}", Psi::"\u{03C8}", Omega::"\u{03C9}"
     );
 }
-- 
2.43.0


From 6aef53076813e05303f0994e6f80318abb63e40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 19/21] fix: accept cache fields of any buffer type and any
 path to Option in derive(Context)

---
 aegir_derive/src/ctx/derive.rs | 36 +++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/aegir_derive/src/ctx/derive.rs b/aegir_derive/src/ctx/derive.rs
index 66c2285..49cb90a 100644
--- a/aegir_derive/src/ctx/derive.rs
+++ b/aegir_derive/src/ctx/derive.rs
@@ -128,30 +128,22 @@ impl std::fmt::Debug for CtxFieldError {
 }
 
 fn parse_ty_cache(ty: &syn::Type) -> Result<syn::Type, CtxFieldError> {
-    if let syn::Type::Path(tp) = ty {
-        tp.path.segments
-            .first()
+    match ty {
+        // Types captured by a `macro_rules!` fragment are wrapped in a group:
+        syn::Type::Group(tg) => parse_ty_cache(&tg.elem),
+        syn::Type::Path(tp) => tp.path.segments
+            .last()
             .filter(|outer_ty| outer_ty.ident == "Option")
-            .and_then(|outer_ty| {
-                use syn::PathArguments::AngleBracketed;
-
-                if let AngleBracketed(ab) = &outer_ty.arguments {
-                    let ab_args = &ab.args;
-
-                    Some(syn::Type::Path(syn::TypePath {
-                        qself: tp.qself.clone(),
-                        path: syn::Path {
-                            leading_colon: tp.path.leading_colon.clone(),
-                            segments: parse_quote! { #ab_args },
-                        },
-                    }))
-                } else {
-                    None
-                }
+            .and_then(|outer_ty| match &outer_ty.arguments {
+                syn::PathArguments::AngleBracketed(ab) => ab.args.first(),
+                _ => None,
             })
-            .ok_or(CtxFieldError::ImproperCacheType)
-    } else {
-        Err(CtxFieldError::ImproperCacheType)
+            .and_then(|arg| match arg {
+                syn::GenericArgument::Type(buffer_ty) => Some(buffer_ty.to_owned()),
+                _ => None,
+            })
+            .ok_or(CtxFieldError::ImproperCacheType),
+        _ => Err(CtxFieldError::ImproperCacheType),
     }
 }
 
-- 
2.43.0


From 6ffe655628ab417f568bc07ebc9c78b6a3d8f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 20/21] fix: squares of small single-precision values are
 infinite

powf is resolved to the one of the library behind the special functions,
whose powers with an integral exponent overflow where they should
underflow: Square of 3.75e-21f32 was inf in unoptimised builds.
---
 aegir/src/ops/arithmetic/unary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aegir/src/ops/arithmetic/unary.rs b/aegir/src/ops/arithmetic/unary.rs
index 315aafc..b4b9c57 100644
--- a/aegir/src/ops/arithmetic/unary.rs
+++ b/aegir/src/ops/arithmetic/unary.rs
@@ -141,7 +141,7 @@ impl_unary!(
     /// assert_eq!(f.evaluate_dual(X, ctx!{X = 1.0}).unwrap(), dual!(1.0, 2.0));
     /// assert_eq!(f.evaluate_dual(X, ctx!{X = 2.0}).unwrap(), dual!(4.0, 4.0));
     /// ```
-    Square<F: num_traits::Pow<F, Output = F>>, |x| { x.pow(F::one() + F::one()) }, |self| {
+    Square<F: num_traits::Pow<F, Output = F>>, |x| { x * x }, |self| {
         use crate::fmt::{PreWrap, Expr::*};
 
         match self.0.to_expr() {
-- 
2.43.0


From 9ec13ea6b0fdc72a481a015e2b456c1eb2888e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 21/21] fix: the cardinality of an empty shape with very large
 axes overflows

---
 aegir/src/buffers/shapes/compiled.rs | 3 ++-
 aegir/src/buffers/shapes/runtime.rs  | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/aegir/src/buffers/shapes/compiled.rs b/aegir/src/buffers/shapes/compiled.rs
index 42fd7fe..0904c0b 100644
--- a/aegir/src/buffers/shapes/compiled.rs
+++ b/aegir/src/buffers/shapes/compiled.rs
@@ -94,7 +94,8 @@ macro_rules! impl_fixed {
             }
 
             fn cardinality(&self) -> usize {
-                IntoIterator::into_iter([$($tp),+]).product()
+                // An empty axis makes the shape empty, however large the product of the others.
+                if [$($tp),+].contains(&0) { 0 } else { [$($tp),+].iter().product() }
             }
 
             fn indices(&self) -> Self::IndexIter {
diff --git a/aegir/src/buffers/shapes/runtime.rs b/aegir/src/buffers/shapes/runtime.rs
index d76778c..ac16b1e 100644
--- a/aegir/src/buffers/shapes/runtime.rs
+++ b/aegir/src/buffers/shapes/runtime.rs
@@ -25,7 +25,10 @@ impl<const DIM: usize> Shape for SDynamic<DIM> {
         ix.iter().zip(self.0.iter()).all(|(l, r)| l < r)
     }
 
-    fn cardinality(&self) -> usize { self.0.iter().product() }
+    fn cardinality(&self) -> usize {
+        // An empty axis makes the shape empty, however large the product of the others.
+        if self.0.contains(&0) { 0 } else { self.0.iter().product() }
+    }
 
     fn indices(&self) -> Self::IndexIter { multi_product::MultiProduct::new(self.0) }
 }
-- 
2.43.0

