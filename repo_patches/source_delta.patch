From 4704cf16379d5a6bd270309f386630895b51eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 1/7] fix: UnionFind::join links and sizes the representatives,
 not the elements passed in

---
 src/data_structure/union_find.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_structure/union_find.rs b/src/data_structure/union_find.rs
index cfbf111..d141902 100644
--- a/src/data_structure/union_find.rs
+++ b/src/data_structure/union_find.rs
@@ -35,11 +35,11 @@ impl UnionFind {
         if fx == fy {
             return false;
         }
-        if self.sz[x] > self.sz[y] {
+        if self.sz[fx] > self.sz[fy] {
             std::mem::swap(&mut fx, &mut fy);
         }
-        self.fa[x] = y;
-        self.sz[y] += self.sz[x];
+        self.fa[fx] = fy;
+        self.sz[fy] += self.sz[fx];
         true
     }
 
-- 
2.43.0


From 7410b3afd4bc3cd3d3776c406adeb6c7ab9a92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 2/7] fix: FenwickTree::partition_point and search on an empty
 tree return 0

---
 src/data_structure/fenwick_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_structure/fenwick_tree.rs b/src/data_structure/fenwick_tree.rs
index 607548c..9e71b34 100644
--- a/src/data_structure/fenwick_tree.rs
+++ b/src/data_structure/fenwick_tree.rs
@@ -100,7 +100,7 @@ where
     {
         let mut pos = 0;
         let mut sum: T = Default::default();
-        for i in (0..=(usize::BITS - 1 - self.n.leading_zeros())).rev() {
+        for i in (0..(usize::BITS - self.n.leading_zeros())).rev() {
             let next = pos + (1 << i);
             if next <= self.n && pred(&(sum.clone() + self.ary[next - 1].clone())) {
                 sum += self.ary[next - 1].clone();
-- 
2.43.0


From cb0ba974218683451858585c40cdc5f028614efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 3/7] fix: pow and product stay in range when the modulus is 1

---
 src/misc/modint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/misc/modint.rs b/src/misc/modint.rs
index 1ddf641..74a19e3 100644
--- a/src/misc/modint.rs
+++ b/src/misc/modint.rs
@@ -674,7 +674,7 @@ pub trait ModIntBase:
     #[inline]
     fn pow(self, mut n: u64) -> Self {
         let mut x = self;
-        let mut r = Self::raw(1);
+        let mut r = Self::new(1u32);
         while n > 0 {
             if n & 1 == 1 {
                 r *= x;
@@ -1044,9 +1044,9 @@ macro_rules! impl_folding {
 
 impl_folding! {
     impl<M: Modulus> Sum<_>     for StaticModInt<M>  { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<M: Modulus> Product<_> for StaticModInt<M>  { fn product(_) -> _ { _(Self::new(1u32), Mul::mul) } }
     impl<I: Id     > Sum<_>     for DynamicModInt<I> { fn sum(_)     -> _ { _(Self::raw(0), Add::add) } }
-    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::raw(1), Mul::mul) } }
+    impl<I: Id     > Product<_> for DynamicModInt<I> { fn product(_) -> _ { _(Self::new(1u32), Mul::mul) } }
 }
 
 #[cfg(test)]
-- 
2.43.0


From c0f6229ebe2355627f7457cc349703c9c0e96874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 4/7] fix: concurrent set_modulus calls leave modulus and
 reciprocal from the same call

---
 src/misc/modint.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/misc/modint.rs b/src/misc/modint.rs
index 74a19e3..625c434 100644
--- a/src/misc/modint.rs
+++ b/src/misc/modint.rs
@@ -59,7 +59,10 @@ use std::{
     marker::PhantomData,
     ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign},
     str::FromStr,
-    sync::atomic::{self, AtomicU32, AtomicU64},
+    sync::{
+        atomic::{self, AtomicU32, AtomicU64},
+        Mutex,
+    },
     thread::LocalKey,
 };
 
@@ -461,6 +464,8 @@ impl Id for DefaultId {
 pub struct Barrett {
     m: AtomicU32,
     im: AtomicU64,
+    /// Held while `m` and `im` are replaced, so that they always come from the same call.
+    updating: Mutex<()>,
 }
 
 impl Barrett {
@@ -470,6 +475,7 @@ impl Barrett {
         Self {
             m: AtomicU32::new(m),
             im: AtomicU64::new((-1i64 as u64 / m as u64).wrapping_add(1)),
+            updating: Mutex::new(()),
         }
     }
 
@@ -481,6 +487,7 @@ impl Barrett {
     #[inline]
     fn update(&self, m: u32) {
         let im = (-1i64 as u64 / m as u64).wrapping_add(1);
+        let _updating = self.updating.lock().unwrap_or_else(|e| e.into_inner());
         self.m.store(m, atomic::Ordering::SeqCst);
         self.im.store(im, atomic::Ordering::SeqCst);
     }
-- 
2.43.0


From 62ad5e9793122d8959ba22aff787677aa75dac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 5/7] fix: lcm overflowed although the multiple fits the type

---
 src/math/number_theory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index 6beb0ce..ad2d918 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -10,7 +10,7 @@ pub fn gcd<T: Integral>(mut a: T, mut b: T) -> T {
 }
 
 pub fn lcm<T: Integral>(a: T, b: T) -> T {
-    a * b / gcd(a, b)
+    a / gcd(a, b) * b
 }
 
 /// returns a solution (x, y, g) to `a * x + b * y = gcd(a, b) = g`
-- 
2.43.0


From c4816f8a337069ae68e144e6fcb9fc3ed3e232a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 6/7] fix: ex_crt returned a negative solution and period for
 negative coefficients

---
 src/math/number_theory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/number_theory.rs b/src/math/number_theory.rs
index ad2d918..d79d84f 100644
--- a/src/math/number_theory.rs
+++ b/src/math/number_theory.rs
@@ -32,7 +32,7 @@ pub fn ex_crt(a: &Vec<i64>, b: &Vec<i64>, m: &Vec<i64>) -> Option<(i64, i64)> {
     let n = a.len();
     let (mut x, mut lcm) = (0i64, 1i64);
     for i in 0..n {
-        let (a_, mut b_, mut m_) = (a[i] * lcm, b[i] - a[i] * x, m[i]);
+        let (a_, mut b_, mut m_) = ((a[i] * lcm).rem_euclid(m[i]), b[i] - a[i] * x, m[i]);
         let (y, _, g) = ex_gcd(a_, m_);
         if b_ % g != 0 {
             return None;
-- 
2.43.0


From bffbc6ab7f859fcc25961cdeae2d434b975ad643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 7/7] fix: let de!() compile without debug assertions

---
 src/misc/debug.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/misc/debug.rs b/src/misc/debug.rs
index a793711..17ebe50 100644
--- a/src/misc/debug.rs
+++ b/src/misc/debug.rs
@@ -26,5 +26,6 @@ macro_rules! de {
 #[cfg(not(debug_assertions))]
 #[macro_export]
 macro_rules! de {
+    () => { };
     ($($val:expr),+ $(,)?) => { };
 }
-- 
2.43.0

