From 2b690eb3ebdf1c7eda94eb04b58beb89132aae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 01/10] fix: accumulate reverse-mode seeds of repeated
 dependents

---
 src/tape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tape.rs b/src/tape.rs
index 1ca4cb9..f2e06f2 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -93,7 +93,7 @@ pub trait Tape: Send + Sync + fmt::Debug {
         let v = self.values();
         let mut vbar = vec![0.0; v.len()];
         for (idx, vid) in self.deps().iter().enumerate() {
-            vbar[*vid] = ybar[idx];
+            vbar[*vid] += ybar[idx];
         }
         for op in self.ops_iter().rev() {
             op.first_order_reverse(v, &mut vbar);
-- 
2.43.0


From 79bd0ba92fa9caec63b5ff17a14fcf5672ed4fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 02/10] fix: build the unit vector of abs-normal column() as a
 column

---
 src/drivers/abs_normal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drivers/abs_normal.rs b/src/drivers/abs_normal.rs
index afc34b4..806792e 100644
--- a/src/drivers/abs_normal.rs
+++ b/src/drivers/abs_normal.rs
@@ -220,8 +220,8 @@ macro_rules! anf_matrix {
             }
 
             pub fn column(&self, i: usize) -> DMatrix<f64> {
-                let mut ind = DMatrix::zeros(1, self.num_indeps());
-                ind[i] = 1.0;
+                let mut ind = DMatrix::zeros(self.num_indeps(), 1);
+                ind[(i, 0)] = 1.0;
                 self.mul_right(&ind)
             }
         }
-- 
2.43.0


From 5a1c28e907f2f40f6e2f86728194b2dcbf985d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 03/10] fix: default checkpoint count of
 generalized_jacobian_chain for a single link

---
 src/drivers/generalized_jacobian.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drivers/generalized_jacobian.rs b/src/drivers/generalized_jacobian.rs
index e5f4d1c..388d8e3 100644
--- a/src/drivers/generalized_jacobian.rs
+++ b/src/drivers/generalized_jacobian.rs
@@ -152,7 +152,8 @@ pub fn generalized_jacobian_chain(
     dx: DVector<f64>,
     ncheckpoints: Option<usize>,
 ) -> GeneralizedJacobian {
-    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len());
+    // reverse_sequence needs at least two checkpoints
+    let ncheckpoints = ncheckpoints.unwrap_or_else(|| chain.len().max(2));
     reverse_sequence(
         (0, x, dx),
         chain.len(),
-- 
2.43.0


From 95d6f50f6868f68e69c1f693b70cafc2f0e3a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 04/10] fix: convert AFloat to primitive floats and wide
 integers without truncation

---
 src/afloat.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index 46f5c3f..0c47f21 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -205,6 +205,22 @@ impl<S: Float> ToPrimitive for AFloat<S> {
     fn to_u64(&self) -> Option<u64> {
         self.v.to_u64()
     }
+
+    fn to_i128(&self) -> Option<i128> {
+        self.v.to_i128()
+    }
+
+    fn to_u128(&self) -> Option<u128> {
+        self.v.to_u128()
+    }
+
+    fn to_f32(&self) -> Option<f32> {
+        self.v.to_f32()
+    }
+
+    fn to_f64(&self) -> Option<f64> {
+        self.v.to_f64()
+    }
 }
 
 impl<S: Float> NumCast for AFloat<S> {
-- 
2.43.0


From da69190d3df24690837ff89397c460951a5e693f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 05/10] fix: AFloat epsilon is that of the underlying type

---
 src/afloat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/afloat.rs b/src/afloat.rs
index 0c47f21..079051d 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -308,6 +308,7 @@ impl<S: Float> Float for AFloat<S> {
     float_constant!(min_value);
     float_constant!(min_positive_value);
     float_constant!(max_value);
+    float_constant!(epsilon);
 
     float_passthrough!(bool, is_nan);
     float_passthrough!(bool, is_infinite);
-- 
2.43.0


From 9eea25121afe968748a826631bb204df0febcd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 06/10] fix: C++ operators with a double on the left use the
 named operation

---
 src/cxx/ADouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index aa94070..28cd2aa 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -77,7 +77,7 @@ const void* ADouble::get_impl() const
 	ADouble operator OP(double lhs_, const ADouble& rhs) \
 	{ \
 		auto lhs = ADouble(lhs_); \
-		return lhs + rhs; \
+		return lhs OP rhs; \
 	}
 BINARY_OP_IMPL(add, +)
 BINARY_OP_IMPL(sub, -)
-- 
2.43.0


From 262753ce1e5794fca71b0dc3c81824be6ee651db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 07/10] fix: self-assignment of ADouble copied a freed variable

---
 src/cxx/ADouble.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxx/ADouble.cpp b/src/cxx/ADouble.cpp
index 28cd2aa..04fb48b 100644
--- a/src/cxx/ADouble.cpp
+++ b/src/cxx/ADouble.cpp
@@ -56,8 +56,9 @@ ADouble& ADouble::operator=(ADouble&& other)
 
 ADouble& ADouble::operator=(const ADouble& other)
 {
+	auto val = ::adv_adouble_copy(other.m_impl->val);
 	::adv_adouble_free(m_impl->val);
-	m_impl->val = ::adv_adouble_copy(other.m_impl->val);
+	m_impl->val = val;
 	return *this;
 }
 
-- 
2.43.0


From f6d247b556068956ebfa6ea640b60e18f0e5966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 08/10] fix: abs_sub is the positive difference

---
 src/afloat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/afloat.rs b/src/afloat.rs
index 079051d..9fba959 100644
--- a/src/afloat.rs
+++ b/src/afloat.rs
@@ -387,7 +387,8 @@ impl<S: Float> Float for AFloat<S> {
     }
 
     fn abs_sub(self, other: Self) -> Self {
-        (self - other).abs()
+        let diff = self - other;
+        <Self as NumCast>::from(0.5).unwrap() * (diff + diff.abs())
     }
 
     fn cbrt(self) -> Self {
-- 
2.43.0


From b623e9aa309c948316fe18f1b209cdc961c227ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 09/10] fix: derivative of x^0 with respect to x is zero, also
 at x = 0

---
 src/operation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operation.rs b/src/operation.rs
index 79f6929..4bed900 100644
--- a/src/operation.rs
+++ b/src/operation.rs
@@ -68,7 +68,7 @@ pub(crate) fn first_order_value<S: Float>(
             let dx = darg1;
             let dy = darg2.unwrap();
 
-            let rv1 = if dx != S::zero() {
+            let rv1 = if dx != S::zero() && y != S::zero() {
                 y * x.powf(y - S::one()) * dx
             } else {
                 S::zero()
@@ -318,7 +318,9 @@ impl Operation {
                 // vbar_k += vbar_i * ∂v_i/∂v_k = vbar_i * v_j.ln() * v_j.powf(v_k)
                 let x = v[self.arg1.unwrap()];
                 let y = v[self.arg2.unwrap()];
-                vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
+                if y != 0.0 {
+                    vbar[self.arg1.unwrap()] += vbar[self.vid] * y * x.powf(y - 1.0);
+                }
                 vbar[self.arg2.unwrap()] += vbar[self.vid] * x.ln() * x.powf(y);
             }
             OpCode::Abs => {
-- 
2.43.0


From f3945dfca794e548826de99cbea4f310a6a3bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 10/10] fix: take all parts of a tape under one lock

---
 src/acontext.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/acontext.rs b/src/acontext.rs
index 19b8d3d..bb0771c 100644
--- a/src/acontext.rs
+++ b/src/acontext.rs
@@ -189,11 +189,13 @@ impl AContext {
 
     /// Get a tape
     pub fn tape(&self) -> impl Tape + Clone {
+        // One snapshot: Other threads may be recording
+        let inner = self.inner.lock().unwrap();
         AContextTape {
-            indeps: self.indeps(),
-            deps: self.deps(),
-            ops: self.operations(),
-            vals: self.values(),
+            indeps: inner.indeps.clone(),
+            deps: inner.deps.clone(),
+            ops: inner.ops.clone(),
+            vals: inner.vals.clone(),
         }
     }
 }
-- 
2.43.0

