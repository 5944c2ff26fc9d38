From 289bf42b6d42bc1557cfa856306b698b9b03f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 01/18] fix: unknown edge ids return an error instead of
 panicking in debug builds

---
 workspace/boostvoronoi_core/src/diagram.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index 081fc40..f5ae6dc 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -1084,16 +1084,7 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     pub(crate) fn edge_get_(&self, edge_id: Option<EdgeIndex>) -> Option<&EdgeType> {
-        let rv = self.edges_.get(edge_id?.0);
-        debug_assert!({
-            if rv.is_none() {
-                dbg!(edge_id.unwrap().0);
-                // todo: remove this panic and raise error?
-                panic!();
-            };
-            true
-        });
-        rv
+        self.edges_.get(edge_id?.0)
     }
 
     /// Overwrites the content of dest with the content of source.
-- 
2.43.0


From aaaa4631284a2e4b7db88d6ed4610e3156e3e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 02/18] fix: edge and vertex accessors report an id that does
 not exist

---
 workspace/boostvoronoi_core/src/diagram.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index f5ae6dc..4b62839 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -1045,6 +1045,7 @@ impl<F: OutputType> Diagram<F> {
         vertex_id: VertexIndex,
         color: ColorType,
     ) -> Result<(), BvError> {
+        let _ = self.vertex_get(vertex_id)?;
         self.vertex_set_color_(Some(vertex_id), color);
         Ok(())
     }
@@ -1129,8 +1130,8 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     /// Sets the color field with new value
-    // todo: raise proper error when id not found
     pub fn edge_set_color(&self, edge_id: EdgeIndex, color: ColorType) -> Result<(), BvError> {
+        let _ = self.get_edge(edge_id)?;
         self.edge_set_color_(Some(edge_id), color);
         Ok(())
     }
@@ -1150,8 +1151,8 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     /// OR the previous color field value with this new color value
-    // Todo: add error on edge index problems
     pub fn edge_or_color(&self, edge_id: EdgeIndex, color: ColorType) -> Result<(), BvError> {
+        let _ = self.get_edge(edge_id)?;
         self.edge_or_color_(Some(edge_id), color);
         Ok(())
     }
@@ -1238,7 +1239,7 @@ impl<F: OutputType> Diagram<F> {
     /// Returns false if the edge is infinite (ray, line).
     #[inline]
     pub(crate) fn edge_is_finite_(&self, edge_id: Option<EdgeIndex>) -> Option<bool> {
-        let _ = edge_id?;
+        let _ = self.edge_get_(edge_id)?;
         Some(self.edge_get_vertex0_(edge_id).is_some() && self.edge_get_vertex1_(edge_id).is_some())
     }
 
@@ -1337,8 +1338,8 @@ impl<F: OutputType> Diagram<F> {
     }
 
     #[inline]
-    // todo: add error when edge is not found
     pub fn edge_get_vertex0(&self, edge_id: EdgeIndex) -> Result<Option<VertexIndex>, BvError> {
+        let _ = self.get_edge(edge_id)?;
         Ok(self.edge_get_vertex0_(Some(edge_id)))
     }
 
@@ -1350,8 +1351,8 @@ impl<F: OutputType> Diagram<F> {
     }
 
     #[inline]
-    // todo: add error when edge is not found
     pub fn edge_get_vertex1(&self, edge_id: EdgeIndex) -> Result<Option<VertexIndex>, BvError> {
+        let _ = self.get_edge(edge_id)?;
         Ok(self.edge_get_vertex1_(Some(edge_id)))
     }
 
-- 
2.43.0


From f5868d5232d65df1abb313c80fce43c79bd4cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 03/18] fix: errors from beach-line insertion are propagated

---
 workspace/boostvoronoi_core/src/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/builder.rs b/workspace/boostvoronoi_core/src/builder.rs
index 31647c1..69ab862 100644
--- a/workspace/boostvoronoi_core/src/builder.rs
+++ b/workspace/boostvoronoi_core/src/builder.rs
@@ -310,7 +310,7 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
             second,
             self.beach_line_.last_position()?,
             output,
-        );
+        )?;
 
         // The second site was already processed. Move the iterator.
         *site_event_iterator_ += 1;
@@ -342,13 +342,13 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
                 new_node_key,
                 VB::BeachLineNodeData::new_1(edge),
                 &self.circle_events_,
-            );
+            )?;
             #[cfg(not(feature = "console_debug"))]
             let _ = self.beach_line_.insert(
                 self.beach_line_.last_position()?,
                 new_node_key,
                 Some(VB::BeachLineNodeData::new_1(edge)),
-            );
+            )?;
             // Update iterators.
             it_first += 1;
             it_second += 1;
@@ -869,7 +869,7 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
             position,
             new_right_node,
             Some(VB::BeachLineNodeData::new_1(edges.1)),
-        );
+        )?;
         #[cfg(feature = "console_debug")]
         let _ = self.beach_line_.insert(
             position,
-- 
2.43.0


From 6e6eb3acc484833821675cb4fc4dc853c0d5f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 04/18] fix: building a diagram no longer prints to the console

---
 workspace/boostvoronoi_core/src/beach_line.rs | 1 -
 workspace/boostvoronoi_core/src/builder.rs    | 1 -
 2 files changed, 2 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/beach_line.rs b/workspace/boostvoronoi_core/src/beach_line.rs
index f4f6183..d351eab 100644
--- a/workspace/boostvoronoi_core/src/beach_line.rs
+++ b/workspace/boostvoronoi_core/src/beach_line.rs
@@ -220,7 +220,6 @@ impl<I: InputType, F: OutputType> BeachLine<I, F> {
         let node = bl_borrow.get(beachline_index.0);
 
         if node.is_err() {
-            eprintln!("Failed to retrieve beach line key : {}", beachline_index.0);
             //panic!();
             return Err(BvError::InternalError(format!(
                 "Tried to retrieve a beach line node that doesn't exist. Id:{}. {}:{}",
diff --git a/workspace/boostvoronoi_core/src/builder.rs b/workspace/boostvoronoi_core/src/builder.rs
index 69ab862..7aa151a 100644
--- a/workspace/boostvoronoi_core/src/builder.rs
+++ b/workspace/boostvoronoi_core/src/builder.rs
@@ -767,7 +767,6 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
         // Remove the (B, C) bisector node from the beach line.
         if it_first.current() == it_last.current() {
             // todo: is this correct?
-            println!("------- it_first.next()?");
             it_first.next()?;
         }
         #[cfg(feature = "console_debug")]
-- 
2.43.0


From 6db2c7ff61c6fe7832f0674fc9646ca6fe31020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 05/18] fix: RobustDif::from(f64) of a negative number holds
 its magnitude

The sums of a RobustDif are non-negative and its value is their difference,
but a negative number was stored unnegated in the negative sum and so turned
positive.
---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index b96162c..4c5d72c 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -454,7 +454,7 @@ impl From<f64> for RobustDif {
         } else {
             Self {
                 positive_sum_: RobustFpt::default(),
-                negative_sum_: RobustFpt::from(value),
+                negative_sum_: RobustFpt::from(-value),
             }
         }
     }
-- 
2.43.0


From ee75ce37925d58b0a1512fc8763297e738cb7e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 06/18] fix: RobustDif times a negative f64 has the right sign

The sums were swapped and also multiplied by the negative factor, which
cancels. Use the product with a RobustFpt, which negates the factor.
---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index 4c5d72c..8b5bd04 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -634,18 +634,7 @@ impl ops::Mul<f64> for RobustDif {
     type Output = RobustDif;
 
     fn mul(self, rhs_: f64) -> Self {
-        let rhs = RobustFpt::from(rhs_);
-        if is_pos_f(rhs_) {
-            Self {
-                positive_sum_: self.positive_sum_ * rhs,
-                negative_sum_: self.negative_sum_ * rhs,
-            }
-        } else {
-            Self {
-                positive_sum_: self.negative_sum_ * rhs,
-                negative_sum_: self.positive_sum_ * rhs,
-            }
-        }
+        self * RobustFpt::from(rhs_)
     }
 }
 
-- 
2.43.0


From 45c45d7d5b7a1c5b9068e89bcb7c390df073b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 07/18] fix: product of two RobustDif is the product of their
 values

(p - n) * (q - m) is (p*q + n*m) - (p*m + n*q), as in C++ boost, not
p*q - n*m.
---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index 8b5bd04..3a68c0e 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -624,8 +624,10 @@ impl ops::Mul<RobustDif> for RobustDif {
 
     fn mul(self, rhs: RobustDif) -> Self {
         Self {
-            positive_sum_: self.positive_sum_ * rhs.positive_sum_,
-            negative_sum_: self.negative_sum_ * rhs.negative_sum_,
+            positive_sum_: self.positive_sum_ * rhs.positive_sum_
+                + self.negative_sum_ * rhs.negative_sum_,
+            negative_sum_: self.positive_sum_ * rhs.negative_sum_
+                + self.negative_sum_ * rhs.positive_sum_,
         }
     }
 }
@@ -681,8 +683,7 @@ impl ops::MulAssign<RobustFpt> for RobustDif {
 
 impl ops::MulAssign<RobustDif> for RobustDif {
     fn mul_assign(&mut self, rhs: RobustDif) {
-        self.positive_sum_ = self.positive_sum_ * rhs.positive_sum_;
-        self.negative_sum_ = self.negative_sum_ * rhs.negative_sum_;
+        *self = *self * rhs;
     }
 }
 
-- 
2.43.0


From 2b3bfa06784f0fe3742517ca2ed902f2e291c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 08/18] fix: RobustDif divided by a negative number keeps its
 sums non-negative

As in C++ boost, swap the sums and divide by the magnitude. The error bound
of later sums relies on the sign of the summands.
---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index 3a68c0e..8f6fbc0 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -697,7 +697,11 @@ impl fmt::Debug for RobustDif {
 }
 
 impl ops::DivAssign<RobustFpt> for RobustDif {
-    fn div_assign(&mut self, rhs: RobustFpt) {
+    fn div_assign(&mut self, mut rhs: RobustFpt) {
+        if rhs.is_neg() {
+            rhs = -rhs;
+            self.swap();
+        }
         self.positive_sum_ /= rhs;
         self.negative_sum_ /= rhs;
     }
-- 
2.43.0


From 4fb3a81bbf5b6fec608605aedec915543045a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 09/18] fix: a zero with a large exponent does not swallow the
 other operand

---
 workspace/boostvoronoi_ext/src/extended_exp_fpt.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
index 3e29d9e..e0726a8 100644
--- a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
@@ -273,12 +273,16 @@ impl ops::Add for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(c.d(), 3000000000_f64);
     /// ```
     fn add(self, that: Self) -> Self {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+        if self.val_ == 0.0 {
             return that;
         }
+        // the exponent of a zero says nothing about its size
         if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
             return self;
         }
+        if that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+            return that;
+        }
         if self.exp_ >= that.exp_ {
             let exp_dif = self.exp_ - that.exp_;
             let val = libm::ldexp(self.val_, exp_dif) + that.val_;
@@ -313,12 +317,16 @@ impl ops::Sub for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(c.d(), 1000000000_f64-(-3000000000.0));
     /// ```
     fn sub(self, that: Self) -> Self {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+        if self.val_ == 0.0 {
             return Self::new(-that.val_, that.exp_);
         }
+        // the exponent of a zero says nothing about its size
         if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
             return self;
         }
+        if that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
+            return Self::new(-that.val_, that.exp_);
+        }
         if self.exp_ >= that.exp_ {
             let exp_dif = self.exp_ - that.exp_;
             let val = libm::ldexp(self.val_, exp_dif) - that.val_;
-- 
2.43.0


From 37f158c55d6b9597fe8a7a2841a70da68c5ba155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 10/18] fix: in-place operators of ExtendedExponentFpt give the
 value of the binary ones

---
 .../boostvoronoi_ext/src/extended_exp_fpt.rs  | 45 ++-----------------
 1 file changed, 4 insertions(+), 41 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
index e0726a8..fd39122 100644
--- a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
@@ -462,25 +462,7 @@ impl ops::AddAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 3000000000_f64);
     /// ```
     fn add_assign(&mut self, that: Self) {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            self.val_ = that.val_;
-            self.exp_ = that.exp_;
-        }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            // do nothing
-            return;
-        }
-        if self.exp_ >= that.exp_ {
-            let exp_dif = self.exp_ - that.exp_;
-            let val = libm::ldexp(self.val_, exp_dif) + that.val_;
-            self.val_ = val;
-            self.exp_ = that.exp_;
-        } else {
-            let exp_dif = that.exp_ - self.exp_;
-            let val = libm::ldexp(that.val_, exp_dif) + self.val_;
-            self.val_ = val;
-            //self.exp_ = self.exp;
-        }
+        *self = *self + that;
     }
 }
 
@@ -505,24 +487,7 @@ impl ops::SubAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 1000000000_f64-(-3000000000.0));
     /// ```
     fn sub_assign(&mut self, that: Self) {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            self.val_ = -that.val_;
-            self.exp_ = that.exp_;
-        }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            return;
-        }
-        if self.exp_ >= that.exp_ {
-            let exp_dif = self.exp_ - that.exp_;
-            let val = libm::ldexp(self.val_, exp_dif) - that.val_;
-            self.val_ = val;
-            self.exp_ = that.exp_;
-        } else {
-            let exp_dif = that.exp_ - self.exp_;
-            let val = libm::ldexp(-that.val_, exp_dif) + self.val_;
-            self.val_ = val;
-            //self.exp_ = self.exp_;
-        }
+        *self = *self - that;
     }
 }
 
@@ -545,8 +510,7 @@ impl ops::MulAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 1000000000_f64*2000000000_f64);
     /// ```
     fn mul_assign(&mut self, that: Self) {
-        self.val_ *= that.val_;
-        self.exp_ += that.exp_;
+        *self = *self * that;
     }
 }
 
@@ -569,8 +533,7 @@ impl ops::DivAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), -1f64);
     /// ```
     fn div_assign(&mut self, that: Self) {
-        self.val_ /= that.val_;
-        self.exp_ -= that.exp_;
+        *self = *self / that;
     }
 }
 
-- 
2.43.0


From 4e4744ff6efbb4267abe8dade8a5fc41b882a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 11/18] fix: drop every leading word that cancels in a
 difference of big integers

---
 workspace/boostvoronoi_ext/src/extended_int.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index 8299d28..3a38aa4 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -293,6 +293,11 @@ impl ExtendedInt {
         if (self.count_ as usize) < self.chunks_.len() {
             let _ = self.chunks_.pop();
         }
+        // more than one leading chunk may have cancelled
+        while self.chunks_.last() == Some(&Wrapping(0)) {
+            let _ = self.chunks_.pop();
+            self.count_ -= 1;
+        }
     }
 
     fn mul_other(&mut self, e1: &Self, e2: &Self) {
-- 
2.43.0


From c8f3426da0d5a8c28c9180f304743553222a0ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 12/18] fix: i64::MIN converts to a big integer without
 overflow

---
 workspace/boostvoronoi_ext/src/extended_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index 3a38aa4..23ca8a8 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -59,7 +59,7 @@ impl<I: InputType> From<I> for ExtendedInt {
                 }
             }
             cmp::Ordering::Less => {
-                let mut c: u64 = (-that) as u64;
+                let mut c: u64 = that.unsigned_abs();
                 rv.chunks_.push(Wrapping((c & 0xFFFFFFFF) as u32));
                 c >>= 32;
                 if c != 0 {
-- 
2.43.0


From 7c482f68da91191e7a2ef8a053ebe1f7b70cf3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 13/18] fix: Zero::is_zero of ExtendedInt is implemented

---
 workspace/boostvoronoi_ext/src/extended_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index 23ca8a8..3e3223d 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -92,7 +92,7 @@ impl Zero for ExtendedInt {
     }
     #[inline]
     fn is_zero(&self) -> bool {
-        unimplemented!()
+        self.count_ == 0
     }
 }
 
-- 
2.43.0


From 4cecc98310c4cbd27538158ae374267e8e9f5474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 14/18] fix: cross products of i32 coordinate differences do
 not overflow

---
 workspace/boostvoronoi_core/src/predicate.rs | 33 +++-----------------
 1 file changed, 4 insertions(+), 29 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index e260225..513267e 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -56,35 +56,10 @@ pub(crate) fn is_vertical<I: InputType>(point1: Point<I>, point2: Point<I>) -> b
 /// with epsilon relative error equal to 1EPS.
 #[inline]
 fn robust_cross_product<I: InputType, F: OutputType>(s_a1: I, s_b1: I, s_a2: I, s_b2: I) -> F {
-    // Why can't *all* integers implement is_negative()? E.g u64 would just always return false.
-    // It would make it easier to implement generic code
-    let u_a1 = if s_a1 < I::zero() { -s_a1 } else { s_a1 };
-    let u_b1 = if s_b1 < I::zero() { -s_b1 } else { s_b1 };
-    let u_a2 = if s_a2 < I::zero() { -s_a2 } else { s_a2 };
-    let u_b2 = if s_b2 < I::zero() { -s_b2 } else { s_b2 };
-
-    let l = u_a1 * u_b2;
-    let r = u_b1 * u_a2;
-
-    if (s_a1 < I::zero()) ^ (s_b2 < I::zero()) {
-        return if (s_a2 < I::zero()) ^ (s_b1 < I::zero()) {
-            if l > r {
-                -cast::<I, F>(l - r)
-            } else {
-                cast::<I, F>(r - l)
-            }
-        } else {
-            -cast::<I, F>(l + r)
-        };
-    }
-    if (s_a2 < I::zero()) ^ (s_b1 < I::zero()) {
-        return cast::<I, F>(l + r);
-    }
-    if l < r {
-        -cast::<I, F>(r - l)
-    } else {
-        cast::<I, F>(l - r)
-    }
+    // The product of two differences of i32 coordinates needs more than 64 bits.
+    let l = cast::<I, i128>(s_a1) * cast::<I, i128>(s_b2);
+    let r = cast::<I, i128>(s_b1) * cast::<I, i128>(s_a2);
+    cast::<i128, F>(l - r)
 }
 
 pub(crate) mod orientation_predicate {
-- 
2.43.0


From 62c179f0a56e02160751c29c281da0d0b4fd08fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 15/18] fix: no circle event for two points and a segment met
 in another order

---
 .../src/predicate/circle_existence.rs         | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate/circle_existence.rs b/workspace/boostvoronoi_core/src/predicate/circle_existence.rs
index 2a21d3f..687ace4 100644
--- a/workspace/boostvoronoi_core/src/predicate/circle_existence.rs
+++ b/workspace/boostvoronoi_core/src/predicate/circle_existence.rs
@@ -11,7 +11,7 @@
 
 use crate::predicate::orientation_predicate::{self, Orientation};
 use crate::site_event as VSE;
-use crate::{geometry::Point, predicate::SiteIndex, InputType, OutputType};
+use crate::{cast, geometry::Point, predicate::SiteIndex, InputType, OutputType};
 
 #[inline(always)]
 pub(crate) fn ppp<I: InputType>(point1: Point<I>, point2: Point<I>, point3: Point<I>) -> bool {
@@ -92,8 +92,25 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
             if orient2 != Orientation::Right {
                 return false;
             }
-        } else if orient1 != Orientation::Right && orient2 != Orientation::Right {
-            return false;
+        } else {
+            if orient1 != Orientation::Right && orient2 != Orientation::Right {
+                return false;
+            }
+            // A circle through the points touches the segment in this order only when the
+            // segment turns this way, otherwise the event of another arc order has the circle.
+            let along = orientation_predicate::eval_i(
+                cast::<I, i64>(point2.x) - cast::<I, i64>(point1.x),
+                cast::<I, i64>(point2.y) - cast::<I, i64>(point1.y),
+                cast::<I, i64>(site3.point1().x) - cast::<I, i64>(site3.point0().x),
+                cast::<I, i64>(site3.point1().y) - cast::<I, i64>(site3.point0().y),
+            );
+            if segment_index == SiteIndex::One {
+                if !site3.is_inverse() && along != Orientation::Left {
+                    return false;
+                }
+            } else if site3.is_inverse() && along != Orientation::Right {
+                return false;
+            }
         }
     } else {
         return (site3.point0() != point1) || (site3.point1() != point2);
-- 
2.43.0


From 9cfd6f7fe09664d266b059c78fd5fc715c45a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 16/18] fix: discretize keeps the first point of a tiny edge

---
 workspace/boostvoronoi_core/src/visual_utils.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/visual_utils.rs b/workspace/boostvoronoi_core/src/visual_utils.rs
index 69cd74b..67cb247 100644
--- a/workspace/boostvoronoi_core/src/visual_utils.rs
+++ b/workspace/boostvoronoi_core/src/visual_utils.rs
@@ -122,9 +122,11 @@ impl VoronoiVisualUtils {
                 point_stack.push(mid_x);
             }
         }
-        // Update last point.
-        let discretization_len = discretization.len();
-        discretization[discretization_len - 1] = last_point;
+        // Update last point, unless only the first point is left.
+        if discretization.len() > 1 {
+            let _ = discretization.pop();
+        }
+        discretization.push(last_point);
     }
 
     /// Compute y(x) = ((x - a) * (x - a) + b * b) / (2 * b).
-- 
2.43.0


From 0a44647fe8cb623237be3de0c47f7c213a888c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 17/18] fix: color_exterior_edges with a color that can not be
 stored does not overflow the stack

---
 workspace/boostvoronoi_core/src/diagram.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index 4b62839..6950bd1 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -782,6 +782,10 @@ impl<F: OutputType> Diagram<F> {
     /// Iterates over all edges, colors each edge as exterior if it has an unbroken primary edge
     /// link connection to an infinite edge.
     pub fn color_exterior_edges(&self, external_color: ColorType) {
+        if external_color << ColorBits::RESERVED_BITS__SHIFT.0 == 0 {
+            // no bit of this color can be stored, already colored edges would not be recognized
+            return;
+        }
         for it in self.edges().iter() {
             let edge_id = Some(it.get().id());
             if !self.edge_is_finite_(edge_id).unwrap() {
-- 
2.43.0


From 68af172d0062c442c6793ed44a78aec9324a3cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 18/18] fix: I/O errors while reading an input are returned

---
 workspace/boostvoronoi_core/src/file_reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/workspace/boostvoronoi_core/src/file_reader.rs b/workspace/boostvoronoi_core/src/file_reader.rs
index 4c555cb..d5f21f2 100644
--- a/workspace/boostvoronoi_core/src/file_reader.rs
+++ b/workspace/boostvoronoi_core/src/file_reader.rs
@@ -123,6 +123,9 @@ pub fn read_boost_input_buffer<I: crate::InputType, F: std::io::Read>(
 
     // Read the file line by line using the lines() iterator from std::io::BufRead.
     for (index, line) in reader.lines().enumerate() {
+        if let Err(err) = line {
+            return Err(err.into());
+        }
         if let Ok(line) = line {
             //println!("got {:?}, state:{:?}", line, state);
             if let Some(data) = line_to_data::<I>(&line) {
-- 
2.43.0

