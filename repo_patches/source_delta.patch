From 325a3308917873d9fd761cc8878f8f17499e0bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:03 +0000
Subject: [PATCH 1/5] fix: rotate signed lanes without copying the sign bit,
 for any count

---
 src/api/ops/vector_rotates.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/api/ops/vector_rotates.rs b/src/api/ops/vector_rotates.rs
index 6c4bed7..2dddff5 100644
--- a/src/api/ops/vector_rotates.rs
+++ b/src/api/ops/vector_rotates.rs
@@ -15,8 +15,12 @@ macro_rules! impl_ops_vector_rotates {
                 const LANE_WIDTH: $elem_ty =
                     crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
                 // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self << n) | (self >> ((LANE_WIDTH - n) % LANE_WIDTH))
+                // (the lane width is a power of two, and `n` may be negative)
+                let n = n & (LANE_WIDTH - 1);
+                let r = (LANE_WIDTH - n) & (LANE_WIDTH - 1);
+                // `>>` is arithmetic for signed lanes: clear the copied sign bits
+                let sign_bits = ($id::splat(!0) << 1) << (LANE_WIDTH - 1 - r);
+                (self << n) | ((self >> r) & !sign_bits)
             }
 
             /// Shifts the bits of each lane to the right by the specified
@@ -30,8 +34,12 @@ macro_rules! impl_ops_vector_rotates {
                 const LANE_WIDTH: $elem_ty =
                     crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
                 // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self >> n) | (self << ((LANE_WIDTH - n) % LANE_WIDTH))
+                // (the lane width is a power of two, and `n` may be negative)
+                let n = n & (LANE_WIDTH - 1);
+                let l = (LANE_WIDTH - n) & (LANE_WIDTH - 1);
+                // `>>` is arithmetic for signed lanes: clear the copied sign bits
+                let sign_bits = ($id::splat(!0) << 1) << (LANE_WIDTH - 1 - n);
+                ((self >> n) & !sign_bits) | (self << l)
             }
         }
 
-- 
2.43.0


From 8c67c579bc57c786223d994ab815c76265f60488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:01 +0000
Subject: [PATCH 2/5] fix: offset_from of pointer vectors returned the negated
 distance

---
 src/api/minimal/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/minimal/ptr.rs b/src/api/minimal/ptr.rs
index d9e47c9..290ffb5 100644
--- a/src/api/minimal/ptr.rs
+++ b/src/api/minimal/ptr.rs
@@ -1166,7 +1166,7 @@ macro_rules! impl_minimal_p {
                 let x: $isize_ty = unsafe { crate::mem::transmute(self) };
                 let y: $isize_ty = unsafe { crate::mem::transmute(origin) };
                 // note: {-,/} currently perform wrapping_{sub, div}
-                (y - x) / (crate::mem::size_of::<T>() as isize)
+                (x - y) / (crate::mem::size_of::<T>() as isize)
             }
 
             /// Calculates the offset from a pointer (convenience for
-- 
2.43.0


From d152d648edf87ccf0d01ccf1ca02ad6756f402c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:22 +0000
Subject: [PATCH 3/5] fix: casting i128x1/u128x1 to m128x1 produced
 non-canonical masks

---
 src/api/cast/v128.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/cast/v128.rs b/src/api/cast/v128.rs
index 2e10b97..e310a35 100644
--- a/src/api/cast/v128.rs
+++ b/src/api/cast/v128.rs
@@ -299,4 +299,4 @@ impl_from_cast_mask!(
 // FIXME[test_v128]: 64-bit single element vectors into_cast impls
 impl_from_cast!(i128x1[test_v128]: u128x1, m128x1);
 impl_from_cast!(u128x1[test_v128]: i128x1, m128x1);
-impl_from_cast!(m128x1[test_v128]: i128x1, u128x1);
+impl_from_cast_mask!(m128x1[test_v128]: i128x1, u128x1);
-- 
2.43.0


From 38b4e9f04f7d7c355a2334a9893a19b42e53a640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:27 +0000
Subject: [PATCH 4/5] fix: shuffle! output type for pointer vectors

The Shuffle impls for *const T and *mut T named cptrxN<T>/mptrxN<T> as the
output, but the tuple type behind [*const T; N] is cptrxN<*const T>, so no
pointer vector could be shuffled at all.
---
 src/codegen/shuffle.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/codegen/shuffle.rs b/src/codegen/shuffle.rs
index d3acd48..383d1a7 100644
--- a/src/codegen/shuffle.rs
+++ b/src/codegen/shuffle.rs
@@ -113,28 +113,28 @@ impl_shuffle! { [u32; 8], msize, crate::codegen::msizex8 }
 
 impl<T> Seal<[u32; 2]> for *const T {}
 impl<T> Shuffle<[u32; 2]> for *const T {
-    type Output = crate::codegen::cptrx2<T>;
+    type Output = crate::codegen::cptrx2<*const T>;
 }
 impl<T> Seal<[u32; 4]> for *const T {}
 impl<T> Shuffle<[u32; 4]> for *const T {
-    type Output = crate::codegen::cptrx4<T>;
+    type Output = crate::codegen::cptrx4<*const T>;
 }
 impl<T> Seal<[u32; 8]> for *const T {}
 impl<T> Shuffle<[u32; 8]> for *const T {
-    type Output = crate::codegen::cptrx8<T>;
+    type Output = crate::codegen::cptrx8<*const T>;
 }
 
 impl<T> Seal<[u32; 2]> for *mut T {}
 impl<T> Shuffle<[u32; 2]> for *mut T {
-    type Output = crate::codegen::mptrx2<T>;
+    type Output = crate::codegen::mptrx2<*mut T>;
 }
 impl<T> Seal<[u32; 4]> for *mut T {}
 impl<T> Shuffle<[u32; 4]> for *mut T {
-    type Output = crate::codegen::mptrx4<T>;
+    type Output = crate::codegen::mptrx4<*mut T>;
 }
 impl<T> Seal<[u32; 8]> for *mut T {}
 impl<T> Shuffle<[u32; 8]> for *mut T {
-    type Output = crate::codegen::mptrx8<T>;
+    type Output = crate::codegen::mptrx8<*mut T>;
 }
 
 impl_shuffle! { [u32; 1], i128, crate::codegen::i128x1 }
-- 
2.43.0


From f31e537df89ad58795ab9da2a3ac52519c550310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:07 +0000
Subject: [PATCH 5/5] fix: let shuffle! produce m16x32

The Shuffle impl with 32 indices was missing for m16 only.
---
 src/codegen/shuffle.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codegen/shuffle.rs b/src/codegen/shuffle.rs
index 383d1a7..f8b132f 100644
--- a/src/codegen/shuffle.rs
+++ b/src/codegen/shuffle.rs
@@ -50,6 +50,7 @@ impl_shuffle! { [u32; 2], m16, crate::codegen::m16x2 }
 impl_shuffle! { [u32; 4], m16, crate::codegen::m16x4 }
 impl_shuffle! { [u32; 8], m16, crate::codegen::m16x8 }
 impl_shuffle! { [u32; 16], m16, crate::codegen::m16x16 }
+impl_shuffle! { [u32; 32], m16, crate::codegen::m16x32 }
 
 impl_shuffle! { [u32; 2], i32, crate::codegen::i32x2 }
 impl_shuffle! { [u32; 4], i32, crate::codegen::i32x4 }
-- 
2.43.0

