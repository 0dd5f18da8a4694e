From cfb1f4eec5f09430dd90c338e8635faaaa59d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 01/14] fix: do not create uninitialized values in the array
 to_discr

---
 enum_like/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/enum_like/src/lib.rs b/enum_like/src/lib.rs
index 035954f..ec6812c 100644
--- a/enum_like/src/lib.rs
+++ b/enum_like/src/lib.rs
@@ -364,15 +364,12 @@ macro_rules! array_impls {
     } => {
 unsafe impl<$T0: EnumLike> EnumLike for [$T0; $N] {
     const NUM_VARIANTS: usize = <($($T,)+)>::NUM_VARIANTS;
-    fn to_discr(mut self) -> usize {
-        use std::mem;
-        unsafe {
+    fn to_discr(self) -> usize {
         (
             $(
-                mem::replace(&mut self[$N - 1 - $idx], mem::uninitialized()),
+                self[$N - 1 - $idx],
             )+
         ).to_discr()
-        }
     }
     fn from_discr(x: usize) -> Self {
         let t = <($($T,)+)>::from_discr(x);
-- 
2.43.0


From 6276e5d1dd6c5d45e36bc138f0027f26e3f06a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 02/14] fix: overflow in Values::nth

---
 enum_like/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_like/src/lib.rs b/enum_like/src/lib.rs
index ec6812c..e8dc8cc 100644
--- a/enum_like/src/lib.rs
+++ b/enum_like/src/lib.rs
@@ -627,7 +627,7 @@ impl<T: EnumLike> Iterator for Values<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        if self.current + n < self.max {
+        if n < self.max - self.current {
             self.current += n;
 
             self.next()
-- 
2.43.0


From 956bc52a00e6d80a245fe8ab18f974b89a5eed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 03/14] fix: shift overflow in insert and remove when an
 element fills a block

---
 enum_vec/src/smallvec_u32/mod.rs | 4 ++--
 enum_vec/src/vec_u128/mod.rs     | 4 ++--
 enum_vec/src/vec_u16/mod.rs      | 4 ++--
 enum_vec/src/vec_u32/mod.rs      | 4 ++--
 enum_vec/src/vec_u64/mod.rs      | 4 ++--
 enum_vec/src/vec_u8/mod.rs       | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 2ffe467..a920c87 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -209,7 +209,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -276,7 +276,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index b92800e..f818bb9 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -208,7 +208,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +275,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index b59a139..a8305d9 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -208,7 +208,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +275,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 9a22f41..c377d76 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -208,7 +208,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +275,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 05af01d..44538f3 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -208,7 +208,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +275,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index fd2e0a4..cb8237d 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -208,7 +208,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +275,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero << end_bit_offset;
 
             last
-- 
2.43.0


From fe9a02a347def2bfabcde81b3877c37d83d987e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 04/14] fix: remove mixed the unused bits of a block into its
 last element

---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index a920c87..e05a389 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -277,6 +277,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
+            // The unused bits may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index f818bb9..f5899bb 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
+            // The unused bits may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index a8305d9..92da231 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
+            // The unused bits may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index c377d76..f81c897 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
+            // The unused bits may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 44538f3..c5a2ca4 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
+            // The unused bits may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index cb8237d..01ca4ba 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
+            // The unused bits may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
-- 
2.43.0


From b07f069708739c5454c9a891c5f014dcc03a0676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 05/14] fix: append left the length of the other vector
 unchanged when block-aligned

---
 enum_vec/src/smallvec_u32/mod.rs | 4 ++--
 enum_vec/src/vec_u128/mod.rs     | 4 ++--
 enum_vec/src/vec_u16/mod.rs      | 4 ++--
 enum_vec/src/vec_u32/mod.rs      | 4 ++--
 enum_vec/src/vec_u64/mod.rs      | 4 ++--
 enum_vec/src/vec_u8/mod.rs       | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index e05a389..6290d2c 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -410,9 +410,9 @@ other.clear();
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
             }
-
-            other.clear();
         }
+
+        other.clear();
     }
     /// Sets the length to zero, removing all the elements.
     /// ```
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index f5899bb..02bd613 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -408,9 +408,9 @@ impl<T: EnumLike> EnumVec<T> {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
             }
-
-            other.clear();
         }
+
+        other.clear();
     }
     /// Sets the length to zero, removing all the elements.
     /// ```
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 92da231..26b64fc 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -408,9 +408,9 @@ impl<T: EnumLike> EnumVec<T> {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
             }
-
-            other.clear();
         }
+
+        other.clear();
     }
     /// Sets the length to zero, removing all the elements.
     /// ```
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index f81c897..d8b4e55 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -408,9 +408,9 @@ impl<T: EnumLike> EnumVec<T> {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
             }
-
-            other.clear();
         }
+
+        other.clear();
     }
     /// Sets the length to zero, removing all the elements.
     /// ```
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index c5a2ca4..2c35f7c 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -408,9 +408,9 @@ impl<T: EnumLike> EnumVec<T> {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
             }
-
-            other.clear();
         }
+
+        other.clear();
     }
     /// Sets the length to zero, removing all the elements.
     /// ```
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 01ca4ba..c7ae9bc 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -408,9 +408,9 @@ impl<T: EnumLike> EnumVec<T> {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
             }
-
-            other.clear();
         }
+
+        other.clear();
     }
     /// Sets the length to zero, removing all the elements.
     /// ```
-- 
2.43.0


From d95bf09c962556b91f6811b96e982ad061c8e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 06/14] fix: elements wider than 32 bits were truncated

---
 enum_vec/src/smallvec_u32/mod.rs | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u128/mod.rs     | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u16/mod.rs      | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u32/mod.rs      | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u64/mod.rs      | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u8/mod.rs       | 34 +++++++++++++++++++++++++++++++-
 6 files changed, 198 insertions(+), 6 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 6290d2c..df6aff4 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -66,6 +66,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -81,7 +113,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 02bd613..3b9855b 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         //+ Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 26b64fc..93bedfb 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index d8b4e55..f9f0ecb 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 2c35f7c..0595370 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         //+ Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index c7ae9bc..d6947a7 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
-- 
2.43.0


From b1ff44015398a3828f86aee07d0823500444cfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 07/14] fix: bulk fill used quadratic storage

---
 enum_vec/src/smallvec_u32/mod.rs | 6 ++----
 enum_vec/src/vec_u128/mod.rs     | 6 ++----
 enum_vec/src/vec_u16/mod.rs      | 6 ++----
 enum_vec/src/vec_u32/mod.rs      | 6 ++----
 enum_vec/src/vec_u64/mod.rs      | 6 ++----
 enum_vec/src/vec_u8/mod.rs       | 6 ++----
 6 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index df6aff4..0a5566d 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -546,10 +546,8 @@ other.clear();
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 3b9855b..f3a30fe 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -544,10 +544,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 93bedfb..7e9f8bf 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -544,10 +544,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index f9f0ecb..e44f209 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -544,10 +544,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 0595370..c82550f 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -544,10 +544,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index d6947a7..2f398e5 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -544,10 +544,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
-- 
2.43.0


From e857405e115b11c50592b4d687b901043f35acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 08/14] fix: insert accepted positions beyond the end

---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 0a5566d..2fce24e 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -247,6 +247,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index f3a30fe..e655ae5 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -246,6 +246,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 7e9f8bf..82776bd 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -246,6 +246,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index e44f209..f7c2209 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -246,6 +246,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index c82550f..6a3ed28 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -246,6 +246,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 2f398e5..e3182eb 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -246,6 +246,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
-- 
2.43.0


From a85761ad72f0da4166b59363b7a31dc97af42bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 09/14] fix: extend trusted the lower bound of size_hint

---
 enum_vec/src/smallvec_u32/mod.rs | 14 +++-----------
 enum_vec/src/vec_u128/mod.rs     | 14 +++-----------
 enum_vec/src/vec_u16/mod.rs      | 14 +++-----------
 enum_vec/src/vec_u32/mod.rs      | 14 +++-----------
 enum_vec/src/vec_u64/mod.rs      | 14 +++-----------
 enum_vec/src/vec_u8/mod.rs       | 14 +++-----------
 6 files changed, 18 insertions(+), 66 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 2fce24e..285dec4 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -941,17 +941,9 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
-        // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        let iter = iter.into_iter();
+        // The lower bound is only a hint, it may be wrong
+        self.reserve(iter.size_hint().0);
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index e655ae5..649edf7 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -939,17 +939,9 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
-        // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        let iter = iter.into_iter();
+        // The lower bound is only a hint, it may be wrong
+        self.reserve(iter.size_hint().0);
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 82776bd..a049b74 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -939,17 +939,9 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
-        // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        let iter = iter.into_iter();
+        // The lower bound is only a hint, it may be wrong
+        self.reserve(iter.size_hint().0);
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index f7c2209..754d238 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -939,17 +939,9 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
-        // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        let iter = iter.into_iter();
+        // The lower bound is only a hint, it may be wrong
+        self.reserve(iter.size_hint().0);
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 6a3ed28..e27d291 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -939,17 +939,9 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
-        // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        let iter = iter.into_iter();
+        // The lower bound is only a hint, it may be wrong
+        self.reserve(iter.size_hint().0);
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index e3182eb..4b0395e 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -939,17 +939,9 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
-        // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        let iter = iter.into_iter();
+        // The lower bound is only a hint, it may be wrong
+        self.reserve(iter.size_hint().0);
         for elem in iter {
             self.push(elem);
         }
-- 
2.43.0


From b85382d57c8b68772675e45c481e7cc52b951166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 10/14] fix: split_off wrote beyond the length of the new
 storage

---
 enum_vec/src/smallvec_u32/mod.rs | 3 ++-
 enum_vec/src/vec_u128/mod.rs     | 3 ++-
 enum_vec/src/vec_u16/mod.rs      | 3 ++-
 enum_vec/src/vec_u32/mod.rs      | 3 ++-
 enum_vec/src/vec_u64/mod.rs      | 3 ++-
 enum_vec/src/vec_u8/mod.rs       | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 285dec4..018b789 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -484,7 +484,8 @@ other.clear();
         // internal storage instead, but we don't do that yet
 
         let other_len = self.len() - at;
-        let mut other = Self::with_capacity(other_len);
+        let mut other = Self::new();
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 649edf7..e2756d3 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -482,7 +482,8 @@ impl<T: EnumLike> EnumVec<T> {
         // internal storage instead, but we don't do that yet
 
         let other_len = self.len() - at;
-        let mut other = Self::with_capacity(other_len);
+        let mut other = Self::new();
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index a049b74..0159c57 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -482,7 +482,8 @@ impl<T: EnumLike> EnumVec<T> {
         // internal storage instead, but we don't do that yet
 
         let other_len = self.len() - at;
-        let mut other = Self::with_capacity(other_len);
+        let mut other = Self::new();
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 754d238..04e2267 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -482,7 +482,8 @@ impl<T: EnumLike> EnumVec<T> {
         // internal storage instead, but we don't do that yet
 
         let other_len = self.len() - at;
-        let mut other = Self::with_capacity(other_len);
+        let mut other = Self::new();
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index e27d291..90653d6 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -482,7 +482,8 @@ impl<T: EnumLike> EnumVec<T> {
         // internal storage instead, but we don't do that yet
 
         let other_len = self.len() - at;
-        let mut other = Self::with_capacity(other_len);
+        let mut other = Self::new();
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 4b0395e..b465af0 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -482,7 +482,8 @@ impl<T: EnumLike> EnumVec<T> {
         // internal storage instead, but we don't do that yet
 
         let other_len = self.len() - at;
-        let mut other = Self::with_capacity(other_len);
+        let mut other = Self::new();
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
-- 
2.43.0


From 6d328edfe9c5ae5370181f1d05ad919940e7724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 11/14] fix: push and insert changed the vector before
 converting the element

---
 enum_vec/src/smallvec_u32/mod.rs | 6 ++++--
 enum_vec/src/vec_u128/mod.rs     | 6 ++++--
 enum_vec/src/vec_u16/mod.rs      | 6 ++++--
 enum_vec/src/vec_u32/mod.rs      | 6 ++++--
 enum_vec/src/vec_u64/mod.rs      | 6 ++++--
 enum_vec/src/vec_u8/mod.rs       | 6 ++++--
 6 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 018b789..70e6a30 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -249,12 +249,12 @@ impl<T: EnumLike> EnumVec<T> {
 
         assert!(index <= self.len(), "`index` out of bounds");
 
+        let mut prev = element.to_discr();
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
         let slow_insert = index % Self::ELEMS_PER_BLOCK;
         let self_len = self.len();
-        let mut prev = element.to_discr();
         let mut i = index;
         // Skip this part if index % Self::ELEMS_PER_BLOCK == 0
         if slow_insert > 0 {
@@ -387,12 +387,14 @@ impl<T: EnumLike> EnumVec<T> {
     /// ev.push(true);
     /// ```
     pub fn push(&mut self, x: T) {
+        // This may panic, so do it before changing anything
+        let discr = x.to_discr();
         self.grow_if_needed();
         let idx = self.num_elements;
         // max len is usize::MAX
         self.num_elements =
             self.num_elements.checked_add(1).expect("capacity overflow");
-        self.set(idx, x);
+        self.set_raw(idx, discr);
     }
     pub fn pop(&mut self) -> Option<T> {
         if self.is_empty() {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index e2756d3..30c0da9 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -248,12 +248,12 @@ impl<T: EnumLike> EnumVec<T> {
 
         assert!(index <= self.len(), "`index` out of bounds");
 
+        let mut prev = element.to_discr();
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
         let slow_insert = index % Self::ELEMS_PER_BLOCK;
         let self_len = self.len();
-        let mut prev = element.to_discr();
         let mut i = index;
         // Skip this part if index % Self::ELEMS_PER_BLOCK == 0
         if slow_insert > 0 {
@@ -386,12 +386,14 @@ impl<T: EnumLike> EnumVec<T> {
     /// ev.push(true);
     /// ```
     pub fn push(&mut self, x: T) {
+        // This may panic, so do it before changing anything
+        let discr = x.to_discr();
         self.grow_if_needed();
         let idx = self.num_elements;
         // max len is usize::MAX
         self.num_elements =
             self.num_elements.checked_add(1).expect("capacity overflow");
-        self.set(idx, x);
+        self.set_raw(idx, discr);
     }
     pub fn pop(&mut self) -> Option<T> {
         if self.is_empty() {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 0159c57..62f1cd3 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -248,12 +248,12 @@ impl<T: EnumLike> EnumVec<T> {
 
         assert!(index <= self.len(), "`index` out of bounds");
 
+        let mut prev = element.to_discr();
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
         let slow_insert = index % Self::ELEMS_PER_BLOCK;
         let self_len = self.len();
-        let mut prev = element.to_discr();
         let mut i = index;
         // Skip this part if index % Self::ELEMS_PER_BLOCK == 0
         if slow_insert > 0 {
@@ -386,12 +386,14 @@ impl<T: EnumLike> EnumVec<T> {
     /// ev.push(true);
     /// ```
     pub fn push(&mut self, x: T) {
+        // This may panic, so do it before changing anything
+        let discr = x.to_discr();
         self.grow_if_needed();
         let idx = self.num_elements;
         // max len is usize::MAX
         self.num_elements =
             self.num_elements.checked_add(1).expect("capacity overflow");
-        self.set(idx, x);
+        self.set_raw(idx, discr);
     }
     pub fn pop(&mut self) -> Option<T> {
         if self.is_empty() {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 04e2267..5cc1cc6 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -248,12 +248,12 @@ impl<T: EnumLike> EnumVec<T> {
 
         assert!(index <= self.len(), "`index` out of bounds");
 
+        let mut prev = element.to_discr();
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
         let slow_insert = index % Self::ELEMS_PER_BLOCK;
         let self_len = self.len();
-        let mut prev = element.to_discr();
         let mut i = index;
         // Skip this part if index % Self::ELEMS_PER_BLOCK == 0
         if slow_insert > 0 {
@@ -386,12 +386,14 @@ impl<T: EnumLike> EnumVec<T> {
     /// ev.push(true);
     /// ```
     pub fn push(&mut self, x: T) {
+        // This may panic, so do it before changing anything
+        let discr = x.to_discr();
         self.grow_if_needed();
         let idx = self.num_elements;
         // max len is usize::MAX
         self.num_elements =
             self.num_elements.checked_add(1).expect("capacity overflow");
-        self.set(idx, x);
+        self.set_raw(idx, discr);
     }
     pub fn pop(&mut self) -> Option<T> {
         if self.is_empty() {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 90653d6..b1abfc0 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -248,12 +248,12 @@ impl<T: EnumLike> EnumVec<T> {
 
         assert!(index <= self.len(), "`index` out of bounds");
 
+        let mut prev = element.to_discr();
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
         let slow_insert = index % Self::ELEMS_PER_BLOCK;
         let self_len = self.len();
-        let mut prev = element.to_discr();
         let mut i = index;
         // Skip this part if index % Self::ELEMS_PER_BLOCK == 0
         if slow_insert > 0 {
@@ -386,12 +386,14 @@ impl<T: EnumLike> EnumVec<T> {
     /// ev.push(true);
     /// ```
     pub fn push(&mut self, x: T) {
+        // This may panic, so do it before changing anything
+        let discr = x.to_discr();
         self.grow_if_needed();
         let idx = self.num_elements;
         // max len is usize::MAX
         self.num_elements =
             self.num_elements.checked_add(1).expect("capacity overflow");
-        self.set(idx, x);
+        self.set_raw(idx, discr);
     }
     pub fn pop(&mut self) -> Option<T> {
         if self.is_empty() {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index b465af0..49bc553 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -248,12 +248,12 @@ impl<T: EnumLike> EnumVec<T> {
 
         assert!(index <= self.len(), "`index` out of bounds");
 
+        let mut prev = element.to_discr();
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
         let slow_insert = index % Self::ELEMS_PER_BLOCK;
         let self_len = self.len();
-        let mut prev = element.to_discr();
         let mut i = index;
         // Skip this part if index % Self::ELEMS_PER_BLOCK == 0
         if slow_insert > 0 {
@@ -386,12 +386,14 @@ impl<T: EnumLike> EnumVec<T> {
     /// ev.push(true);
     /// ```
     pub fn push(&mut self, x: T) {
+        // This may panic, so do it before changing anything
+        let discr = x.to_discr();
         self.grow_if_needed();
         let idx = self.num_elements;
         // max len is usize::MAX
         self.num_elements =
             self.num_elements.checked_add(1).expect("capacity overflow");
-        self.set(idx, x);
+        self.set_raw(idx, discr);
     }
     pub fn pop(&mut self) -> Option<T> {
         if self.is_empty() {
-- 
2.43.0


From 4ce50ed547482d7e4e6be62a55a0f649c6fd0987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 12/14] fix: reserve requested memory although the capacity was
 sufficient

---
 enum_vec/src/smallvec_u32/mod.rs | 2 +-
 enum_vec/src/vec_u128/mod.rs     | 2 +-
 enum_vec/src/vec_u16/mod.rs      | 2 +-
 enum_vec/src/vec_u32/mod.rs      | 2 +-
 enum_vec/src/vec_u64/mod.rs      | 2 +-
 enum_vec/src/vec_u8/mod.rs       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 70e6a30..310e7c3 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -174,7 +174,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 30c0da9..72a13c7 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -173,7 +173,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 62f1cd3..8ae5820 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -173,7 +173,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 5cc1cc6..7dc610e 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -173,7 +173,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index b1abfc0..f61aac0 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -173,7 +173,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 49bc553..0c49ceb 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -173,7 +173,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
-- 
2.43.0


From 633194fa489136bd807b81c4ca310aa02c2d8ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:03 +0000
Subject: [PATCH 13/14] fix: size_hint of set iterators excluded the true
 number of members

---
 enum_set/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enum_set/src/lib.rs b/enum_set/src/lib.rs
index d921812..293e99e 100644
--- a/enum_set/src/lib.rs
+++ b/enum_set/src/lib.rs
@@ -224,7 +224,9 @@ impl<E: EnumLike, I: Iterator<Item=usize>> Iterator for WrapIter<E, I> {
         self.inner.next().map(|x| E::from_discr(x))
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.inner.size_hint()
+        // The upper bound of the inner iterator is too low, as it does not
+        // count all the elements of the block it is currently visiting
+        (self.inner.size_hint().0, Some(E::NUM_VARIANTS))
     }
 }
 
-- 
2.43.0


From 32f1afea9048e8e5e35542ffda1a649da45dd5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 14/14] fix: sets took over numbers without a variant from a
 bit set

---
 enum_set/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/enum_set/src/lib.rs b/enum_set/src/lib.rs
index 293e99e..86afa8f 100644
--- a/enum_set/src/lib.rs
+++ b/enum_set/src/lib.rs
@@ -40,7 +40,16 @@ impl<E: EnumLike> EnumSet<E> {
     }
 
     /// Constructs an `EnumSet` from a `BitSet`.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the `BitSet` contains an integer value which does not
+    /// correspond to any enum variant.
     pub fn from_bit_set(inner: BitSet) -> Self {
+        assert!(
+            inner.iter().all(|x| x < E::NUM_VARIANTS),
+            "the bit set contains a value without a variant"
+        );
         Self {
             inner,
             _phantom: PhantomData,
-- 
2.43.0

