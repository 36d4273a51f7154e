From 86d73b2882781aa3c22ce144226c6c518772b6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 01/13] fix: append must leave the other vector empty when self
 is block-aligned

The aligned path moved other's storage but kept its length, so every later
access to other went out of bounds.
---
 enum_vec/gen.sh                  | 2 +-
 enum_vec/src/smallvec_u32/mod.rs | 2 +-
 enum_vec/src/vec_u128/mod.rs     | 1 +
 enum_vec/src/vec_u16/mod.rs      | 1 +
 enum_vec/src/vec_u32/mod.rs      | 1 +
 enum_vec/src/vec_u64/mod.rs      | 1 +
 enum_vec/src/vec_u8/mod.rs       | 1 +
 7 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/enum_vec/gen.sh b/enum_vec/gen.sh
index 9589321..1f4cf47 100755
--- a/enum_vec/gen.sh
+++ b/enum_vec/gen.sh
@@ -5,4 +5,4 @@ cat src/vec_u32/mod.rs | sed -e 's/vec_u32/vec_u16/g' -e 's/StorageBlock = u32/S
 cat src/vec_u32/mod.rs | sed -e 's/vec_u32/vec_u64/g' -e 's/StorageBlock = u32/StorageBlock = u64/g' -e 's/STORAGE_BLOCK_SIZE: usize = 32/STORAGE_BLOCK_SIZE: usize = 64/g' -e 's,+ Self::ERROR_TOO_MANY_VARIANTS,//+ Self::ERROR_TOO_MANY_VARIANTS,g' -e 's,const ERROR_TOO_MANY_VARIANTS: usize = [^;]*;,/*&*/,g' > src/vec_u64/mod.rs
 cat src/vec_u32/mod.rs | sed -e 's/vec_u32/vec_u128/g' -e 's/StorageBlock = u32/StorageBlock = u128/g' -e 's/STORAGE_BLOCK_SIZE: usize = 32/STORAGE_BLOCK_SIZE: usize = 128/g' -e 's,+ Self::ERROR_TOO_MANY_VARIANTS,//+ Self::ERROR_TOO_MANY_VARIANTS,g' -e 's,const ERROR_TOO_MANY_VARIANTS: usize = [^;]*;,/*&*/,g' > src/vec_u128/mod.rs
 
-cat src/vec_u32/mod.rs | sed -e '2iuse smallvec::SmallVec;' -e 's/vec_u32/smallvec_u32/g' -e 's/StorageBlock = u32/StorageBlock = u32/g' -e 's/STORAGE_BLOCK_SIZE: usize = 32/STORAGE_BLOCK_SIZE: usize = 32/g' -e 's/Storage = Vec<StorageBlock>/Storage = SmallVec<[StorageBlock; 4]>/g' -e 's/self.storage.append(&mut other.storage);/self.storage.extend_from_slice(\&other.storage);\nother.clear();/g' > src/smallvec_u32/mod.rs
+cat src/vec_u32/mod.rs | sed -e '2iuse smallvec::SmallVec;' -e 's/vec_u32/smallvec_u32/g' -e 's/StorageBlock = u32/StorageBlock = u32/g' -e 's/STORAGE_BLOCK_SIZE: usize = 32/STORAGE_BLOCK_SIZE: usize = 32/g' -e 's/Storage = Vec<StorageBlock>/Storage = SmallVec<[StorageBlock; 4]>/g' -e 's/self.storage.append(&mut other.storage);/self.storage.extend_from_slice(\&other.storage);/g' > src/smallvec_u32/mod.rs
diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 2ffe467..a36247e 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -397,8 +397,8 @@ impl<T: EnumLike> EnumVec<T> {
             self.fix_storage();
             other.fix_storage();
             self.storage.extend_from_slice(&other.storage);
-other.clear();
             self.num_elements += other_len;
+            other.clear();
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index b92800e..0c8d00e 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.clear();
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index b59a139..b2e4a5e 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.clear();
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 9a22f41..1134583 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.clear();
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 05af01d..b2817d5 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.clear();
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index fd2e0a4..173c0e6 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -397,6 +397,7 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.append(&mut other.storage);
             self.num_elements += other_len;
+            other.clear();
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
-- 
2.43.0


From a4ccd4289d4c1ee3c88cb63f4602cfffd61802be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 02/13] fix: split_off must initialize the storage it writes to

It wrote past the length of the new storage (undefined behaviour, abort in
debug builds) and returned a vector whose storage did not cover its elements.
---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index a36247e..26337fe 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -449,6 +449,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The unchecked writes need initialized storage, not just capacity
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 0c8d00e..750caf6 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -448,6 +448,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The unchecked writes need initialized storage, not just capacity
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index b2e4a5e..51bcce5 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -448,6 +448,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The unchecked writes need initialized storage, not just capacity
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 1134583..751b19c 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -448,6 +448,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The unchecked writes need initialized storage, not just capacity
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index b2817d5..4dbbc1e 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -448,6 +448,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The unchecked writes need initialized storage, not just capacity
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 173c0e6..976e805 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -448,6 +448,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The unchecked writes need initialized storage, not just capacity
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
-- 
2.43.0


From 4c685d3bf82c2fdbf16eca0410c687c1ce7b87bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 03/13] fix: insert and remove with elements as wide as a
 storage block

Shifting a block by its full width overflowed: panic in debug builds, wrong
elements in release builds.
---
 enum_vec/src/smallvec_u32/mod.rs | 6 ++++--
 enum_vec/src/vec_u128/mod.rs     | 6 ++++--
 enum_vec/src/vec_u16/mod.rs      | 6 ++++--
 enum_vec/src/vec_u32/mod.rs      | 6 ++++--
 enum_vec/src/vec_u64/mod.rs      | 6 ++++--
 enum_vec/src/vec_u8/mod.rs       | 6 ++++--
 6 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 26337fe..5e8681a 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -209,7 +209,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // An element can be as wide as the whole block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -276,7 +277,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // An element can be as wide as the whole block
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 750caf6..1a1d57b 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // An element can be as wide as the whole block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // An element can be as wide as the whole block
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 51bcce5..c3bee1a 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // An element can be as wide as the whole block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // An element can be as wide as the whole block
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 751b19c..ba59587 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // An element can be as wide as the whole block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // An element can be as wide as the whole block
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 4dbbc1e..d889ade 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // An element can be as wide as the whole block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // An element can be as wide as the whole block
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 976e805..20eb9cd 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -208,7 +208,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            // An element can be as wide as the whole block
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            // An element can be as wide as the whole block
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero << end_bit_offset;
 
             last
-- 
2.43.0


From c51c9f70e72bff8de00edb70ecac6613f093ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 04/13] fix: remove must not mix unused block bits into an
 element

When the element width does not divide the block width, insert shifts element
bits into the unused high bits and remove shifted them back over the element
moved in from the next block.
---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 5e8681a..97073e7 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -279,6 +279,8 @@ impl<T: EnumLike> EnumVec<T> {
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             // An element can be as wide as the whole block
             *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
+            // The unused high bits have just been shifted into the last element
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 1a1d57b..90a6f6c 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -278,6 +278,8 @@ impl<T: EnumLike> EnumVec<T> {
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             // An element can be as wide as the whole block
             *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
+            // The unused high bits have just been shifted into the last element
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index c3bee1a..7a14045 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -278,6 +278,8 @@ impl<T: EnumLike> EnumVec<T> {
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             // An element can be as wide as the whole block
             *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
+            // The unused high bits have just been shifted into the last element
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index ba59587..f0546e5 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -278,6 +278,8 @@ impl<T: EnumLike> EnumVec<T> {
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             // An element can be as wide as the whole block
             *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
+            // The unused high bits have just been shifted into the last element
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index d889ade..fa986b7 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -278,6 +278,8 @@ impl<T: EnumLike> EnumVec<T> {
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             // An element can be as wide as the whole block
             *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
+            // The unused high bits have just been shifted into the last element
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 20eb9cd..a043f2d 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -278,6 +278,8 @@ impl<T: EnumLike> EnumVec<T> {
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             // An element can be as wide as the whole block
             *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
+            // The unused high bits have just been shifted into the last element
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
-- 
2.43.0


From c0f43dd41505ae924281c867fd870b7bb158af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 05/13] fix: filling with a value must not allocate
 count_blocks^2 blocks

from_elem(x, 100_000) for a 1-bit element reserved 40 MB instead of 12.5 KB.
---
 enum_vec/src/smallvec_u32/mod.rs | 6 ++----
 enum_vec/src/vec_u128/mod.rs     | 6 ++----
 enum_vec/src/vec_u16/mod.rs      | 6 ++----
 enum_vec/src/vec_u32/mod.rs      | 6 ++----
 enum_vec/src/vec_u64/mod.rs      | 6 ++----
 enum_vec/src/vec_u8/mod.rs       | 6 ++----
 6 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 97073e7..6698990 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -518,10 +518,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 90a6f6c..88e36b3 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -517,10 +517,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 7a14045..64d6cf0 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -517,10 +517,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index f0546e5..91b1fa4 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -517,10 +517,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index fa986b7..623ecbd 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -517,10 +517,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index a043f2d..24dcfa4 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -517,10 +517,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
-- 
2.43.0


From 61a3ccbdae5b6e4b59606ee24f30db2fb8fe4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 06/13] fix: elements wider than 32 bits in 64 and 128-bit
 blocks

The width was capped at 32 bits, so the high bits of every element were lost
or written over its neighbour.
---
 enum_vec/src/smallvec_u32/mod.rs | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u128/mod.rs     | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u16/mod.rs      | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u32/mod.rs      | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u64/mod.rs      | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u8/mod.rs       | 34 +++++++++++++++++++++++++++++++-
 6 files changed, 198 insertions(+), 6 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 6698990..0a154d6 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -66,6 +66,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -81,7 +113,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 88e36b3..596b863 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         //+ Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 64d6cf0..40c871b 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 91b1fa4..10c2a8d 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 623ecbd..f2cf4b9 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         //+ Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 24dcfa4..b22dc04 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
-- 
2.43.0


From 9af69e19c8abf72c04200157b98530b2f0f5756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 07/13] fix: insert past the end must panic instead of
 appending

---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 0a154d6..c83faf7 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -248,6 +248,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 596b863..c4f93a2 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -247,6 +247,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 40c871b..9bda388 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -247,6 +247,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 10c2a8d..3695b30 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -247,6 +247,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index f2cf4b9..3a7dd82 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -247,6 +247,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index b22dc04..67a7801 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -247,6 +247,8 @@ impl<T: EnumLike> EnumVec<T> {
             last
         };
 
+        assert!(index <= self.len(), "`index` out of bounds");
+
         // Increment the len by 1 and allocate memory if needed
         self.push(element);
 
-- 
2.43.0


From 324f0c6b0d84ef0954cafe205a0fa37ca7d113b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 08/13] fix: extend must not count elements it has not received

If the iterator panicked or ended before its size hint, the vector kept
phantom elements that were never pushed.
---
 enum_vec/src/smallvec_u32/mod.rs | 14 ++++----------
 enum_vec/src/vec_u128/mod.rs     | 14 ++++----------
 enum_vec/src/vec_u16/mod.rs      | 14 ++++----------
 enum_vec/src/vec_u32/mod.rs      | 14 ++++----------
 enum_vec/src/vec_u64/mod.rs      | 14 ++++----------
 enum_vec/src/vec_u8/mod.rs       | 14 ++++----------
 6 files changed, 24 insertions(+), 60 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index c83faf7..24f2b8f 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -945,17 +945,11 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
+        let iter = iter.into_iter();
         // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        self.reserve(iter.size_hint().0);
+        // The size hint is only a hint, and next() may panic, so the length
+        // must only count the elements we already have
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index c4f93a2..f7aa475 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -944,17 +944,11 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
+        let iter = iter.into_iter();
         // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        self.reserve(iter.size_hint().0);
+        // The size hint is only a hint, and next() may panic, so the length
+        // must only count the elements we already have
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 9bda388..72dcac6 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -944,17 +944,11 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
+        let iter = iter.into_iter();
         // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        self.reserve(iter.size_hint().0);
+        // The size hint is only a hint, and next() may panic, so the length
+        // must only count the elements we already have
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 3695b30..8dec830 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -944,17 +944,11 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
+        let iter = iter.into_iter();
         // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        self.reserve(iter.size_hint().0);
+        // The size hint is only a hint, and next() may panic, so the length
+        // must only count the elements we already have
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 3a7dd82..6562b5f 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -944,17 +944,11 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
+        let iter = iter.into_iter();
         // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        self.reserve(iter.size_hint().0);
+        // The size hint is only a hint, and next() may panic, so the length
+        // must only count the elements we already have
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 67a7801..ae7cf9e 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -944,17 +944,11 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
-        let iter_len = iter.size_hint().0;
-        let self_len = self.len();
+        let iter = iter.into_iter();
         // We could resize and use set_raw_unchecked, for speed
-        self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        self.reserve(iter.size_hint().0);
+        // The size hint is only a hint, and next() may panic, so the length
+        // must only count the elements we already have
         for elem in iter {
             self.push(elem);
         }
-- 
2.43.0


From 91970c85a1f30fc156bf125b26efdedc0911bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 09/13] fix: reserve must not allocate when the capacity is
 already enough

When len + additional was block-aligned it asked for one block too many, so
extending a vector within its capacity reallocated, and a full inline
SmallEnumVec moved to the heap.
---
 enum_vec/src/smallvec_u32/mod.rs | 2 +-
 enum_vec/src/vec_u128/mod.rs     | 2 +-
 enum_vec/src/vec_u16/mod.rs      | 2 +-
 enum_vec/src/vec_u32/mod.rs      | 2 +-
 enum_vec/src/vec_u64/mod.rs      | 2 +-
 enum_vec/src/vec_u8/mod.rs       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 24f2b8f..c02208a 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -174,7 +174,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index f7aa475..f54dfed 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -173,7 +173,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 72dcac6..847d40b 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -173,7 +173,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 8dec830..a2117d9 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -173,7 +173,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 6562b5f..5b8789c 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -173,7 +173,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index ae7cf9e..1167655 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -173,7 +173,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
-- 
2.43.0


From bbe3493bfa08541f54043182363aeeddcac454ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 10/13] fix: Values::nth must not overflow

Skipping usize::MAX values panicked in debug builds and went backwards in
release builds.
---
 enum_like/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enum_like/src/lib.rs b/enum_like/src/lib.rs
index 035954f..1d66557 100644
--- a/enum_like/src/lib.rs
+++ b/enum_like/src/lib.rs
@@ -630,7 +630,8 @@ impl<T: EnumLike> Iterator for Values<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        if self.current + n < self.max {
+        // current + n may overflow
+        if n < self.max - self.current {
             self.current += n;
 
             self.next()
-- 
2.43.0


From f8f5e83990bd87fca89b47820e7f4d3e191ea498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 11/13] fix: array to_discr must not create uninitialized items

It panicked for every item type that does not allow arbitrary bytes, such as
an enum with explicit discriminants. Items are Copy, so just copy them.
---
 enum_like/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/enum_like/src/lib.rs b/enum_like/src/lib.rs
index 1d66557..36eb144 100644
--- a/enum_like/src/lib.rs
+++ b/enum_like/src/lib.rs
@@ -364,15 +364,12 @@ macro_rules! array_impls {
     } => {
 unsafe impl<$T0: EnumLike> EnumLike for [$T0; $N] {
     const NUM_VARIANTS: usize = <($($T,)+)>::NUM_VARIANTS;
-    fn to_discr(mut self) -> usize {
-        use std::mem;
-        unsafe {
+    fn to_discr(self) -> usize {
         (
             $(
-                mem::replace(&mut self[$N - 1 - $idx], mem::uninitialized()),
+                self[$N - 1 - $idx],
             )+
         ).to_discr()
-        }
     }
     fn from_discr(x: usize) -> Self {
         let t = <($($T,)+)>::from_discr(x);
-- 
2.43.0


From be207aa1e30f77213bb988b1f26957f9bfc65416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 12/13] fix: EnumSet iterators must not report an upper bound
 that is too low

---
 enum_set/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enum_set/src/lib.rs b/enum_set/src/lib.rs
index d921812..8cbfb0c 100644
--- a/enum_set/src/lib.rs
+++ b/enum_set/src/lib.rs
@@ -224,7 +224,9 @@ impl<E: EnumLike, I: Iterator<Item=usize>> Iterator for WrapIter<E, I> {
         self.inner.next().map(|x| E::from_discr(x))
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.inner.size_hint()
+        // The upper bound of the inner iterator only counts one element of the
+        // current block, so it can be lower than the number of elements left
+        (self.inner.size_hint().0, Some(E::NUM_VARIANTS))
     }
 }
 
-- 
2.43.0


From 02c7ee5a2d605947d1ae7c930b842af1864c0095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 13/13] fix: derive must accept enum variants with empty
 parentheses or braces

---
 enum_like_derive/src/lib.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/enum_like_derive/src/lib.rs b/enum_like_derive/src/lib.rs
index 4fe8443..67a60f0 100644
--- a/enum_like_derive/src/lib.rs
+++ b/enum_like_derive/src/lib.rs
@@ -127,7 +127,7 @@ impl MatchArm {
         let name = &self.name;
         if self.data_fields == 0 {
             quote!(
-                #parent::#name => #offset,
+                #parent::#name {} => #offset,
             )
         } else {
             let field_names = &self.field_names;
@@ -159,7 +159,7 @@ impl MatchArm {
         let name = &self.name;
         if self.data_fields == 0 {
             quote!(
-                #offset => #parent::#name,
+                #offset => #parent::#name {},
             )
         } else {
             let range_high = &self.range_high;
@@ -206,14 +206,12 @@ fn all_variants_of(variants: &Punctuated<Variant, Comma>) -> Vec<MatchArm> {
     // First push the data-less variants
     // enum { A, B, C }
     // This is important because we need the offset, otherwise everything breaks
+    // A() and A {} don't have any data either
     for v in variants {
-        match v.fields {
-            Fields::Unit => {
-                let name = v.ident;
-                let idx = x.len() as usize;
-                x.push(MatchArm::unit(name, idx));
-            }
-            _ => {}
+        if v.fields.iter().next().is_none() {
+            let name = v.ident;
+            let idx = x.len() as usize;
+            x.push(MatchArm::unit(name, idx));
         }
     }
 
@@ -235,10 +233,11 @@ fn all_variants_of(variants: &Punctuated<Variant, Comma>) -> Vec<MatchArm> {
     // }
     for v in variants {
         match v.fields {
+            // We already handled these
+            ref f if f.iter().next().is_none() => {}
             Fields::Unnamed(ref fu) => {
                 // Ok(x): 1 element
                 // A(0, 1, 2): 3 elements
-                assert!(fu.unnamed.len() > 0, "This is a unit field, wtf");
                 let m = MatchArm::from_fields(
                     v.ident,
                     &fu.unnamed,
@@ -248,7 +247,6 @@ fn all_variants_of(variants: &Punctuated<Variant, Comma>) -> Vec<MatchArm> {
                 x.push(m);
             }
             Fields::Named(ref fu) => {
-                assert!(fu.named.len() > 0, "This is a named unit field, wtf");
                 let m = MatchArm::from_fields(
                     v.ident,
                     &fu.named,
@@ -257,7 +255,7 @@ fn all_variants_of(variants: &Punctuated<Variant, Comma>) -> Vec<MatchArm> {
                 );
                 x.push(m);
             }
-            Fields::Unit => {} // We already handled these
+            Fields::Unit => {}
         }
     }
 
-- 
2.43.0

