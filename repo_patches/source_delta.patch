From bbd1d45dcdb3955f8bcbf55a849dd90065361bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:40 +0000
Subject: [PATCH 01/19] fix: compare and hash the last limb of bit vectors that
 end on a limb boundary

---
 src/bit_vec/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index fc2b4de..80a1b8f 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1525,6 +1525,13 @@ impl BitVec {
         (self, other)
     }
 
+    /// Mask for the bits of the last limb that belong to the vector. All bits of the limb do, if
+    /// the length is a multiple of the limb size.
+    #[inline]
+    fn last_limb_mask(&self) -> u64 {
+        u64::MAX >> ((WORD_SIZE - self.len % WORD_SIZE) % WORD_SIZE)
+    }
+
     /// Iterate through the u64 limbs of the bitvector.
     /// The limbs are encoded starting at the least significant bit (i.e., the first bit in the bit
     /// vector is the least significant bit in the first limb).
@@ -1606,7 +1613,7 @@ impl PartialEq for BitVec {
         }
 
         // in last limb, ignore junk data
-        let mask = (1 << (self.len % WORD_SIZE)) - 1;
+        let mask = self.last_limb_mask();
         if self.data[self.data.len() - 1] & mask != other.data[self.data.len() - 1] & mask {
             return false;
         }
@@ -1624,7 +1631,7 @@ impl Hash for BitVec {
             self.data[0..self.data.len() - 1]
                 .iter()
                 .for_each(|x| state.write_u64(*x));
-            let masked_last_limb = self.data.last().unwrap() & ((1 << (self.len % WORD_SIZE)) - 1);
+            let masked_last_limb = self.data.last().unwrap() & self.last_limb_mask();
             state.write_u64(masked_last_limb);
         }
     }
-- 
2.43.0


From 32f406466540a9ffdfe003c9524247326ef3f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:40 +0000
Subject: [PATCH 02/19] fix: appending zero bits to a bit vector must not add a
 limb

---
 src/bit_vec/mod.rs    | 8 ++++++++
 src/elias_fano/mod.rs | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index 80a1b8f..fc2ba83 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -911,6 +911,10 @@ impl BitVec {
     pub fn append_bits(&mut self, bits: u64, len: usize) {
         assert!(len <= 64, "Cannot append more than 64 bits");
 
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
@@ -948,6 +952,10 @@ impl BitVec {
     /// [`append_bits`]: BitVec::append_bits
     /// [`drop_last`]: BitVec::drop_last
     pub fn append_bits_unchecked(&mut self, bits: u64, len: usize) {
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
diff --git a/src/elias_fano/mod.rs b/src/elias_fano/mod.rs
index 0e0bd9a..d650767 100644
--- a/src/elias_fano/mod.rs
+++ b/src/elias_fano/mod.rs
@@ -123,6 +123,11 @@ impl EliasFanoVec {
             lower_vec.append_bits_unchecked(lower, lower_width);
         }
 
+        // queries read (and ignore) a limb of the lower vector even if elements have no lower bits
+        if lower_width == 0 {
+            lower_vec.append(false);
+        }
+
         Self {
             upper_vec: RsVec::from_bit_vec(upper_vec),
             lower_vec,
-- 
2.43.0


From 77d17347ce0b531d57fa87c707ea50a8fdd1b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:40 +0000
Subject: [PATCH 03/19] fix: out-of-range get_bits and unpack_element return
 None instead of overflowing

---
 src/bit_vec/fast_rs_vec/mod.rs | 5 ++++-
 src/bit_vec/mask.rs            | 2 +-
 src/bit_vec/mod.rs             | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 1d4ea69..8e40b7d 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -352,8 +352,11 @@ impl RsVec {
         if len > WORD_SIZE {
             return None;
         }
-        if pos + len > self.len {
+        if len > self.len || pos > self.len - len {
             None
+        } else if len == 0 {
+            // there might be no limb at `pos`
+            Some(0)
         } else {
             Some(self.get_bits_unchecked(pos, len))
         }
diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index 4669829..f59fdf4 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -112,7 +112,7 @@ where
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.vec.len {
+        if len > self.vec.len || pos > self.vec.len - len {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index fc2ba83..50b77af 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1174,7 +1174,7 @@ impl BitVec {
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.len {
+        if len > self.len || pos > self.len - len {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
@@ -1240,7 +1240,7 @@ impl BitVec {
     #[allow(clippy::inline_always)]
     #[inline(always)] // to gain optimization if n is constant
     pub fn unpack_element(&self, index: usize, n: usize) -> Option<u64> {
-        self.get_bits(index * n, n)
+        self.get_bits(index.checked_mul(n)?, n)
     }
 
     /// Extract a packed element from a bit vector. The element is encoded in the bits at the given
-- 
2.43.0


From 06d3acfde105a142a1e441e1b84bed1cf9ba8fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:40 +0000
Subject: [PATCH 04/19] fix: reading 64 unaligned bits from a masked bit vector

---
 src/bit_vec/mask.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index f59fdf4..e112413 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -156,7 +156,7 @@ where
                 self.mask.data[pos / WORD_SIZE + 1],
             ) << (WORD_SIZE - pos % WORD_SIZE);
 
-            (partial_word | next_half) & ((1 << (len % WORD_SIZE)) - 1)
+            (partial_word | next_half) & (u64::MAX >> (WORD_SIZE - len))
         }
     }
 
-- 
2.43.0


From 9ddec39a71c0911c793e87ca0e0cf6ebb4b86599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:01 +0000
Subject: [PATCH 05/19] fix: nth and nth_back behind the end consume the
 iterator, and do not overflow

---
 src/util/elias_fano_iter.rs | 14 +++++++++++---
 src/util/general_iter.rs    | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 646d3f4..6fc4e28 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -12,7 +12,7 @@ macro_rules! gen_ef_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
+                if self.len() < n {
                     if Some(self.index) > self.back_index {
                         Err(std::num::NonZeroUsize::new(n).unwrap())
                     } else {
@@ -113,7 +113,11 @@ macro_rules! gen_ef_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // skipping behind the end consumes the iterator
+                    self.advance_by(self.len()).ok()?;
+                    return None;
+                }
                 self.next()
             }
 
@@ -167,7 +171,11 @@ macro_rules! gen_ef_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // skipping behind the end consumes the iterator
+                    self.advance_back_by(self.len()).ok()?;
+                    return None;
+                }
                 self.next_back()
             }
         }
diff --git a/src/util/general_iter.rs b/src/util/general_iter.rs
index afc4c73..893c760 100644
--- a/src/util/general_iter.rs
+++ b/src/util/general_iter.rs
@@ -32,7 +32,7 @@ macro_rules! gen_vector_iter_impl {
                     return Ok(());
                 }
 
-                if Some(self.index + n - 1) > self.back_index {
+                if self.len() < n {
                     if Some(self.index) > self.back_index {
                         Err(std::num::NonZeroUsize::new(n).unwrap())
                     } else {
@@ -118,7 +118,11 @@ macro_rules! gen_vector_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_by(n).ok()?;
+                if self.advance_by(n).is_err() {
+                    // skipping behind the end consumes the iterator
+                    self.advance_by(self.len()).ok()?;
+                    return None;
+                }
                 self.next()
             }
         }
@@ -148,7 +152,11 @@ macro_rules! gen_vector_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-                self.advance_back_by(n).ok()?;
+                if self.advance_back_by(n).is_err() {
+                    // skipping behind the end consumes the iterator
+                    self.advance_back_by(self.len()).ok()?;
+                    return None;
+                }
                 self.next_back()
             }
         }
-- 
2.43.0


From 7f1a86c1c8aee5cf4dbe8adefa8a218f09b5017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:01 +0000
Subject: [PATCH 06/19] fix: last and max of Elias-Fano iterators return the
 element, not its offset from the first

---
 src/util/elias_fano_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 6fc4e28..a8f7fb4 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -107,7 +107,7 @@ macro_rules! gen_ef_iter_impl {
                 let lower = self
                     .vec
                     .get_bits_unchecked(self.back_index.unwrap() * self.lower_len, self.lower_len);
-                Some(((upper as u64) << self.lower_len) | lower)
+                Some((((upper as u64) << self.lower_len) | lower) + self.universe_zero)
             }
 
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
-- 
2.43.0


From d56eace44631941d84a7d9a3ab0f969f4d12b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:02 +0000
Subject: [PATCH 07/19] fix: nth_back of position iterators at and behind the
 front end

---
 src/bit_vec/fast_rs_vec/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/iter.rs b/src/bit_vec/fast_rs_vec/iter.rs
index e0d4fcf..1a348aa 100644
--- a/src/bit_vec/fast_rs_vec/iter.rs
+++ b/src/bit_vec/fast_rs_vec/iter.rs
@@ -348,11 +348,11 @@ macro_rules! gen_iter_impl {
             /// implementation in the double ended iterator impl.
             pub(super) fn advance_back_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
                 if self.len() >= n {
-                    self.next_rank_back = self.next_rank_back.map(|x| x - n);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(n));
                     Ok(())
                 } else {
                     let len = self.len();
-                    self.next_rank_back = self.next_rank_back.map(|x| x - len);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(len));
                     Err(NonZeroUsize::new(n - len).unwrap())
                 }
             }
-- 
2.43.0


From 0cc4761ca95ab13a8b4e603322aabb5f0041db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:02 +0000
Subject: [PATCH 08/19] fix: bit set iterators at the end of the vector

---
 src/bit_vec/fast_rs_vec/bitset.rs | 40 +++++++++----------------------
 1 file changed, 11 insertions(+), 29 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/bitset.rs b/src/bit_vec/fast_rs_vec/bitset.rs
index 00cb5e0..aab96d4 100644
--- a/src/bit_vec/fast_rs_vec/bitset.rs
+++ b/src/bit_vec/fast_rs_vec/bitset.rs
@@ -91,16 +91,21 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             cursor: 0,
         };
 
-        if vec.len() > VECTOR_SIZE {
-            iter.load_chunk(vec.get_bits_unchecked(0, VECTOR_SIZE) as u16);
+        if !vec.is_empty() {
+            iter.load_chunk();
         }
 
         iter
     }
 
-    fn load_chunk(&mut self, data: u16) {
+    /// Load the positions in the chunk at `base`, which must be within the vector. The last chunk
+    /// may be incomplete, the bits behind the end of the vector are ignored.
+    fn load_chunk(&mut self) {
         use std::arch::x86_64::{__mmask16, _mm512_mask_compressstoreu_epi32, _mm512_setr_epi32};
 
+        let chunk_len = VECTOR_SIZE.min(self.vec.len() - self.base);
+        let data = self.vec.get_bits_unchecked(self.base, chunk_len) as u16;
+
         unsafe {
             let offsets = _mm512_setr_epi32(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15);
             assert!(VECTOR_SIZE <= size_of::<u16>() * 8, "change data types");
@@ -108,6 +113,7 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             if ZERO {
                 mask = !mask;
             }
+            mask &= __mmask16::MAX >> (VECTOR_SIZE - chunk_len);
             _mm512_mask_compressstoreu_epi32(self.offsets.as_mut_ptr() as *mut _, mask, offsets);
             self.content_len = mask.count_ones() as u8;
             self.cursor = 0;
@@ -121,8 +127,7 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
             }
 
             self.base += VECTOR_SIZE;
-            let data = self.vec.get_bits_unchecked(self.base, VECTOR_SIZE) as u16;
-            self.load_chunk(data);
+            self.load_chunk();
         }
         Some(())
     }
@@ -132,30 +137,7 @@ impl<const ZERO: bool> Iterator for BitSetIter<'_, ZERO> {
     type Item = usize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.base >= self.vec.len() {
-            return None;
-        }
-
-        if self.cursor == self.content_len {
-            if self.load_next_chunk().is_none() {
-                if ZERO {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 0 {
-                        self.base += 1;
-                    }
-                } else {
-                    while self.base < self.vec.len() && self.vec.get_unchecked(self.base) != 1 {
-                        self.base += 1;
-                    }
-                }
-
-                return if self.base < self.vec.len() {
-                    self.base += 1;
-                    Some(self.base - 1)
-                } else {
-                    None
-                };
-            }
-        }
+        self.load_next_chunk()?;
 
         let offset = self.offsets[self.cursor as usize];
         self.cursor += 1;
-- 
2.43.0


From d71a86f21ae369aadce59aff3756dce57ac51d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:53 +0000
Subject: [PATCH 09/19] fix: unchecked access to bits before the first one-bit
 of a sparse vector

---
 src/bit_vec/sparse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bit_vec/sparse.rs b/src/bit_vec/sparse.rs
index bab1b9e..43635e1 100644
--- a/src/bit_vec/sparse.rs
+++ b/src/bit_vec/sparse.rs
@@ -149,7 +149,8 @@ impl SparseRSVec {
     /// [`is_set`]: #method.is_set
     #[must_use]
     pub fn is_set_unchecked(&self, i: u64) -> bool {
-        self.vec.predecessor_unchecked(i) == i
+        // if the predecessor is None, the bit is left of the first 1-bit
+        self.vec.predecessor(i).is_some_and(|p| p == i)
     }
 
     /// Returns true if the bit at position `i` is set.
@@ -160,8 +161,7 @@ impl SparseRSVec {
         if i >= self.len {
             None
         } else {
-            // if the predecessor is None, the bit is left of the first 1-bit
-            Some(self.vec.predecessor(i).is_some_and(|p| p == i))
+            Some(self.is_set_unchecked(i))
         }
     }
 
-- 
2.43.0


From 42e62d251d8281cbd91cf5caf119fc9e3e31e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:22 +0000
Subject: [PATCH 10/19] fix: range_min_with_range does not panic on empty
 ranges and extreme bounds

---
 src/rmq/binary_rmq/mod.rs | 6 +++---
 src/rmq/fast_rmq/mod.rs   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rmq/binary_rmq/mod.rs b/src/rmq/binary_rmq/mod.rs
index b6cfda3..246fe6e 100644
--- a/src/rmq/binary_rmq/mod.rs
+++ b/src/rmq/binary_rmq/mod.rs
@@ -124,17 +124,17 @@ impl BinaryRmq {
     pub fn range_min_with_range<T: RangeBounds<usize>>(&self, range: T) -> usize {
         let start = match range.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i + 1,
+            Bound::Excluded(i) => i.saturating_add(1),
             Bound::Unbounded => 0,
         }
         .clamp(0, self.len() - 1);
 
         let end = match range.end_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i - 1,
+            Bound::Excluded(i) => i.saturating_sub(1),
             Bound::Unbounded => self.len() - 1,
         }
-        .clamp(0, self.len() - 1);
+        .clamp(start, self.len() - 1);
         self.range_min(start, end)
     }
 
diff --git a/src/rmq/fast_rmq/mod.rs b/src/rmq/fast_rmq/mod.rs
index eb6d8ed..50a66de 100644
--- a/src/rmq/fast_rmq/mod.rs
+++ b/src/rmq/fast_rmq/mod.rs
@@ -171,17 +171,17 @@ impl FastRmq {
     pub fn range_min_with_range<T: RangeBounds<usize>>(&self, range: T) -> usize {
         let start = match range.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i + 1,
+            Bound::Excluded(i) => i.saturating_add(1),
             Bound::Unbounded => 0,
         }
         .clamp(0, self.len() - 1);
 
         let end = match range.end_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i - 1,
+            Bound::Excluded(i) => i.saturating_sub(1),
             Bound::Unbounded => self.len() - 1,
         }
-        .clamp(0, self.len() - 1);
+        .clamp(start, self.len() - 1);
         self.range_min(start, end)
     }
 
-- 
2.43.0


From 49120acf364c236f7fd1691db4b3430d2336b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:04 +0000
Subject: [PATCH 11/19] fix: forward search in an empty tree

---
 src/trees/bp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index c508966..554faf9 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -163,7 +163,7 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
     pub fn fwd_search(&self, index: usize, mut relative_excess: i64) -> Option<usize> {
         // check for greater than or equal length minus one, because the last element
         // won't ever have a result from fwd_search
-        if index >= (self.vec.len() - 1) {
+        if index >= self.vec.len().saturating_sub(1) {
             return None;
         }
 
-- 
2.43.0


From 8ae5435c321e8a8ac3a4f78d48cc744b5fcd00b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:04 +0000
Subject: [PATCH 12/19] fix: outermost nodes of a level in empty and
 single-node trees

---
 src/trees/bp/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 554faf9..9fd386c 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -706,7 +706,7 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     fn level_leftmost(&self, level: u64) -> Option<Self::NodeHandle> {
         // fwd_search doesn't support returning the input position
         if level == 0 {
-            return Some(0);
+            return self.root();
         }
 
         #[allow(clippy::cast_possible_wrap)]
@@ -715,9 +715,16 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     }
 
     fn level_rightmost(&self, level: u64) -> Option<Self::NodeHandle> {
+        let last_paren = (self.size() * 2).checked_sub(1)?;
+
+        // bwd_search doesn't support returning the input position
+        if level == 0 {
+            return self.open(last_paren);
+        }
+
         #[allow(clippy::cast_possible_wrap)]
         // if the level exceeds 2^63, we accept that the result is wrong
-        self.open(self.bwd_search(self.size() * 2 - 1, level as i64)?)
+        self.open(self.bwd_search(last_paren, level as i64)?)
     }
 }
 
-- 
2.43.0


From 47da626222470b1c45097c76e8bcd39c1578f49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:42 +0000
Subject: [PATCH 13/19] fix: backward search with block sizes that are not a
 multiple of the lookup width

---
 src/trees/bp/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 9fd386c..93bda37 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -314,7 +314,13 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
-        for i in (block_boundary..lookup_boundary)
+        // the boundary down to which we can use table lookups
+        let lower_lookup_boundary = min(
+            lookup_boundary,
+            block_boundary.next_multiple_of(LOOKUP_BLOCK_SIZE as usize),
+        );
+
+        for i in (lower_lookup_boundary..lookup_boundary)
             .step_by(LOOKUP_BLOCK_SIZE as usize)
             .rev()
         {
@@ -329,6 +335,17 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
+        // if the lower_lookup_boundary isn't the block_boundary (which happens if the block size isn't
+        // a multiple of the lookup block size)
+        for i in (block_boundary..lower_lookup_boundary).rev() {
+            let bit = self.vec.get_unchecked(i);
+            *relative_excess += if bit == 1 { 1 } else { -1 };
+
+            if *relative_excess == 0 {
+                return Ok(i);
+            }
+        }
+
         Err(())
     }
 
-- 
2.43.0


From 548ac0680ec94a4c3e8d4de90a56bcdfaec3ec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:33 +0000
Subject: [PATCH 14/19] fix: selecting a rank that overflows the position in
 the wavelet matrix

---
 src/wavelet/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 7a246ca..5e5af8c 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -786,7 +786,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if symbol.get_unchecked((self.bits_per_element() - 1) - level) == 0 {
@@ -866,7 +866,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if (symbol >> ((self.bits_per_element() - 1) - level)) & 1 == 0 {
-- 
2.43.0


From ad7ca48bee7895737d30dd110eab0cff5eb1fe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:41 +0000
Subject: [PATCH 15/19] fix: reversed ranges in wavelet matrix queries return
 None

---
 src/wavelet/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 5e5af8c..577a921 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -456,7 +456,8 @@ impl WaveletMatrix {
     /// [`BitVec`]: BitVec
     #[must_use]
     pub fn rank_range(&self, range: Range<usize>, symbol: &BitVec) -> Option<usize> {
-        if range.start >= self.len()
+        if range.start > range.end
+            || range.start >= self.len()
             || range.end > self.len()
             || symbol.len() != self.bits_per_element()
         {
@@ -518,7 +519,11 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn rank_range_u64(&self, range: Range<usize>, symbol: u64) -> Option<usize> {
-        if range.start >= self.len() || range.end > self.len() || self.bits_per_element() > 64 {
+        if range.start > range.end
+            || range.start >= self.len()
+            || range.end > self.len()
+            || self.bits_per_element() > 64
+        {
             None
         } else {
             Some(self.rank_range_u64_unchecked(range, symbol))
@@ -1103,7 +1108,7 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn quantile(&self, range: Range<usize>, k: usize) -> Option<BitVec> {
-        if range.start >= self.len() || range.end > self.len() || k >= range.end - range.start {
+        if range.start >= self.len() || range.end > self.len() || k >= range.len() {
             None
         } else {
             Some(self.quantile_unchecked(range, k))
@@ -1235,7 +1240,7 @@ impl WaveletMatrix {
         if range.start >= self.len()
             || range.end > self.len()
             || self.bits_per_element() > 64
-            || k >= range.end - range.start
+            || k >= range.len()
         {
             None
         } else {
-- 
2.43.0


From e2025d5f69f330f8ae351ec7c6003149bd3c3895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:47 +0000
Subject: [PATCH 16/19] fix: excess behind the end of the parenthesis
 expression is the total excess, as documented

---
 src/trees/bp/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 93bda37..d2656de 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -397,8 +397,8 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
     /// If `index` is out of bounds, the total excess of the parentheses expression is returned.
     #[must_use]
     pub fn excess(&self, index: usize) -> i64 {
-        debug_assert!(index < self.vec.len(), "Index out of bounds");
-        self.vec.rank1(index + 1) as i64 - self.vec.rank0(index + 1) as i64
+        let end = index.saturating_add(1);
+        self.vec.rank1(end) as i64 - self.vec.rank0(end) as i64
     }
 
     /// Iterate over the nodes of the tree.
-- 
2.43.0


From 72e5ce419495f81e4fe20caaf7879ed9e8301899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:53 +0000
Subject: [PATCH 17/19] fix: heap size of wavelet matrices includes the level
 descriptors

---
 src/wavelet/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 577a921..72a9a6b 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -2063,7 +2063,8 @@ impl WaveletMatrix {
     /// internal data structures.
     #[must_use]
     pub fn heap_size(&self) -> usize {
-        self.data.iter().map(RsVec::heap_size).sum::<usize>()
+        self.data.len() * mem::size_of::<RsVec>()
+            + self.data.iter().map(RsVec::heap_size).sum::<usize>()
     }
 }
 
-- 
2.43.0


From f0d1d6263d837ab391f0d164734908f68de40b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:54 +0000
Subject: [PATCH 18/19] fix: let the super block search of select1 advance its
 lower bound

The binary search compared the rank with the ones before the middle super block plus a whole
super block, which is never met by sparse ones. The search then degenerated into a linear scan
of super blocks, so the documented logarithmic worst case did not hold.
---
 src/bit_vec/fast_rs_vec/select.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vec/fast_rs_vec/select.rs b/src/bit_vec/fast_rs_vec/select.rs
index b8721d7..24d3310 100644
--- a/src/bit_vec/fast_rs_vec/select.rs
+++ b/src/bit_vec/fast_rs_vec/select.rs
@@ -391,7 +391,7 @@ impl super::RsVec {
         while upper_bound - super_block > 8 {
             let middle = super_block + ((upper_bound - super_block) >> 1);
             // using select_unpredictable does nothing here, likely because the search isn't hot
-            if ((middle + 1) * SUPER_BLOCK_SIZE - self.super_blocks[middle].zeros) <= rank {
+            if (middle * SUPER_BLOCK_SIZE - self.super_blocks[middle].zeros) <= rank {
                 super_block = middle;
             } else {
                 upper_bound = middle;
-- 
2.43.0


From a5e0fb17d5e38373f80d34415872401506a40c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:06 +0000
Subject: [PATCH 19/19] fix: bound the super block search of select behind the
 last sample by the last super block

The dummy select block repeated the index of the last sample, so the binary search for all ranks
behind that sample was empty and the super blocks up to the end were scanned linearly. In a long
vector with fewer than 8192 ones (or zeros), that is every query.
---
 src/bit_vec/fast_rs_vec/mod.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 8e40b7d..b4fc971 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -190,30 +190,27 @@ impl RsVec {
             current_zeros += new_zeros;
         }
 
-        // insert dummy select blocks at the end that just report the same index like the last real
-        // block, so the bound check for binary search doesn't overflow
-        // this is technically the incorrect value, but since all valid queries will be smaller,
-        // this will only tell select to stay in the current super block, which is correct.
-        // we cannot use a real value here, because this would change the size of the super-block
+        // insert dummy select blocks at the end that report the last super block, so the bound check
+        // for binary search doesn't overflow, and the search for ranks behind the last real block
+        // covers all remaining super blocks.
+        let last_super_block = super_blocks.len().saturating_sub(1);
         if last_zero_select_block == select_blocks.len() - 1 {
             select_blocks.push(SelectSuperBlockDescriptor {
-                index_0: select_blocks[last_zero_select_block].index_0,
+                index_0: last_super_block,
                 index_1: 0,
             });
         } else {
             debug_assert!(select_blocks[last_zero_select_block + 1].index_0 == 0);
-            select_blocks[last_zero_select_block + 1].index_0 =
-                select_blocks[last_zero_select_block].index_0;
+            select_blocks[last_zero_select_block + 1].index_0 = last_super_block;
         }
         if last_one_select_block == select_blocks.len() - 1 {
             select_blocks.push(SelectSuperBlockDescriptor {
                 index_0: 0,
-                index_1: select_blocks[last_one_select_block].index_1,
+                index_1: last_super_block,
             });
         } else {
             debug_assert!(select_blocks[last_one_select_block + 1].index_1 == 0);
-            select_blocks[last_one_select_block + 1].index_1 =
-                select_blocks[last_one_select_block].index_1;
+            select_blocks[last_one_select_block + 1].index_1 = last_super_block;
         }
 
         total_zeros += current_zeros;
-- 
2.43.0

