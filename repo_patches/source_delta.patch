From 190519880001c45583a5e4ecc2c588d36a0d6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 01/10] fix: return an error instead of panicking for a cell
 offset of 0xFFFFFFFF

---
 src/hive.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index a6db2db..c2341ba 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -113,9 +113,6 @@ where
     }
 
     pub(crate) fn cell_range_from_data_offset(&self, data_offset: u32) -> Result<Range<usize>> {
-        // Only valid data offsets are accepted here.
-        assert!(data_offset != u32::MAX);
-
         // Accept only u32 data offsets, but convert them into usize right away for
         // slice range operations and fearless calculations.
         let data_offset = data_offset as usize;
-- 
2.43.0


From d1744a9831615c831425da876f2d7fb40c658571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 02/10] fix: return an error for a cell size of 0 instead of
 underflowing

---
 src/hive.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index c2341ba..7d89f9e 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -152,7 +152,13 @@ where
 
         // Get the actual data range and verify that it's inside our hive data.
         let remaining_range = cell_data_offset..self.data.len();
-        let cell_data_size = cell_size - mem::size_of::<CellHeader>();
+        let cell_data_size = cell_size
+            .checked_sub(mem::size_of::<CellHeader>())
+            .ok_or_else(|| NtHiveError::InvalidSizeField {
+                offset: self.offset_of_field(&header.size),
+                expected: mem::size_of::<CellHeader>(),
+                actual: cell_size,
+            })?;
         let cell_data_range = byte_subrange(&remaining_range, cell_data_size).ok_or_else(|| {
             NtHiveError::InvalidSizeField {
                 offset: self.offset_of_field(&header.size),
-- 
2.43.0


From b53351b62440b0488df8c42521c1ab18e9a5d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 03/10] fix: report an invalid base block signature instead of
 panicking

---
 src/hive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index 7d89f9e..0a1f843 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -179,7 +179,7 @@ where
         let field_address = field as *const T as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
-        assert!(field_address > base_address);
+        assert!(field_address >= base_address);
         field_address - base_address
     }
 
-- 
2.43.0


From 694e4ce9ee6d0d390fb897113d00d0f67583748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 04/10] fix: report the offset of the value data instead of the
 address of a local

---
 src/hive.rs      | 4 ++--
 src/key_value.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 0a1f843..2ef86ed 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -175,8 +175,8 @@ where
     /// Note that this function primarily exists to provide absolute hive file offsets when reporting errors.
     /// It cannot be used to index into the hive bytes, because they are initially split into `base_block`
     /// and `data`.
-    pub(crate) fn offset_of_field<T>(&self, field: &T) -> usize {
-        let field_address = field as *const T as usize;
+    pub(crate) fn offset_of_field<T: ?Sized>(&self, field: &T) -> usize {
+        let field_address = field as *const T as *const u8 as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
         assert!(field_address >= base_address);
diff --git a/src/key_value.rs b/src/key_value.rs
index 1cde3b9..d54fb10 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -267,7 +267,7 @@ where
             // DWORD data must be exactly 4 bytes long.
             if data.len() != mem::size_of::<u32>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u32>(),
                     actual: data.len(),
                 });
@@ -329,7 +329,7 @@ where
             // QWORD data must be exactly 8 bytes long.
             if data.len() != mem::size_of::<u64>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u64>(),
                     actual: data.len(),
                 });
-- 
2.43.0


From f72a7bd74248192b01527595d38f9366d5ed2ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 05/10] fix: exhaust list iterators when nth skips past the end
 with an overflow

---
 src/big_data.rs        | 6 +++---
 src/index_root.rs      | 4 ++--
 src/key_values_list.rs | 8 ++++----
 src/leaf.rs            | 8 ++++----
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index a015deb..850f094 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -169,8 +169,8 @@ impl Iterator for BigDataListItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<BigDataListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<BigDataListItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -267,7 +267,7 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(BIG_DATA_SEGMENT_SIZE)?;
+        let bytes_to_skip = n.saturating_mul(BIG_DATA_SEGMENT_SIZE);
         self.bytes_left = self.bytes_left.saturating_sub(bytes_to_skip);
         if self.bytes_left == 0 {
             return None;
diff --git a/src/index_root.rs b/src/index_root.rs
index c93682c..9ca2a12 100644
--- a/src/index_root.rs
+++ b/src/index_root.rs
@@ -97,8 +97,8 @@ impl Iterator for IndexRootItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<IndexRootItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<IndexRootItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index 0db5d85..a8cba2a 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -98,8 +98,8 @@ impl Iterator for KeyValuesListItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<KeyValuesListItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -172,12 +172,12 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<KeyValuesListItem>());
         self.key_values_list_item_ranges.items_range.start = self
             .key_values_list_item_ranges
             .items_range
             .start
-            .checked_add(bytes_to_skip)?;
+            .saturating_add(bytes_to_skip);
         self.next()
     }
 
diff --git a/src/leaf.rs b/src/leaf.rs
index b347910..88f41cb 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -205,8 +205,8 @@ impl Iterator for LeafItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_type.item_size())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(self.leaf_type.item_size());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -287,12 +287,12 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_item_ranges.leaf_type.item_size())?;
+        let bytes_to_skip = n.saturating_mul(self.leaf_item_ranges.leaf_type.item_size());
         self.leaf_item_ranges.items_range.start = self
             .leaf_item_ranges
             .items_range
             .start
-            .checked_add(bytes_to_skip)?;
+            .saturating_add(bytes_to_skip);
         self.next()
     }
 
-- 
2.43.0


From 950676ec6a1f1b85587aff333e5fa07d241a61fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 06/10] fix: report the number of big data slices that are
 really returned

---
 src/big_data.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index 850f094..09d4ae7 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -253,7 +253,8 @@ where
     }
 
     fn count(self) -> usize {
-        self.big_data_list_item_ranges.count()
+        let (size, _) = self.size_hint();
+        size
     }
 
     fn last(mut self) -> Option<Self::Item> {
@@ -281,7 +282,9 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.big_data_list_item_ranges.size_hint()
+        // The segment list may have more items than are needed for the data.
+        let size = self.bytes_left.div_ceil(BIG_DATA_SEGMENT_SIZE);
+        (size, Some(size))
     }
 }
 
-- 
2.43.0


From bd80e6ff63cd3756b672187b593774606fe32670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 07/10] fix: do not return a value with an unreadable name for
 every searched name

---
 src/key_node.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/key_node.rs b/src/key_node.rs
index 4d604e5..5bcc9f9 100644
--- a/src/key_node.rs
+++ b/src/key_node.rs
@@ -357,21 +357,19 @@ impl KeyNodeItemRange {
     where
         B: SplitByteSlice,
     {
-        let mut values = iter_try!(self.values(hive)?);
+        let values = iter_try!(self.values(hive)?);
 
         // Key Values are not sorted, so we can only iterate until we find a match.
-        values.find(|key_value| {
-            let key_value = match key_value {
-                Ok(key_value) => key_value,
-                Err(_) => return true,
-            };
-            let key_value_name = match key_value.name() {
-                Ok(name) => name,
-                Err(_) => return true,
-            };
-
-            key_value_name == name
-        })
+        for key_value in values {
+            let key_value = iter_try!(key_value);
+            let key_value_name = iter_try!(key_value.name());
+
+            if key_value_name == name {
+                return Some(Ok(key_value));
+            }
+        }
+
+        None
     }
 
     fn values<'h, B>(&self, hive: &'h Hive<B>) -> Option<Result<KeyValues<'h, B>>>
-- 
2.43.0


From 5e6ba8d363b2c602d91e5fc5da10a69a27cbfa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 08/10] fix: keep returning None after the end of a
 REG_MULTI_SZ list

---
 src/key_value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key_value.rs b/src/key_value.rs
index d54fb10..52e3d92 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -528,6 +528,9 @@ where
         }
 
         if string.is_empty() {
+            // An empty string terminates the list. Make sure that we never continue behind it.
+            self.char_iter = None;
+            self.big_iter = None;
             None
         } else {
             Some(Ok(string))
-- 
2.43.0


From 0e1039d32f5be6a6f98a6cf9b37dc6abca96e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 09/10] fix: decode surrogate pairs of REG_SZ data across a
 segment boundary

---
 src/key_value.rs | 47 ++++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index 52e3d92..d39519b 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -207,36 +207,33 @@ where
         I: Iterator<Item = Result<&'h [u8]>>,
     {
         let mut string = String::new();
+        let mut error = None;
 
         // A very long REG_SZ / REG_EXPAND_SZ value may be split over several Big Data segments.
-        // Transparently concatenate them in the output string.
-        for slice_data in iter {
-            let slice_data = slice_data?;
-
-            let u16_iter = slice_data
-                .chunks_exact(2)
-                .map(|two_bytes| u16::from_le_bytes(two_bytes.try_into().unwrap()));
-
-            // You hardly find emojis or other characters outside the UTF-16 Basic Multilingual Plane in registry data.
-            // Hence, the count of UTF-16 code points is a good estimate for the final string length.
-            string.reserve(u16_iter.len());
-
-            // Interpret the u16 chunks as UTF-16 code points for characters. Replace undecodable ones silently.
-            let char_iter =
-                char::decode_utf16(u16_iter).map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
-
-            for c in char_iter {
-                // Some applications erroneously store NUL-terminated strings in the registry.
-                // To cope with that, we either stop at the first NUL character or when no more characters are left, whatever comes first.
-                if c == '\0' {
-                    return Ok(string);
-                } else {
-                    string.push(c);
-                }
+        // Transparently concatenate them before decoding, as a surrogate pair may cross a segment boundary.
+        let u16_iter = iter
+            .map_while(|slice_data| slice_data.map_err(|e| error = Some(e)).ok())
+            .flat_map(|slice_data| slice_data.chunks_exact(2))
+            .map(|two_bytes| u16::from_le_bytes(two_bytes.try_into().unwrap()));
+
+        // Interpret the u16 chunks as UTF-16 code points for characters. Replace undecodable ones silently.
+        let char_iter =
+            char::decode_utf16(u16_iter).map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
+
+        for c in char_iter {
+            // Some applications erroneously store NUL-terminated strings in the registry.
+            // To cope with that, we either stop at the first NUL character or when no more characters are left, whatever comes first.
+            if c == '\0' {
+                return Ok(string);
+            } else {
+                string.push(c);
             }
         }
 
-        Ok(string)
+        match error {
+            Some(e) => Err(e),
+            None => Ok(string),
+        }
     }
 
     /// Checks if this is a `REG_SZ` or `REG_EXPAND_SZ` Key Value
-- 
2.43.0


From 1bcc88d6bb49ca45ff6940cd2323b0745a1df4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 10/10] fix: decode surrogate pairs of REG_MULTI_SZ data across
 a segment boundary

---
 src/key_value.rs | 98 +++++++++++++++++++++++-------------------------
 1 file changed, 46 insertions(+), 52 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index d39519b..3fd5cd6 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -23,7 +23,7 @@ use crate::string::NtHiveNameString;
 use {
     alloc::{string::String, vec::Vec},
     core::{
-        char::{self, DecodeUtf16, DecodeUtf16Error},
+        char,
         iter::{self, FusedIterator, Map},
         slice::ChunksExact,
     },
@@ -425,10 +425,7 @@ where
 impl<B> Eq for KeyValue<'_, B> where B: SplitByteSlice {}
 
 #[cfg(feature = "alloc")]
-type RegMultiSZCharIter<'h> = Map<
-    DecodeUtf16<Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>>,
-    fn(Result<char, DecodeUtf16Error>) -> char,
->;
+type RegMultiSZU16Iter<'h> = Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>;
 
 #[cfg(feature = "alloc")]
 #[derive(Clone)]
@@ -436,7 +433,7 @@ pub struct RegMultiSZStrings<'h, B>
 where
     B: SplitByteSlice + 'h,
 {
-    char_iter: Option<RegMultiSZCharIter<'h>>,
+    u16_iter: Option<RegMultiSZU16Iter<'h>>,
     big_iter: Option<BigDataSlices<'h, B>>,
 }
 
@@ -447,33 +444,38 @@ where
 {
     fn small(data: &'h [u8]) -> Self {
         Self {
-            char_iter: Some(Self::make_char_iter(data)),
+            u16_iter: Some(Self::make_u16_iter(data)),
             big_iter: None,
         }
     }
 
     fn big(iter: BigDataSlices<'h, B>) -> Self {
         Self {
-            char_iter: None,
+            u16_iter: None,
             big_iter: Some(iter),
         }
     }
 
-    fn make_char_iter(slice_data: &'h [u8]) -> RegMultiSZCharIter<'h> {
-        let u16_iter = slice_data
+    fn make_u16_iter(slice_data: &'h [u8]) -> RegMultiSZU16Iter<'h> {
+        slice_data
             .chunks_exact(2)
-            .map(Self::u16_from_le_bytes as fn(&[u8]) -> u16);
-        char::decode_utf16(u16_iter).map(
-            Self::unwrap_or_replacement_character as fn(Result<char, DecodeUtf16Error>) -> char,
-        )
+            .map(Self::u16_from_le_bytes as fn(&[u8]) -> u16)
     }
 
-    fn u16_from_le_bytes(two_bytes: &[u8]) -> u16 {
-        u16::from_le_bytes(two_bytes.try_into().unwrap())
+    /// Returns the next UTF-16 code unit, transparently proceeding to the next Big Data slice.
+    fn next_u16(&mut self) -> Option<Result<u16>> {
+        loop {
+            if let Some(unit) = self.u16_iter.as_mut().and_then(|iter| iter.next()) {
+                return Some(Ok(unit));
+            }
+
+            let slice_data = iter_try!(self.big_iter.as_mut()?.next()?);
+            self.u16_iter = Some(Self::make_u16_iter(slice_data));
+        }
     }
 
-    fn unwrap_or_replacement_character(input: Result<char, DecodeUtf16Error>) -> char {
-        input.unwrap_or(char::REPLACEMENT_CHARACTER)
+    fn u16_from_le_bytes(two_bytes: &[u8]) -> u16 {
+        u16::from_le_bytes(two_bytes.try_into().unwrap())
     }
 }
 
@@ -487,46 +489,38 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let mut string = String::new();
 
-        'outer_loop: loop {
-            let char_iter = match self.char_iter.as_mut() {
-                Some(char_iter) => char_iter,
-                None => {
-                    let big_iter = match self.big_iter.as_mut() {
-                        Some(big_iter) => big_iter,
-                        None => break 'outer_loop,
-                    };
-                    let slice_data = match big_iter.next() {
-                        Some(Ok(slice_data)) => slice_data,
-                        Some(Err(e)) => return Some(Err(e)),
-                        None => break 'outer_loop,
-                    };
-                    let char_iter = Self::make_char_iter(slice_data);
-                    self.char_iter = Some(char_iter);
-                    continue 'outer_loop;
-                }
-            };
-
-            for c in char_iter {
-                // REG_MULTI_SZ data consists of multiple strings each terminated by a NUL character.
-                // The final string has a double-NUL termination.
-                //
-                // However, we will happily accept data without terminating NUL characters as well.
-                if c == '\0' {
-                    break 'outer_loop;
-                } else {
-                    string.push(c);
-                }
+        let mut error = None;
+
+        // Big Data slices are concatenated before decoding, as a surrogate pair may cross a slice boundary.
+        let u16_iter = iter::from_fn(|| match self.next_u16()? {
+            Ok(unit) => Some(unit),
+            Err(e) => {
+                error = Some(e);
+                None
             }
+        });
+        let char_iter =
+            char::decode_utf16(u16_iter.fuse()).map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
+
+        for c in char_iter {
+            // REG_MULTI_SZ data consists of multiple strings each terminated by a NUL character.
+            // The final string has a double-NUL termination.
+            //
+            // However, we will happily accept data without terminating NUL characters as well.
+            if c == '\0' {
+                break;
+            } else {
+                string.push(c);
+            }
+        }
 
-            // We have fully iterated all characters of this slice.
-            // Get a new `char_iter` in the next iteration of the outer loop, and concatenate characters
-            // to our `string` until we find a NUL or no more data.
-            self.char_iter = None;
+        if let Some(e) = error {
+            return Some(Err(e));
         }
 
         if string.is_empty() {
             // An empty string terminates the list. Make sure that we never continue behind it.
-            self.char_iter = None;
+            self.u16_iter = None;
             self.big_iter = None;
             None
         } else {
-- 
2.43.0

