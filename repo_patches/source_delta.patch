From 9259f1be0965bcef7253c5155401dc0b02f83180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 01/40] fix: encode i64 values outside the short range in full

The short-range test used || and was always true, so every i64 was
truncated to 16 bits (and i16 values out of range recursed forever).
fleece_size counted trailing instead of leading bits.
---
 src/encoder/encodable.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index ced817f..acb169c 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -31,7 +31,7 @@ impl Encodable for i64 {
     #[allow(clippy::cast_possible_truncation)]
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
         // If this is small enough, store it as a short
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             #[allow(clippy::cast_possible_truncation)]
             return (*self as i16).write_fleece_to(buf, is_wide);
         }
@@ -46,18 +46,21 @@ impl Encodable for i64 {
     }
 
     fn fleece_size(&self) -> usize {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             return 2;
         }
-        if *self >= 0 {
-            8 - self.trailing_zeros() as usize + 1
+        // The number of bytes needed to hold the value, including at least one sign bit.
+        let sign_bits = if *self >= 0 {
+            self.leading_zeros()
         } else {
-            8 - self.trailing_ones() as usize + 1
-        }
+            self.leading_ones()
+        };
+        let byte_count = 8 - (sign_bits as usize - 1) / 8;
+        byte_count + 1
     }
     #[allow(clippy::cast_possible_truncation)]
     fn to_sized_value(&self) -> Option<SizedValue> {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             (*self as i16).to_sized_value()
         } else {
             None
-- 
2.43.0


From 82499e1c313dab87400fcd1043f1987855fe288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 02/40] fix: size u64 values by their leading zero bytes

fleece_size dropped high bytes of values with trailing zero bits.
---
 src/encoder/encodable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index acb169c..9d8b3e7 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -91,8 +91,8 @@ impl Encodable for u64 {
         if *self <= 2047 {
             2
         } else {
-            let trailing_zeros = (self.trailing_zeros() + 7) / 8;
-            8 - trailing_zeros as usize + 1
+            let leading_zero_bytes = self.leading_zeros() as usize / 8;
+            8 - leading_zero_bytes + 1
         }
     }
 
-- 
2.43.0


From c374c25a55b6d403fa97b85aaebb5fd699812467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 03/40] fix: announce the full size of u16 and i16 values
 outside the short range

write_value panicked on them because the size was always 2.
---
 src/encoder/encodable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 9d8b3e7..9006edd 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -246,7 +246,7 @@ impl Encodable for u16 {
     }
 
     fn fleece_size(&self) -> usize {
-        2
+        u64::from(*self).fleece_size()
     }
 
     fn to_sized_value(&self) -> Option<SizedValue> {
@@ -273,7 +273,7 @@ impl Encodable for i16 {
     }
 
     fn fleece_size(&self) -> usize {
-        2
+        i64::from(*self).fleece_size()
     }
 
     fn to_sized_value(&self) -> Option<SizedValue> {
-- 
2.43.0


From 3782f1e611e6ff37cd33d0ee51fe655e8b5d55c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 04/40] fix: sign-extend signed integers stored in fewer than 8
 bytes

---
 src/value/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 080b457..0fa6217 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -274,7 +274,14 @@ impl Value {
                         count,
                     );
                 }
-                i64::from_le_bytes(buf)
+                let int = i64::from_le_bytes(buf);
+                if self.value_type() == ValueType::Int {
+                    // Signed ints are stored in as few bytes as possible, so sign extend them.
+                    let shift = 64 - 8 * count;
+                    (int << shift) >> shift
+                } else {
+                    int
+                }
             }
             ValueType::Float | ValueType::Double32 | ValueType::Double64 => self.to_double() as i64,
             _ => 0,
-- 
2.43.0


From afe9ec05ad94015dc6763450441331db243fb256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 05/40] fix: keep the type tag of inline values in narrow
 collections

Clearing bit 0x40 turned inline strings, data and one-character keys
into other kinds of value.
---
 src/encoder/encodable.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 9006edd..1783995 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -611,7 +611,6 @@ impl Encodable for SizedValue {
                 return None;
             }
             buf[0..2].copy_from_slice(&self.as_bytes()[..2]);
-            buf[0] &= 0xBF;
             unsafe { Some(NonZeroUsize::new_unchecked(2)) }
         }
     }
-- 
2.43.0


From 6ea0222af9152fd003da77330c63997b2a208a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 06/40] fix: choose a wide collection by the offsets its
 elements will have

The decision ignored the header and the elements written before each
pointer, so an offset just beyond the narrow limit was written as four
bytes into a narrow collection. The dictionary check also compared the
wrong distance for keys.
---
 src/encoder/mod.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 224b337..dee1260 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -245,14 +245,14 @@ impl Encoder {
             unreachable!()
         };
 
+        dict.values
+            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
+
         let is_wide = self._dict_should_be_wide(&dict);
 
         // Write the Dict header via `Encodable` trait
         let offset = self._write(&dict, is_wide, true);
 
-        dict.values
-            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
-
         self._fix_dict_pointers(&mut dict, is_wide);
 
         for elem in &dict.values {
@@ -423,36 +423,46 @@ impl Encoder {
     }
 
     fn _array_should_be_wide(&self, array: &value_stack::Array) -> bool {
+        let mut pos = self._first_elem_pos(array);
         for v in &array.values {
             if v.value_type() == ValueType::Pointer
-                && v.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && v.actual_pointer_offset(pos) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
+            pos += 2;
         }
         false
     }
 
     // Only Pointer might require more than 2 bytes, if any do then the whole dict needs to be wide
+    // The elements must already be in the order they will be written in.
     fn _dict_should_be_wide(&self, dict: &value_stack::Dict) -> bool {
-        let mut len = self.out.len();
+        let mut pos = self._first_elem_pos(dict);
         for elem in &dict.values {
             if let DictKey::Pointer(_, offset) = &elem.key {
-                let offset = len - *offset as usize;
-                if len - offset > pointer::MAX_NARROW as usize {
+                if pos - *offset as usize > pointer::MAX_NARROW as usize {
                     return true;
                 }
             }
+            pos += 2;
             if elem.val.value_type() == ValueType::Pointer
-                && elem.val.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && elem.val.actual_pointer_offset(pos) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
-            len += 2;
+            pos += 2;
         }
         false
     }
 
+    // The position at which the first element of a collection will be written, when the header is
+    // written next.
+    fn _first_elem_pos<T: Encodable>(&self, header: &T) -> usize {
+        let header_size = header.fleece_size();
+        self.out.len() + header_size + header_size % 2
+    }
+
     fn _fix_array_pointers(&self, array: &mut value_stack::Array, is_wide: bool) {
         #[allow(clippy::cast_possible_truncation)]
         let mut len = self.out.len() as u32;
-- 
2.43.0


From 9ea26b3c390aa183cc88a564726672a45d5b8add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 07/40] fix: end_array leaves an open dictionary alone when it
 refuses

It popped and dropped the dictionary before returning ArrayNotOpen.
---
 src/encoder/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index dee1260..07b2c4a 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -196,6 +196,10 @@ impl Encoder {
     /// - If there is no open collection.
     /// - If the top open collection is not an Array.
     pub fn end_array(&mut self) -> Result<()> {
+        // Can only end an array if the top collection is an array
+        if !matches!(self.collection_stack.top(), Some(Collection::Array(_))) {
+            return Err(EncodeError::ArrayNotOpen);
+        }
         let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
             return Err(EncodeError::ArrayNotOpen);
         };
-- 
2.43.0


From 3fb759a08b498f5ca5b7501b5480ee55c39dab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 08/40] fix: align an encoder started on an odd-sized buffer

---
 src/encoder/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 07b2c4a..ea1fd14 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -71,7 +71,11 @@ impl Encoder {
     }
 
     #[must_use]
-    pub fn new_to_vec(out: Vec<u8>) -> Self {
+    pub fn new_to_vec(mut out: Vec<u8>) -> Self {
+        // Values are always written at even offsets
+        if out.len() % 2 != 0 {
+            out.push(0);
+        }
         Self {
             out,
             shared_keys: None,
-- 
2.43.0


From f0ff301cb4c4ebb11dd34f678fc173524ab4f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 09/40] fix: Array::get returns None for the index equal to the
 length

---
 src/value/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 03a39a8..57cfc70 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -62,7 +62,7 @@ impl Array {
 
     #[must_use]
     pub fn get(&self, index: usize) -> Option<&Value> {
-        if index > self.len() {
+        if index >= self.len() {
             return None;
         }
 
-- 
2.43.0


From fca256ad7a086071cb45a1fd76ad9b94f88f9c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 10/40] fix: reject varints longer than 64 bits instead of
 overflowing the shift

---
 src/value/varint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/value/varint.rs b/src/value/varint.rs
index d0ed50c..831b644 100644
--- a/src/value/varint.rs
+++ b/src/value/varint.rs
@@ -12,7 +12,7 @@ pub fn read(data: &[u8]) -> (usize, u64) {
 
     let mut shift: usize = 7;
     let mut res = u64::from(data[0] & 0x7F);
-    let end: usize = data.len().min(MAX_LEN + 1);
+    let end: usize = data.len().min(MAX_LEN);
 
     for (i, byte) in data[1..end].iter().enumerate() {
         if *byte >= 0x80 {
@@ -20,8 +20,8 @@ pub fn read(data: &[u8]) -> (usize, u64) {
             shift += 7;
         } else {
             res |= u64::from(*byte) << shift;
-            // Make sure the varint is below the max length
-            if i == MAX_LEN && *byte > 1 {
+            // Make sure the varint fits in 64 bits, `i` starts from the second byte
+            if i + 2 == MAX_LEN && *byte > 1 {
                 return (0, 0);
             }
             return (i + 2, res);
-- 
2.43.0


From 4caf6ef352e3693478d928b5d090c99e43e5cea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 11/40] fix: refuse strings and data which do not fit, instead
 of panicking

required_size sliced the contents before checking that they are there,
and assumed that the length varint is as short as possible.
---
 src/value/mod.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 0fa6217..5f4fc5b 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -395,7 +395,7 @@ impl Value {
                 // We don't need to validate that array elements fit within the data, as
                 // Array::validate already does that. This improves benchmark performance by ~15%.
                 if IS_ARR_ELEM
-                    || self.bytes.as_ptr() as usize + self.required_size() <= data_end as usize
+                    || self.required_size() <= data_end as usize - self.bytes.as_ptr() as usize
                 {
                     Ok(())
                 } else {
@@ -424,11 +424,17 @@ impl Value {
             ValueType::Float | ValueType::Double32 => 6,
             ValueType::Double64 => 10,
             ValueType::String | ValueType::Data => {
-                let len = self._get_data().len();
-                match len {
-                    0 | 1 => 2,
-                    2..=0x0E => 1 + len,
-                    _ => 1 + varint::size_required(len as u64) + len,
+                let inline_size = (self.bytes[0] & 0x0F) as usize;
+                if inline_size == 0x0F {
+                    match varint::read(self.bytes.get(1..).unwrap_or(&[])) {
+                        // Malformed varint, this value can't fit anywhere
+                        (0, _) => usize::MAX,
+                        (bytes_read, size) => usize::try_from(size)
+                            .unwrap_or(usize::MAX)
+                            .saturating_add(1 + bytes_read),
+                    }
+                } else {
+                    (1 + inline_size).max(2)
                 }
             }
             // TODO: This is not correct for MutableArray / MutableDict
@@ -526,11 +532,11 @@ impl Value {
                 return &[];
             }
             #[allow(clippy::cast_possible_truncation)]
-            let end = 1 + bytes_read + size as usize;
-            &self.bytes[1 + bytes_read..end]
+            let end = (size as usize).saturating_add(1 + bytes_read);
+            self.bytes.get(1 + bytes_read..end).unwrap_or(&[])
         } else {
             let end = 1 + inline_size as usize;
-            &self.bytes[1..end]
+            self.bytes.get(1..end).unwrap_or(&[])
         }
     }
 
-- 
2.43.0


From f482be9645030a4a8ead57b87eb390c6dd7f47e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 12/40] fix: refuse collections with an impossible element
 count

The size computation could overflow and wrap past the bounds check (or
panic), and a malformed count varint was read as an empty collection.
---
 src/value/array.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 57cfc70..8859580 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -130,7 +130,7 @@ impl Array {
             if read == 0 {
                 0
             } else if self.value.value_type() == ValueType::Dict {
-                size as usize * 2
+                (size as usize).saturating_mul(2)
             } else {
                 size as usize
             }
@@ -173,6 +173,12 @@ impl Array {
 
 // Validation
 impl Array {
+    // The header says that a varint count follows, but there isn't a valid one.
+    fn has_malformed_count(&self) -> bool {
+        self.value._get_short() & VARINT_COUNT == VARINT_COUNT
+            && varint::read(&self.value.bytes[2..]).0 == 0
+    }
+
     // I found a 10 percent performance improvement on `benches::decode_people` with inline(never)
     // for this function. I think the function is heavier than the compiler assumes.
     #[inline(never)]
@@ -181,9 +187,10 @@ impl Array {
         let width: usize = if is_wide { 4 } else { 2 };
         let elem_count = self.len();
 
-        let first = unsafe { self.value.bytes.as_ptr().add(self.first_pos()) };
-        if (first as usize) + (elem_count * width) > (data_end as usize) {
-            let available_size = data_end as usize - first as usize;
+        let first_pos = self.first_pos();
+        let available_size =
+            (data_end as usize - self.value.bytes.as_ptr() as usize).saturating_sub(first_pos);
+        if self.has_malformed_count() || elem_count > available_size / width {
             return Err(DecodeError::ArrayOutOfBounds {
                 count: elem_count,
                 width,
@@ -191,7 +198,7 @@ impl Array {
             });
         }
 
-        let mut current = first;
+        let mut current = unsafe { self.value.bytes.as_ptr().add(first_pos) };
 
         for _ in 0..elem_count {
             let next = unsafe { current.add(width) };
-- 
2.43.0


From 55b6c2d9c3f95be75d372183711524968627effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 13/40] fix: refuse external pointers with an error instead of
 panicking

---
 src/value/pointer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/value/pointer.rs b/src/value/pointer.rs
index 679bf05..859de09 100644
--- a/src/value/pointer.rs
+++ b/src/value/pointer.rs
@@ -33,13 +33,16 @@ impl Pointer {
         }
 
         // First get the pointer given by offset, so we can validate before de-referencing
-        #[allow(clippy::cast_possible_wrap)]
-        let target_ptr = unsafe { self.offset(-(offset as isize)) };
+        let target_ptr = self.value.bytes.as_ptr().wrapping_sub(offset as usize);
 
         // Is this pointer external to the source data?
         if self.value.bytes[0] & 0x40 != 0 {
-            // return resolve_external_pointer(target_ptr, data_start, data_end);
-            unimplemented!()
+            // External pointers are not supported, their target is outside of the source data.
+            return Err(DecodeError::PointerTargetOutOfBounds {
+                data_start: data_start as usize,
+                target: target_ptr as usize,
+                offset,
+            });
             // If the pointer isn't external, it should fit within the source data
         } else if target_ptr < data_start {
             return Err(DecodeError::PointerTargetOutOfBounds {
-- 
2.43.0


From fb0d28e646cfe33075ea0cf5f2a2231fbbe93b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 14/40] fix: bound values by the last pointer which leads to
 them

Values reached through the root or through a chain of pointers were
validated against a later end than the slice they are read from.
---
 src/value/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 5f4fc5b..ca3ce73 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -139,7 +139,8 @@ impl Value {
     pub fn from_bytes(data: &[u8]) -> Result<&Self> {
         let root = Self::_find_root(data)?;
         let data_start = data.as_ptr();
-        let data_end = unsafe { data_start.add(data.len()) };
+        // The root value must end before the pointer which leads to it.
+        let data_end = root.bytes.as_ptr_range().end;
         // wide parameter doesn't matter here, as it's only used for pointers, and find_root will
         // never return a pointer.
         root._validate::<false>(false, data_start, data_end)?;
@@ -389,7 +390,8 @@ impl Value {
             }
             ValueType::Pointer => {
                 let target = Pointer::from_value(self).deref_checked(is_wide, data_start)?;
-                target._validate::<false>(is_wide, data_start, self.bytes.as_ptr())
+                // The target must end before the (last) pointer which leads to it.
+                target._validate::<false>(is_wide, data_start, target.bytes.as_ptr_range().end)
             }
             _ => {
                 // We don't need to validate that array elements fit within the data, as
-- 
2.43.0


From e813ce5326552b31c71126e0bde20bf234935a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 15/40] fix: looking up a key in a dict with a non-string key
 does not panic

---
 src/value/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index ca3ce73..70d8939 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -447,14 +447,8 @@ impl Value {
     }
 
     pub(crate) fn dict_key_cmp(value1: &dict::Key, value2: &Self, is_wide: bool) -> Ordering {
-        debug_assert!(matches!(
-            value2.value_type(),
-            ValueType::String | ValueType::Pointer | ValueType::Short
-        ));
         let value_type2 = value2.value_type();
         match (value1, value_type2) {
-            // Inline strings
-            (dict::Key::String(key), ValueType::String) => (*key).cmp(value2.to_str()),
             // Pointers to strings
             (dict::Key::String(key), ValueType::Pointer) => {
                 let val2 = unsafe {
@@ -462,7 +456,6 @@ impl Value {
                         .deref_unchecked(is_wide)
                         .to_str()
                 };
-                debug_assert_ne!(val2, "", "value2 is not a pointer to a string!");
                 (*key).cmp(val2)
             }
             // SharedKeys
@@ -470,7 +463,8 @@ impl Value {
             // SharedKeys are sorted first in the dict
             (dict::Key::Shared(_), _) => Ordering::Less,
             (_, ValueType::Short) => Ordering::Greater,
-            _ => unreachable!(),
+            // Strings. Validation accepts other kinds of key, they are all treated as empty.
+            (dict::Key::String(key), _) => (*key).cmp(value2.to_str()),
         }
     }
 
-- 
2.43.0


From 9a4704dae3a07b81668596da68e7722e7e1c01d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 16/40] fix: follow chains of pointers in a loop instead of
 recursing

---
 src/value/pointer.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/value/pointer.rs b/src/value/pointer.rs
index 859de09..044eed4 100644
--- a/src/value/pointer.rs
+++ b/src/value/pointer.rs
@@ -19,7 +19,18 @@ impl Pointer {
         unsafe { core::mem::transmute(value) }
     }
 
+    /// Dereferences the pointer, and any pointers it leads to, checking that each of them stays
+    /// within the data.
+    // This is a loop, because the data may contain an arbitrarily long chain of pointers.
     pub(crate) fn deref_checked(&self, wide: bool, data_start: *const u8) -> Result<&Value> {
+        let mut target = self.deref_once_checked(wide, data_start)?;
+        while target.value_type() == ValueType::Pointer {
+            target = Pointer::from_value(target).deref_once_checked(true, data_start)?;
+        }
+        Ok(target)
+    }
+
+    fn deref_once_checked(&self, wide: bool, data_start: *const u8) -> Result<&Value> {
         if (wide && self.value.bytes.len() < 4) || self.value.bytes.len() < 2 {
             return Err(DecodeError::PointerTooSmall {
                 actual: self.value.bytes.len(),
@@ -52,30 +63,28 @@ impl Pointer {
             });
         }
 
-        let target = unsafe { Value::_from_raw_unchecked(target_ptr, offset as usize) };
-
-        if target.value_type() == ValueType::Pointer {
-            return Pointer::from_value(target).deref_checked(true, data_start);
-        }
-        Ok(target)
+        Ok(unsafe { Value::_from_raw_unchecked(target_ptr, offset as usize) })
     }
 
     /// Dereferences the pointer, returning the value it points to.
     /// # Safety
     /// The data should be validated before calling this function.
     pub(crate) unsafe fn deref_unchecked(&self, wide: bool) -> &Value {
+        let mut target = self.deref_once_unchecked(wide);
+        while target.value_type() == ValueType::Pointer {
+            target = Pointer::from_value(target).deref_once_unchecked(true);
+        }
+        target
+    }
+
+    unsafe fn deref_once_unchecked(&self, wide: bool) -> &Value {
         let offset = unsafe { self.get_offset(wide) };
         debug_assert_ne!(offset, 0);
 
         #[allow(clippy::cast_possible_wrap)]
         let target_ptr = self.offset(-(offset as isize));
 
-        let target = Value::_from_raw_unchecked(target_ptr, offset as usize);
-
-        if target.value_type() == ValueType::Pointer {
-            return Pointer::from_value(target).deref_unchecked(true);
-        }
-        target
+        Value::_from_raw_unchecked(target_ptr, offset as usize)
     }
 
     #[inline]
-- 
2.43.0


From 8596a050cf274e36c4ec5b955a60e17ae1680373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 17/40] fix: an unsigned integer of zero is false

---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 70d8939..0173ffc 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -210,6 +210,7 @@ impl Value {
             ValueType::False => false,
             ValueType::Short
             | ValueType::Int
+            | ValueType::UnsignedInt
             | ValueType::Float
             | ValueType::Double32
             | ValueType::Double64 => self.to_int() != 0,
-- 
2.43.0


From 23a667e96b6d793cccb0f22e529dc75fd77319d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 18/40] fix: convert unsigned integers above i64::MAX to
 positive doubles

---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 0173ffc..0617aee 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -310,6 +310,7 @@ impl Value {
                 buf.copy_from_slice(&self.bytes[2..10]);
                 f64::from_le_bytes(buf)
             }
+            ValueType::UnsignedInt => self.to_unsigned_int() as f64,
             _ => self.to_int() as f64,
         }
     }
-- 
2.43.0


From 485ee8334d76488cd12754ac68f224c16d5913a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 19/40] fix: keep all 16 bytes of the longest shared keys

---
 src/shared_keys.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index c9d15bf..6569b77 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -5,7 +5,10 @@ use fixedstr::zstr;
 
 use crate::{Encoder, Value, ValueType};
 
-pub struct SharedKeys(folklore::HashMap<zstr<16>, u16>);
+// A `zstr<N>` holds up to `N - 1` bytes.
+type Key = zstr<{ SharedKeys::MAX_KEY_LEN as usize + 1 }>;
+
+pub struct SharedKeys(folklore::HashMap<Key, u16>);
 
 impl SharedKeys {
     const MAX_KEYS: u16 = 2048;
@@ -30,7 +33,7 @@ impl SharedKeys {
 
     #[inline]
     pub fn encode(&self, string_key: &str) -> Option<u16> {
-        self.0.get(&zstr::make(string_key))
+        self.0.get(&Key::make(string_key))
     }
 
     // This function takes a `&mut self` because it is not technically thread-safe, another thread
@@ -39,7 +42,7 @@ impl SharedKeys {
         if !self.can_add(key) {
             return None;
         }
-        let key = zstr::make(key);
+        let key = Key::make(key);
         if let Some(existing) = self.0.get(&key) {
             return Some(existing);
         }
@@ -52,7 +55,7 @@ impl SharedKeys {
 
     #[inline]
     pub fn decode(&self, int_key: u16) -> Option<&str> {
-        self.0.get_key(int_key as usize).map(zstr::as_str)
+        self.0.get_key(int_key as usize).map(Key::as_str)
     }
 
     #[allow(clippy::cast_possible_truncation)]
@@ -133,7 +136,7 @@ impl<'sk> IntoIterator for &'sk SharedKeys {
     }
 }
 
-pub struct Iter<'a>(folklore::Iter<'a, zstr<16>, u16>);
+pub struct Iter<'a>(folklore::Iter<'a, Key, u16>);
 
 impl<'sk> Iterator for Iter<'sk> {
     type Item = (&'sk str, u16);
-- 
2.43.0


From 90c93d6d1357e50cd3caae55522cec9a945fee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 20/40] fix: never find a key which cannot be shared in the
 shared key table

---
 src/shared_keys.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index 6569b77..12c8468 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -33,6 +33,10 @@ impl SharedKeys {
 
     #[inline]
     pub fn encode(&self, string_key: &str) -> Option<u16> {
+        // A key which can't be in the table might be equal to one of its keys once truncated
+        if !Self::can_encode(string_key) {
+            return None;
+        }
         self.0.get(&Key::make(string_key))
     }
 
@@ -60,15 +64,15 @@ impl SharedKeys {
 
     #[allow(clippy::cast_possible_truncation)]
     pub fn can_add(&self, key: &str) -> bool {
-        self.len() < Self::MAX_KEYS
-            && key.len() <= Self::MAX_KEY_LEN as usize
-            && Self::can_encode(key)
+        self.len() < Self::MAX_KEYS && Self::can_encode(key)
     }
 
     #[inline]
     fn can_encode(key: &str) -> bool {
-        key.chars()
-            .all(|c| c.is_alphanumeric() || c == '_' || c == '-')
+        key.len() <= Self::MAX_KEY_LEN as usize
+            && key
+                .chars()
+                .all(|c| c.is_alphanumeric() || c == '_' || c == '-')
     }
 
     #[inline]
-- 
2.43.0


From f23526c64f71d3613154dfdf7efe1bc6f8441692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 21/40] fix: a full shared key table still encodes the keys it
 has

---
 src/shared_keys.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index 12c8468..d33155b 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -43,13 +43,13 @@ impl SharedKeys {
     // This function takes a `&mut self` because it is not technically thread-safe, another thread
     // could insert a key between `index = self.0.len()` and `self.0.insert()`.
     pub fn encode_and_insert(&mut self, key: &str) -> Option<u16> {
+        if let Some(existing) = self.encode(key) {
+            return Some(existing);
+        }
         if !self.can_add(key) {
             return None;
         }
         let key = Key::make(key);
-        if let Some(existing) = self.0.get(&key) {
-            return Some(existing);
-        }
         let index = self.len();
         if !self.0.insert(key, index) {
             return None;
-- 
2.43.0


From 24566c17cc532858e8b95485439defb1f5666b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 22/40] fix: refuse to restore shared keys from an array with
 other values than strings

---
 src/shared_keys.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index d33155b..5bf25f0 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -87,7 +87,9 @@ impl SharedKeys {
         let state = value.as_array()?;
         let mut shared_keys = Self::new();
         for val in state {
-            debug_assert_eq!(val.value_type(), ValueType::String);
+            if val.value_type() != ValueType::String {
+                return None;
+            }
             let borrowed_key = val.to_str();
             shared_keys.encode_and_insert(borrowed_key)?;
         }
-- 
2.43.0


From 6580f2306e312873ef0770023094fe9ced1817f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 23/40] fix: find keys written as strings although they have a
 shared key

---
 src/value/dict.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/value/dict.rs b/src/value/dict.rs
index 55628e9..704eef4 100644
--- a/src/value/dict.rs
+++ b/src/value/dict.rs
@@ -90,9 +90,7 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), None);
-
-        self._get(&key)
+        self._get_encoded(key.borrow(), None)
     }
 
     /// The same as [`Dict::get`], but may be more efficient as the caller provides
@@ -101,9 +99,17 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), Some(shared_keys));
+        self._get_encoded(key.borrow(), Some(shared_keys))
+    }
 
-        self._get(&key)
+    fn _get_encoded(&self, key: &str, shared_keys: Option<&SharedKeys>) -> Option<&Value> {
+        match self.encode_key(key, shared_keys) {
+            // A key may be written as a string although it has a shared key, inline keys always are.
+            Key::Shared(int_key) => self
+                ._get(&Key::Shared(int_key))
+                .or_else(|| self._get(&Key::String(key))),
+            key => self._get(&key),
+        }
     }
 
     /// Get the value in this Dict which corresponds to the given encoded key. The key should be
-- 
2.43.0


From 09006196b4d13ae0403044fd6590a3e7a515d1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 24/40] fix: creating or removing a scope of empty data does
 not panic

---
 src/scope.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 4883491..6b0ca05 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -66,7 +66,10 @@ impl Scope {
     pub fn remove(&self) {
         let mut scope_map = SCOPE_MAP.write().unwrap();
         if let Some(range) = self.range() {
-            scope_map.remove(range);
+            // An empty range isn't in the map, and the map refuses it
+            if !range.is_empty() {
+                scope_map.remove(range);
+            }
         }
     }
 
@@ -91,7 +94,10 @@ impl Scope {
             root,
         });
 
-        scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        // No address is within empty data, and the map refuses empty ranges
+        if start < end {
+            scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        }
         scope
     }
 
-- 
2.43.0


From 42ff6def8450fb1ec240a4a23693d8dc91a12561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 25/40] fix: allow arrays within arrays in the fleece! macro

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bd412e6..f4ac2f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ macro_rules! fleece {
     };
 
     (push $encoder:expr => [ $($inner_val:tt),* $(,)? ]) => {
-        unsafe { $encoder.begin_array().unwrap_unchecked() };
+        unsafe { $encoder.begin_array(10).unwrap_unchecked() };
         $(fleece!(push $encoder => $inner_val);)*
         unsafe { $encoder.end_array().unwrap_unchecked() };
     };
-- 
2.43.0


From 4a96d82aebf2a3b537a83188fc845fbd837150c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 26/40] fix: the size hint of a mutable array's iterator counts
 down

---
 src/mutable/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutable/array.rs b/src/mutable/array.rs
index 233919c..93139be 100644
--- a/src/mutable/array.rs
+++ b/src/mutable/array.rs
@@ -196,7 +196,7 @@ impl<'a> Iterator for Iter<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.arr.len();
+        let len = self.arr.len().saturating_sub(self.index);
         (len, Some(len))
     }
 }
-- 
2.43.0


From df195a3d907d8de9a75115634de54d9c6626e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 27/40] fix: deserialize newtype structs

---
 src/de.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 2b15241..9a5e9c4 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -205,6 +205,14 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         self.deserialize_map(visitor)
     }
 
+    // Newtype structs are serialized as the value they hold
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_enum<V>(
         self,
         _name: &'static str,
@@ -229,7 +237,7 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char tuple string bytes byte_buf
-        unit unit_struct newtype_struct str tuple_struct identifier ignored_any
+        unit unit_struct str tuple_struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From e966f80989b737a681755721dfcd32b6a6c86e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 28/40] fix: deserialize unit structs

---
 src/de.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 9a5e9c4..9c643e6 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -205,6 +205,17 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         self.deserialize_map(visitor)
     }
 
+    // Unit structs are serialized as Null
+    fn deserialize_unit_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        match self.value.value_type() {
+            ValueType::Null => visitor.visit_unit(),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     // Newtype structs are serialized as the value they hold
     fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
     where
@@ -237,7 +248,7 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char tuple string bytes byte_buf
-        unit unit_struct str tuple_struct identifier ignored_any
+        unit str tuple_struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From 007d514f9c6b8e7f291510f79bd87a07722922be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 29/40] fix: a refused key is not written to the output

---
 src/encoder/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index ea1fd14..869c050 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -386,6 +386,12 @@ impl Encoder {
     }
 
     fn _write_key_pointer(&mut self, key: &str) -> Result<()> {
+        // A key which is refused must not be written to the output buffer
+        match self.collection_stack.top() {
+            Some(Collection::Dict(dict)) if dict.next_key.is_none() => {}
+            Some(Collection::Dict(_)) => return Err(EncodeError::DictWaitingForValue),
+            _ => return Err(EncodeError::DictNotOpen),
+        }
         // If we don't have shared keys, write the key to the output buffer and add a pointer to it in the Dict
         let offset = self._write(key, false, false);
         let Some(Collection::Dict(dict)) = self.collection_stack.top_mut() else {
-- 
2.43.0


From fd791149a43cc17c209470523508836223428680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 30/40] fix: short strings don't fit a wide element of two
 bytes

---
 src/encoder/encodable.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 1783995..fca0f11 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -431,6 +431,15 @@ impl Encodable for UndefinedValue {
     }
 }
 
+// The number of bytes `write_fleece_string` needs. Inline strings fill a whole wide element.
+fn string_size_required(string: &[u8], is_wide: bool) -> usize {
+    if is_wide && string.len() <= 1 {
+        4
+    } else {
+        string.fleece_size()
+    }
+}
+
 // Data and String are encoded the same in Fleece, apart from the value type tag.
 // INVARIANTS:
 //   - `buf` MUST be large enough to encode `string`.
@@ -495,7 +504,7 @@ fn write_fleece_string<const IS_STR: bool>(
 impl super::private::Sealed for [u8] {}
 impl Encodable for [u8] {
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
-        if self.fleece_size() > buf.len() {
+        if string_size_required(self, is_wide) > buf.len() {
             None
         } else {
             Some(write_fleece_string::<false>(self, buf, is_wide))
@@ -522,7 +531,7 @@ impl Encodable for [u8] {
 impl super::private::Sealed for str {}
 impl Encodable for str {
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
-        if self.fleece_size() > buf.len() {
+        if string_size_required(self.as_bytes(), is_wide) > buf.len() {
             None
         } else {
             Some(write_fleece_string::<true>(self.as_bytes(), buf, is_wide))
-- 
2.43.0


From 62b2265ad6a1f632922968580018c9fe4eb62582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 31/40] fix: deserialize struct variants with skipped, default
 or aliased fields

---
 src/de.rs | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/de.rs b/src/de.rs
index 9c643e6..746e2da 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -434,7 +434,7 @@ impl<'arr, 'sk, 'de> de::VariantAccess<'de> for EnumAccess<'arr, 'sk> {
         )))
     }
 
-    fn struct_variant<V>(self, fields: &'static [&'static str], visitor: V) -> Result<V::Value>
+    fn struct_variant<V>(self, _fields: &'static [&'static str], visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
@@ -445,23 +445,12 @@ impl<'arr, 'sk, 'de> de::VariantAccess<'de> for EnumAccess<'arr, 'sk> {
                 .ok_or(Error::Deserialize(DeserializeError::InvalidEnumLayout(
                     format!("{:?}", self.array),
                 )))?;
-        if let Some(dict) = inner.as_dict() {
-            if dict.len() == fields.len() {
-                let correct_keys = if let Some(sk) = self.shared_keys.shared_keys() {
-                    fields
-                        .iter()
-                        .all(|field| dict.contains_key_with_shared_keys(field, sk))
-                } else {
-                    fields.iter().all(|field| dict.contains_key(field))
-                };
-
-                if correct_keys {
-                    return de::Deserializer::deserialize_map(
-                        &Deserializer::new(inner, self.array.is_wide(), self.shared_keys.as_ref()),
-                        visitor,
-                    );
-                }
-            }
+        // The visitor checks the fields, as it does for a struct: some may be optional
+        if inner.as_dict().is_some() {
+            return de::Deserializer::deserialize_map(
+                &Deserializer::new(inner, self.array.is_wide(), self.shared_keys.as_ref()),
+                visitor,
+            );
         }
         Err(Error::Deserialize(DeserializeError::InvalidEnumLayout(
             format!("{:?}", self.array),
-- 
2.43.0


From 8bf87d75b722e3aaa2e99fb5e2de89d69ffd4562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 32/40] fix: convert doubles above the signed range to unsigned
 integers exactly

Value::to_unsigned_int went through i64, so a double of 2^63 or more (which a
u64 can hold) came out as i64::MAX.
---
 src/value/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 0617aee..188e684 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -290,10 +290,14 @@ impl Value {
         }
     }
 
+    #[allow(clippy::cast_possible_truncation)]
     #[allow(clippy::cast_sign_loss)]
     #[must_use]
     pub fn to_unsigned_int(&self) -> u64 {
-        self.to_int() as u64
+        match self.value_type() {
+            ValueType::Float | ValueType::Double32 | ValueType::Double64 => self.to_double() as u64,
+            _ => self.to_int() as u64,
+        }
     }
 
     #[allow(clippy::cast_precision_loss)]
-- 
2.43.0


From 14c92624e20f5ec0364c45cf814f572b75180384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 33/40] fix: convert large integers to the nearest f32

Value::to_float went through f64, so integers above 2^53 were rounded twice and
could come out as the second nearest float.
---
 src/value/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 188e684..6e36788 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -320,9 +320,15 @@ impl Value {
     }
 
     #[allow(clippy::cast_possible_truncation)]
+    #[allow(clippy::cast_precision_loss)]
     #[must_use]
     pub fn to_float(&self) -> f32 {
-        self.to_double() as f32
+        match self.value_type() {
+            // Going through f64 would round twice.
+            ValueType::Int => self.to_int() as f32,
+            ValueType::UnsignedInt => self.to_unsigned_int() as f32,
+            _ => self.to_double() as f32,
+        }
     }
 
     #[must_use]
-- 
2.43.0


From c7a9a9df0ad511a3f0c56ad26949d317d5a44ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 34/40] fix: let fleece! resolve its own items from any module

The macro named Encoder and itself unqualified, so a literal did not compile
unless the caller had imported both.
---
 src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f4ac2f1..250029e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -44,9 +44,9 @@ macro_rules! fleece {
     {
         $($key:literal: $val:tt),* $(,)?
     } => {{
-        let mut encoder = Encoder::new();
+        let mut encoder = $crate::Encoder::new();
         unsafe { encoder.begin_dict().unwrap_unchecked() };
-        $(fleece!(insert encoder => $key: $val);)*
+        $($crate::fleece!(insert encoder => $key: $val);)*
         unsafe { encoder.end_dict().unwrap_unchecked() };
         unsafe { encoder.finish_value().to_dict().unwrap_unchecked() }
     }};
@@ -54,9 +54,9 @@ macro_rules! fleece {
     [
         $($val:tt),* $(,)?
     ] => {{
-        let mut encoder = Encoder::new();
+        let mut encoder = $crate::Encoder::new();
         unsafe { encoder.begin_array(10).unwrap_unchecked() };
-        $(fleece!(push encoder => $val);)*
+        $($crate::fleece!(push encoder => $val);)*
         unsafe { encoder.end_array().unwrap_unchecked() };
         unsafe { encoder.finish_value().to_array().unwrap_unchecked() }
     }};
@@ -66,7 +66,7 @@ macro_rules! fleece {
             unsafe { core::hint::unreachable_unchecked() }
         };
         unsafe { $encoder.begin_dict().unwrap_unchecked() };
-        $(fleece!(insert $encoder => $inner_key: $inner_val);)*
+        $($crate::fleece!(insert $encoder => $inner_key: $inner_val);)*
         unsafe { $encoder.end_dict().unwrap_unchecked() };
     };
 
@@ -75,7 +75,7 @@ macro_rules! fleece {
             unsafe { core::hint::unreachable_unchecked() }
         };
         unsafe { $encoder.begin_array(10).unwrap_unchecked() };
-        $(fleece!(push $encoder => $inner_val);)*
+        $($crate::fleece!(push $encoder => $inner_val);)*
         unsafe { $encoder.end_array().unwrap_unchecked() };
     };
 
@@ -90,13 +90,13 @@ macro_rules! fleece {
 
     (push $encoder:expr => { $($inner_key:literal: $inner_val:tt),* $(,)? }) => {
         unsafe { $encoder.begin_dict().unwrap_unchecked() };
-        $(fleece!(insert $encoder => $inner_key: $inner_val);)*
+        $($crate::fleece!(insert $encoder => $inner_key: $inner_val);)*
         unsafe { $encoder.end_dict().unwrap_unchecked() };
     };
 
     (push $encoder:expr => [ $($inner_val:tt),* $(,)? ]) => {
         unsafe { $encoder.begin_array(10).unwrap_unchecked() };
-        $(fleece!(push $encoder => $inner_val);)*
+        $($crate::fleece!(push $encoder => $inner_val);)*
         unsafe { $encoder.end_array().unwrap_unchecked() };
     };
 
-- 
2.43.0


From c7dd41e85ef3576518dba545785c354acec4756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 35/40] fix: convert the data of a new scope before locking the
 scope map

The conversion is caller code: a panic in it poisoned the map for every later
operation, and one that looked up a scope deadlocked.
---
 src/scope.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scope.rs b/src/scope.rs
index 6b0ca05..c24651e 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -78,8 +78,9 @@ impl Scope {
     #[allow(clippy::missing_panics_doc)]
     /// Create a new scope which retains the data it is given ownership of, and optionally retains the given [`SharedKeys`].
     pub fn new(data: impl Into<Arc<[u8]>>, shared_keys: Option<Arc<SharedKeys>>) -> Arc<Self> {
-        let mut scope_map = SCOPE_MAP.write().unwrap();
+        // The conversion is the caller's code: it may panic, or use the global map itself
         let strong_data = data.into();
+        let mut scope_map = SCOPE_MAP.write().unwrap();
         let weak_data = Arc::downgrade(&strong_data);
 
         let start = strong_data.as_ptr() as usize;
-- 
2.43.0


From a1d697986084b04ffe83abb6067d2a817efa5c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 36/40] fix: dict iterators stay exhausted after a key which
 cannot be resolved

The next call would have taken the value of the unresolved pair for a key.
---
 src/value/array.rs |  6 ++++++
 src/value/dict.rs  | 11 ++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 8859580..2a4a68d 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -230,6 +230,12 @@ impl Iter<'_> {
     pub fn len(&self) -> usize {
         self.len
     }
+
+    /// Stop here, there are no more elements to iterate.
+    pub(super) fn exhaust(&mut self) {
+        self.next = None;
+        self.index = self.len;
+    }
 }
 
 impl<'a> Iterator for Iter<'a> {
diff --git a/src/value/dict.rs b/src/value/dict.rs
index 704eef4..7a53cad 100644
--- a/src/value/dict.rs
+++ b/src/value/dict.rs
@@ -255,10 +255,14 @@ impl<'a> Iterator for SharedKeyIter<'a> {
         let key = match key.value_type() {
             ValueType::Short => {
                 let key = key.to_unsigned_short();
-                Some(unsafe { &*core::ptr::from_ref::<str>(self.shared_keys.decode(key)?) })
+                let Some(key) = self.shared_keys.decode(key) else {
+                    self.array_iter.exhaust();
+                    return None;
+                };
+                unsafe { &*core::ptr::from_ref::<str>(key) }
             }
-            _ => Some(key.to_str()),
-        }?;
+            _ => key.to_str(),
+        };
         let val = self.array_iter.next()?;
         Some((key, val))
     }
@@ -275,6 +279,7 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         let key = self.array_iter.next()?;
         if key.value_type() == ValueType::Short {
+            self.array_iter.exhaust();
             return None;
         }
         let key = key.to_str();
-- 
2.43.0


From 53d4a512eeee53df3ce4e57aba57163ef4ba0672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 37/40] fix: refuse values out of the reach of references
 instead of panicking or writing wrong references

---
 src/encoder/mod.rs | 61 +++++++++++++++++++++++-----------------------
 src/value/sized.rs |  5 ++--
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 869c050..2f402a5 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -120,9 +120,7 @@ impl Encoder {
         } else {
             // Otherwise, write it to output and push a pointer to it onto the current collection
             let offset = self._write(value, false, false);
-            let Some(pointer) = SizedValue::new_pointer(offset) else {
-                return Err(EncodeError::PointerTooLarge);
-            };
+            let pointer = Encoder::_pointer_to(offset)?;
             self._push(pointer)
         }
     }
@@ -212,7 +210,7 @@ impl Encoder {
         // Write the Array header via `Encodable` trait
         let offset = self._write(&array, is_wide, true);
 
-        self._fix_array_pointers(&mut array, is_wide);
+        self._fix_array_pointers(&mut array, is_wide)?;
 
         for v in &array.values {
             self._write(v, is_wide, false);
@@ -261,7 +259,7 @@ impl Encoder {
         // Write the Dict header via `Encodable` trait
         let offset = self._write(&dict, is_wide, true);
 
-        self._fix_dict_pointers(&mut dict, is_wide);
+        self._fix_dict_pointers(&mut dict, is_wide)?;
 
         for elem in &dict.values {
             match &elem.key {
@@ -335,7 +333,7 @@ impl Encoder {
         value: &T,
         is_wide: bool,
         is_collection: bool,
-    ) -> u32 {
+    ) -> usize {
         let offset = self.out.len();
         let size_required = if is_wide && !is_collection {
             value.fleece_size().max(4)
@@ -354,10 +352,7 @@ impl Encoder {
             self.out.push(0);
         }
 
-        #[allow(clippy::cast_possible_truncation)]
-        {
-            offset as u32
-        }
+        offset
     }
 
     fn _write_key_inline(&mut self, val: SizedValue) -> Result<()> {
@@ -393,7 +388,7 @@ impl Encoder {
             _ => return Err(EncodeError::DictNotOpen),
         }
         // If we don't have shared keys, write the key to the output buffer and add a pointer to it in the Dict
-        let offset = self._write(key, false, false);
+        let offset = Encoder::_pointer_to(self._write(key, false, false))?.pointer_offset();
         let Some(Collection::Dict(dict)) = self.collection_stack.top_mut() else {
             return Err(EncodeError::DictNotOpen);
         };
@@ -431,9 +426,16 @@ impl Encoder {
         }
     }
 
-    #[allow(clippy::cast_possible_truncation)]
-    fn _actual_pointer_offset(&self, offset_from_start: u32) -> u32 {
-        self.out.len() as u32 - offset_from_start
+    // An offset or distance which doesn't fit in a `u32` doesn't fit in a pointer either.
+    fn _pointer_to(offset_from_start: usize) -> Result<SizedValue> {
+        u32::try_from(offset_from_start)
+            .ok()
+            .and_then(SizedValue::new_pointer)
+            .ok_or(EncodeError::PointerTooLarge)
+    }
+
+    fn _actual_pointer_offset(&self, offset_from_start: usize) -> u32 {
+        u32::try_from(self.out.len() - offset_from_start).unwrap_or(u32::MAX)
     }
 
     fn _array_should_be_wide(&self, array: &value_stack::Array) -> bool {
@@ -477,43 +479,40 @@ impl Encoder {
         self.out.len() + header_size + header_size % 2
     }
 
-    fn _fix_array_pointers(&self, array: &mut value_stack::Array, is_wide: bool) {
-        #[allow(clippy::cast_possible_truncation)]
-        let mut len = self.out.len() as u32;
+    fn _fix_array_pointers(&self, array: &mut value_stack::Array, is_wide: bool) -> Result<()> {
+        let mut len = self.out.len();
         for elem in &mut array.values {
             if elem.value_type() == ValueType::Pointer {
-                *elem = Encoder::_fix_pointer(*elem, len);
+                *elem = Encoder::_fix_pointer(*elem, len)?;
             }
             len += if is_wide { 4 } else { 2 };
         }
+        Ok(())
     }
 
-    fn _fix_dict_pointers(&self, dict: &mut value_stack::Dict, is_wide: bool) {
-        #[allow(clippy::cast_possible_truncation)]
-        let mut len = self.out.len() as u32;
+    fn _fix_dict_pointers(&self, dict: &mut value_stack::Dict, is_wide: bool) -> Result<()> {
+        let mut len = self.out.len();
         for elem in &mut dict.values {
             if let DictKey::Pointer(_, offset) = &mut elem.key {
-                *offset = len - *offset;
+                *offset = u32::try_from(len - *offset as usize).unwrap_or(u32::MAX);
             }
             len += if is_wide { 4 } else { 2 };
             if elem.val.value_type() == ValueType::Pointer {
-                elem.val = Encoder::_fix_pointer(elem.val, len);
+                elem.val = Encoder::_fix_pointer(elem.val, len)?;
             }
             len += if is_wide { 4 } else { 2 };
         }
+        Ok(())
     }
 
-    #[allow(clippy::cast_possible_truncation)]
-    fn _fix_pointer(pointer: SizedValue, len: u32) -> SizedValue {
-        let offset = pointer.actual_pointer_offset(len as usize);
-        SizedValue::new_pointer(offset).expect("Pointer unexpectedly large")
+    fn _fix_pointer(pointer: SizedValue, len: usize) -> Result<SizedValue> {
+        let offset = pointer.actual_pointer_offset(len);
+        SizedValue::new_pointer(offset).ok_or(EncodeError::PointerTooLarge)
     }
 
-    fn _finished_collection(&mut self, offset_from_start: u32) -> Result<()> {
+    fn _finished_collection(&mut self, offset_from_start: usize) -> Result<()> {
         if let Some(collection) = self.collection_stack.top_mut() {
-            let Some(pointer) = SizedValue::new_pointer(offset_from_start) else {
-                return Err(EncodeError::PointerTooLarge);
-            };
+            let pointer = Encoder::_pointer_to(offset_from_start)?;
             match collection {
                 Collection::Dict(dict) => {
                     dict.push_value(pointer);
diff --git a/src/value/sized.rs b/src/value/sized.rs
index 3955106..1776f9a 100644
--- a/src/value/sized.rs
+++ b/src/value/sized.rs
@@ -42,10 +42,11 @@ impl SizedValue {
         u32::from_be_bytes(bytes)
     }
 
+    /// The distance from `out_len` back to the target. A distance which doesn't fit in a `u32` gives
+    /// `u32::MAX`, which doesn't fit in a pointer either.
     #[inline]
-    #[allow(clippy::cast_possible_truncation)]
     pub(crate) fn actual_pointer_offset(self, out_len: usize) -> u32 {
-        (out_len - self.pointer_offset() as usize) as u32
+        u32::try_from(out_len - self.pointer_offset() as usize).unwrap_or(u32::MAX)
     }
 
     #[inline]
-- 
2.43.0


From 7d4f6945251e664b686ffd79269a766e34e2690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 38/40] fix: count positions from the start of the document,
 existing bytes take no reach from its references

---
 src/encoder/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 2f402a5..df13cb4 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -45,6 +45,8 @@ pub trait Encodable: private::Sealed {
 #[derive(Default)]
 pub struct Encoder {
     out: Vec<u8>,
+    // Where the document starts in `out`, positions are counted from here.
+    start: usize,
     shared_keys: Option<SharedKeys>,
     collection_stack: CollectionStack,
     top_collection_closed: bool,
@@ -77,6 +79,7 @@ impl Encoder {
             out.push(0);
         }
         Self {
+            start: out.len(),
             out,
             shared_keys: None,
             collection_stack: CollectionStack::new(),
@@ -327,7 +330,7 @@ impl Encoder {
     // Always use this function to write values to the output buffer, because it makes sure all values
     // are evenly aligned.
     /// Write a value to the output buffer and return the offset at which it was written.
-    /// The offset can be used to create a pointer to the value.
+    /// The offset is from the start of the document, it can be used to create a pointer to the value.
     fn _write<T: Encodable + ?Sized>(
         &mut self,
         value: &T,
@@ -352,7 +355,12 @@ impl Encoder {
             self.out.push(0);
         }
 
-        offset
+        offset - self.start
+    }
+
+    /// The position in the document at which the next value will be written.
+    fn _pos(&self) -> usize {
+        self.out.len() - self.start
     }
 
     fn _write_key_inline(&mut self, val: SizedValue) -> Result<()> {
@@ -435,7 +443,7 @@ impl Encoder {
     }
 
     fn _actual_pointer_offset(&self, offset_from_start: usize) -> u32 {
-        u32::try_from(self.out.len() - offset_from_start).unwrap_or(u32::MAX)
+        u32::try_from(self._pos() - offset_from_start).unwrap_or(u32::MAX)
     }
 
     fn _array_should_be_wide(&self, array: &value_stack::Array) -> bool {
@@ -476,11 +484,11 @@ impl Encoder {
     // written next.
     fn _first_elem_pos<T: Encodable>(&self, header: &T) -> usize {
         let header_size = header.fleece_size();
-        self.out.len() + header_size + header_size % 2
+        self._pos() + header_size + header_size % 2
     }
 
     fn _fix_array_pointers(&self, array: &mut value_stack::Array, is_wide: bool) -> Result<()> {
-        let mut len = self.out.len();
+        let mut len = self._pos();
         for elem in &mut array.values {
             if elem.value_type() == ValueType::Pointer {
                 *elem = Encoder::_fix_pointer(*elem, len)?;
@@ -491,7 +499,7 @@ impl Encoder {
     }
 
     fn _fix_dict_pointers(&self, dict: &mut value_stack::Dict, is_wide: bool) -> Result<()> {
-        let mut len = self.out.len();
+        let mut len = self._pos();
         for elem in &mut dict.values {
             if let DictKey::Pointer(_, offset) = &mut elem.key {
                 *offset = u32::try_from(len - *offset as usize).unwrap_or(u32::MAX);
-- 
2.43.0


From d0ecad45cf73161a136d6aa2098f00b8e0e4068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:37 +0000
Subject: [PATCH 39/40] fix: a dropped scope leaves the global map

---
 src/scope.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index c24651e..5156f87 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -118,6 +118,25 @@ impl Scope {
     }
 }
 
+impl Drop for Scope {
+    /// A scope which was not removed leaves the global map when its last reference is dropped.
+    fn drop(&mut self) {
+        let Some(range) = self.range() else {
+            return;
+        };
+        let Ok(mut scope_map) = SCOPE_MAP.write() else {
+            return;
+        };
+        // If this scope was removed, another scope may be in its place
+        let is_this = scope_map
+            .get(&range.start)
+            .is_some_and(|entry| core::ptr::eq(entry.as_ptr(), self));
+        if is_this {
+            scope_map.remove(range);
+        }
+    }
+}
+
 impl PartialEq for Scope {
     fn eq(&self, other: &Self) -> bool {
         let Some(self_data) = self.weak_data.upgrade() else {
@@ -136,14 +155,9 @@ impl Eq for Scope {}
 struct ScopeEntry(Weak<Scope>);
 
 impl PartialEq for ScopeEntry {
+    // The map compares entries while it is locked, so this must not drop the last reference to a scope
     fn eq(&self, other: &Self) -> bool {
-        let Some(self_scope) = self.0.upgrade() else {
-            return false;
-        };
-        let Some(other_scope) = other.0.upgrade() else {
-            return false;
-        };
-        self_scope.eq(&other_scope)
+        self.0.ptr_eq(&other.0)
     }
 }
 
-- 
2.43.0


From 72b51134bb4ee8c62c6e54ca96f9cf7a8abf11a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:32 +0000
Subject: [PATCH 40/40] fix: scopes over the same data are found independently
 of each other

---
 src/scope.rs | 79 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 47 insertions(+), 32 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 5156f87..f02beb0 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -1,5 +1,8 @@
-use alloc::sync::{Arc, Weak};
-use core::{ops::Deref, ptr::NonNull};
+use alloc::{
+    sync::{Arc, Weak},
+    vec::Vec,
+};
+use core::ptr::NonNull;
 use crossbeam_utils::sync::ShardedLock;
 use lazy_static::lazy_static;
 use rangemap::RangeMap;
@@ -65,11 +68,26 @@ impl Scope {
     /// to it being taken, but the data will not be deallocated until all references to it are dropped.
     pub fn remove(&self) {
         let mut scope_map = SCOPE_MAP.write().unwrap();
-        if let Some(range) = self.range() {
-            // An empty range isn't in the map, and the map refuses it
-            if !range.is_empty() {
-                scope_map.remove(range);
-            }
+        self.unregister(&mut scope_map);
+    }
+
+    // Other scopes over the same data stay in the map
+    fn unregister(&self, scope_map: &mut RangeMap<usize, ScopeEntry>) {
+        let Some(range) = self.range() else {
+            return;
+        };
+        let Some(entry) = scope_map.get(&range.start) else {
+            return;
+        };
+        let others = entry.without(self);
+        // An empty range isn't in the map, and the map refuses it
+        if range.is_empty() || others == *entry {
+            return;
+        }
+        if others.0.is_empty() {
+            scope_map.remove(range);
+        } else {
+            scope_map.insert(range, others);
         }
     }
 
@@ -97,7 +115,10 @@ impl Scope {
 
         // No address is within empty data, and the map refuses empty ranges
         if start < end {
-            scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+            // There may be other scopes over the same data
+            let mut entry = scope_map.get(&start).cloned().unwrap_or_default();
+            entry.0.push(Arc::downgrade(&scope));
+            scope_map.insert(start..end, entry);
         }
         scope
     }
@@ -121,18 +142,8 @@ impl Scope {
 impl Drop for Scope {
     /// A scope which was not removed leaves the global map when its last reference is dropped.
     fn drop(&mut self) {
-        let Some(range) = self.range() else {
-            return;
-        };
-        let Ok(mut scope_map) = SCOPE_MAP.write() else {
-            return;
-        };
-        // If this scope was removed, another scope may be in its place
-        let is_this = scope_map
-            .get(&range.start)
-            .is_some_and(|entry| core::ptr::eq(entry.as_ptr(), self));
-        if is_this {
-            scope_map.remove(range);
+        if let Ok(mut scope_map) = SCOPE_MAP.write() {
+            self.unregister(&mut scope_map);
         }
     }
 }
@@ -151,27 +162,31 @@ impl PartialEq for Scope {
 
 impl Eq for Scope {}
 
-#[derive(Clone)]
-struct ScopeEntry(Weak<Scope>);
+// The scopes over the same data, the newest is the last
+#[derive(Clone, Default)]
+struct ScopeEntry(Vec<Weak<Scope>>);
+
+impl ScopeEntry {
+    #[inline]
+    fn upgrade(&self) -> Option<Arc<Scope>> {
+        self.0.iter().rev().find_map(Weak::upgrade)
+    }
+
+    fn without(&self, scope: &Scope) -> Self {
+        let others = self.0.iter().filter(|s| !core::ptr::eq(s.as_ptr(), scope));
+        Self(others.cloned().collect())
+    }
+}
 
 impl PartialEq for ScopeEntry {
     // The map compares entries while it is locked, so this must not drop the last reference to a scope
     fn eq(&self, other: &Self) -> bool {
-        self.0.ptr_eq(&other.0)
+        self.0.len() == other.0.len() && self.0.iter().zip(&other.0).all(|(a, b)| a.ptr_eq(b))
     }
 }
 
 impl Eq for ScopeEntry {}
 
-impl Deref for ScopeEntry {
-    type Target = Weak<Scope>;
-
-    #[inline]
-    fn deref(&self) -> &Self::Target {
-        &self.0
-    }
-}
-
 unsafe impl Send for Scope {}
 unsafe impl Sync for Scope {}
 
-- 
2.43.0

