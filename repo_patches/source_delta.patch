From 270a1dba80e09149df6e3db94c56a1799a1c8801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 01/35] fix: report truncated bounded strings instead of
 panicking

---
 runtime/src/message/util/string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 3a5fe43..6e8a6e5 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -64,7 +64,8 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>> FromSlice<'a> for VarcharString<T> {
     fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
         let msg = T::from_slice(slice)?;
         let size = msg.size();
-        let subslice = &slice[size..size + msg.into_inner().to_usize()];
+        let end = size.checked_add(msg.into_inner().to_usize()).ok_or(Error::Truncated)?;
+        let subslice = slice.get(size..end).ok_or(Error::Truncated)?;
         let string = std::str::from_utf8(subslice).map_err(|_| Error::InvalidUtf8)?;
         Ok(Message::new(size + string.len(), string))
     }
-- 
2.43.0


From d03abdda83718008cb592460ba66b7b940774394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 02/35] fix: treat array lengths which overflow as truncated
 input

---
 runtime/src/message/util/array.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/array.rs b/runtime/src/message/util/array.rs
index 99e2ccb..75200c9 100644
--- a/runtime/src/message/util/array.rs
+++ b/runtime/src/message/util/array.rs
@@ -72,7 +72,7 @@ impl<'a, Item: From<&'a [u8]>> Iterator for Iter<'a, Item> {
 
 impl<B: AsRef<[u8]>, T, Item: FixedSize> Array<B, T, Item> {
     pub fn from_parts(data: B, len: usize) -> Option<Array<B, T, Item>> {
-        match data.as_ref().len() == len * Item::SIZE {
+        match Some(data.as_ref().len()) == len.checked_mul(Item::SIZE) {
             true => Some(unsafe { Array::from_raw_parts(data, len) }),
             false => None
         }
@@ -116,7 +116,8 @@ impl<'a, T: FromSlice<'a, Output: ToUsize>, Item: FixedSize + FromSlice<'a, Outp
         let msg = T::from_slice(slice)?;
         let control_size = msg.size();
         let len = msg.into_inner().to_usize();
-        let total_size = control_size + (len * Item::SIZE);
+        let total_size = len.checked_mul(Item::SIZE)
+            .and_then(|v| v.checked_add(control_size)).ok_or(Error::Truncated)?;
         if slice.len() < total_size {
             Err(Error::Truncated)
         } else {
-- 
2.43.0


From e13ad8be1070f211f40932edc63dbc0863bf34b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 03/35] fix: end list iteration after the first decoding error

---
 runtime/src/message/util/list.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtime/src/message/util/list.rs b/runtime/src/message/util/list.rs
index 23164cd..e8e6ce0 100644
--- a/runtime/src/message/util/list.rs
+++ b/runtime/src/message/util/list.rs
@@ -73,7 +73,10 @@ impl<'a, Item: FromSlice<'a, Output = Item>> Iterator for Iter<'a, Item> {
             return None;
         }
         let msg = match Item::from_slice(self.data) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
@@ -96,7 +99,10 @@ impl<'a, Item: FromSlice<'a, Output = Item> + FromSliceWithOffsets<'a>> Iterator
             return None;
         }
         let msg = match Item::from_slice_with_offsets(&self.data[..]) {
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                self.len = 0;
+                return Some(Err(e));
+            },
             Ok(v) => v
         };
         self.data = &self.data[msg.size()..];
-- 
2.43.0


From 0d7d59aada6994b87fdb0cabe7b9cdf45dccab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 04/35] fix: address the right bits and bytes in big-endian
 codecs

---
 runtime/src/codec/bits.rs  | 14 +++++++-------
 runtime/src/codec/bytes.rs | 14 ++++++++++++++
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index fb992a3..fd277e7 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -71,13 +71,13 @@ pub struct BitCodecBE;
 
 impl BitCodec for BitCodecLE {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
         let value = T::read_bytes_le(buffer);
         (value >> T::from_usize(BIT_OFFSET)) & T::from_usize(mask)
     }
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
         let reset_mask = !(mask << BIT_OFFSET);
         let original = T::read_bytes_le(buffer);
         let clean = original & T::from_usize(reset_mask);
@@ -88,17 +88,17 @@ impl BitCodec for BitCodecLE {
 
 impl BitCodec for BitCodecBE {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
-        let mask: usize = (1 << BIT_SIZE) - 1;
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
         let value = T::read_bytes_be(buffer);
-        (value >> T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET)) & T::from_usize(mask)
+        (value >> T::from_usize(size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET)) & T::from_usize(mask)
     }
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
-        let mask: usize = (1 << BIT_SIZE) - 1;
-        let reset_mask = !(mask << BIT_OFFSET);
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
+        let reset_mask = !(mask << (size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET));
         let original = T::read_bytes_be(buffer);
         let clean = original & T::from_usize(reset_mask);
-        let value = (value & T::from_usize(mask)) << T::from_usize(8 - (BIT_SIZE % 8) - BIT_OFFSET);
+        let value = (value & T::from_usize(mask)) << T::from_usize(size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET);
         (clean | value).write_bytes_be(buffer);
     }
 }
diff --git a/runtime/src/codec/bytes.rs b/runtime/src/codec/bytes.rs
index 2143e4c..20b90f8 100644
--- a/runtime/src/codec/bytes.rs
+++ b/runtime/src/codec/bytes.rs
@@ -82,9 +82,23 @@ impl ByteCodec for ByteCodecBE {
         T::read_bytes_be(buffer)
     }
 
+    unsafe fn read_unaligned<T: ReadBytes>(buffer: &[u8]) -> T {
+        let mut data = [0; 8];
+        data[8 - buffer.len()..].copy_from_slice(buffer);
+        Self::read_aligned::<T>(&data[8 - size_of::<T>()..])
+    }
+
     unsafe fn write_aligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
         value.write_bytes_be(buffer);
     }
+
+    unsafe fn write_unaligned<T: WriteBytes>(buffer: &mut [u8], value: T) {
+        let mut data = [0; 8];
+        let start = data.len() - buffer.len();
+        data[start..].copy_from_slice(buffer);
+        Self::write_aligned::<T>(&mut data[8 - size_of::<T>()..], value);
+        buffer.copy_from_slice(&data[start..]);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1e99913ec67c63147f0591473243b0ba12ac0870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 05/35] fix: support structure fields crossing byte boundaries

---
 compiler/src/compiler/structure.rs |  9 +++--
 compiler/src/gen/base/structure.rs |  4 +-
 runtime/src/codec/bits.rs          | 61 ++++++++++++++++++++++++------
 3 files changed, 56 insertions(+), 18 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 3517776..10540b1 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -126,14 +126,15 @@ pub struct Location {
 impl Location {
     fn from_model(bit_size: usize, bit_offset: usize) -> Self {
         let byte_offset = bit_offset / 8;
+        let bit_offset = bit_offset - byte_offset * 8;
         Self {
             byte_offset,
-            bit_offset: bit_offset - byte_offset * 8,
+            bit_offset,
             bit_size,
-            byte_size: if bit_size % 8 != 0 {
-                (bit_size / 8) + 1
+            byte_size: if (bit_offset + bit_size) % 8 != 0 {
+                ((bit_offset + bit_size) / 8) + 1
             } else {
-                bit_size / 8
+                (bit_offset + bit_size) / 8
             }
         }
     }
diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 4041308..903bc2e 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -52,7 +52,7 @@ fn gen_field_getter<U: Utilities>(field: &Field, template: &Template, type_path_
             let raw_field_type = U::get_field_type(raw_field_type);
             let function_name = U::get_function_name(v);
             scope.var("raw_type", raw_field_type).var("function_name", function_name);
-            if v.loc.bit_size % 8 != 0 {
+            if v.loc.bit_offset != 0 || v.loc.bit_size % 8 != 0 {
                 scope.var("codec", U::get_bit_codec_inline(v.endianness))
                     .var_d("bit_offset", v.loc.bit_offset)
                     .var_d("bit_size", v.loc.bit_size)
@@ -84,7 +84,7 @@ fn gen_field_setter<U: Utilities>(field: &Field, template: &Template, type_path_
             let raw_field_type = U::get_field_type(raw_field_type);
             let function_name = U::get_function_name_mut(v);
             scope.var("raw_type", raw_field_type).var("function_name", function_name);
-            if v.loc.bit_size % 8 != 0 {
+            if v.loc.bit_offset != 0 || v.loc.bit_size % 8 != 0 {
                 scope.var("codec", U::get_bit_codec_inline(v.endianness))
                     .var_d("bit_offset", v.loc.bit_offset)
                     .var_d("bit_size", v.loc.bit_size)
diff --git a/runtime/src/codec/bits.rs b/runtime/src/codec/bits.rs
index fd277e7..8e9f249 100644
--- a/runtime/src/codec/bits.rs
+++ b/runtime/src/codec/bits.rs
@@ -33,11 +33,7 @@ use crate::util::ToUsize;
 pub trait BitCodec {
     unsafe fn read_aligned<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T;
 
-    unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
-        let mut data = [0; 8];
-        data[..buffer.len()].copy_from_slice(buffer);
-        Self::read_aligned::<T, BIT_OFFSET, BIT_SIZE>(&data)
-    }
+    unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T;
 
     fn read<T: ToUsize + ReadBytes + Shr<Output = T> + BitAnd<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
         if size_of::<T>() != buffer.len() {
@@ -49,13 +45,7 @@ pub trait BitCodec {
 
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T);
 
-    unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
-        let mut data = [0; 8];
-        data[..buffer.len()].copy_from_slice(buffer);
-        Self::write_aligned::<T, BIT_OFFSET, BIT_SIZE>(&mut data, value);
-        let motherfuckingrust = buffer.len();
-        buffer.copy_from_slice(&data[..motherfuckingrust]);
-    }
+    unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T);
 
     fn write<T: ToUsize + ReadBytes + WriteBytes + Shl<Output = T> + Shr<Output = T> + BitAnd<Output = T> + BitOr<Output = T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         if size_of::<T>() != buffer.len() {
@@ -66,6 +56,26 @@ pub trait BitCodec {
     }
 }
 
+fn load_le(buffer: &[u8]) -> u128 {
+    buffer.iter().rev().fold(0, |acc, v| (acc << 8) | *v as u128)
+}
+
+fn store_le(buffer: &mut [u8], value: u128) {
+    for (id, v) in buffer.iter_mut().enumerate() {
+        *v = (value >> (id * 8)) as u8;
+    }
+}
+
+fn load_be(buffer: &[u8]) -> u128 {
+    buffer.iter().fold(0, |acc, v| (acc << 8) | *v as u128)
+}
+
+fn store_be(buffer: &mut [u8], value: u128) {
+    for (id, v) in buffer.iter_mut().rev().enumerate() {
+        *v = (value >> (id * 8)) as u8;
+    }
+}
+
 pub struct BitCodecLE;
 pub struct BitCodecBE;
 
@@ -76,6 +86,12 @@ impl BitCodec for BitCodecLE {
         (value >> T::from_usize(BIT_OFFSET)) & T::from_usize(mask)
     }
 
+    unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
+        let value = load_le(buffer) >> BIT_OFFSET;
+        T::from_usize(value as usize & mask)
+    }
+
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
         let reset_mask = !(mask << BIT_OFFSET);
@@ -84,6 +100,13 @@ impl BitCodec for BitCodecLE {
         let value = (value & T::from_usize(mask)) << T::from_usize(BIT_OFFSET);
         (clean | value).write_bytes_le(buffer);
     }
+
+    unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
+        let clean = load_le(buffer) & !((mask as u128) << BIT_OFFSET);
+        let value = ((value.to_usize() & mask) as u128) << BIT_OFFSET;
+        store_le(buffer, clean | value);
+    }
 }
 
 impl BitCodec for BitCodecBE {
@@ -93,6 +116,12 @@ impl BitCodec for BitCodecBE {
         (value >> T::from_usize(size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET)) & T::from_usize(mask)
     }
 
+    unsafe fn read_unaligned<T: ToUsize + ReadBytes + Shr<Output=T> + BitAnd<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &[u8]) -> T {
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
+        let value = load_be(buffer) >> (buffer.len() * 8 - BIT_SIZE - BIT_OFFSET);
+        T::from_usize(value as usize & mask)
+    }
+
     unsafe fn write_aligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
         let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
         let reset_mask = !(mask << (size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET));
@@ -101,6 +130,14 @@ impl BitCodec for BitCodecBE {
         let value = (value & T::from_usize(mask)) << T::from_usize(size_of::<T>() * 8 - BIT_SIZE - BIT_OFFSET);
         (clean | value).write_bytes_be(buffer);
     }
+
+    unsafe fn write_unaligned<T: ToUsize + ReadBytes + WriteBytes + Shl<Output=T> + Shr<Output=T> + BitAnd<Output=T> + BitOr<Output=T>, const BIT_OFFSET: usize, const BIT_SIZE: usize>(buffer: &mut [u8], value: T) {
+        let mask: usize = usize::MAX >> (usize::BITS as usize - BIT_SIZE);
+        let shift = buffer.len() * 8 - BIT_SIZE - BIT_OFFSET;
+        let clean = load_be(buffer) & !((mask as u128) << shift);
+        let value = ((value.to_usize() & mask) as u128) << shift;
+        store_be(buffer, clean | value);
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From f99fe5b13746ce474e89557aa2aa9ecf44d807ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 06/35] fix: honour the endianness declared by a protocol

---
 compiler/src/compiler/message.rs  | 2 +-
 compiler/src/compiler/protocol.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index ad2a248..ea0d9aa 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -145,7 +145,7 @@ impl Field {
                                     is_dyn_sized: false,
                                     is_element_dyn_sized: false
                                 },
-                                endianness: proto.endianness
+                                endianness: fixed.endianness
                             })
                         } else {
                             Ok(Field {
diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index cc0dccc..e53245a 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -55,7 +55,7 @@ impl Protocol {
     pub fn from_model<T: ImportResolver>(value: crate::model::Protocol, solver: &T) -> Result<Self, Error> {
         let mut proto = Protocol {
             name: value.name,
-            endianness: Endianness::Little,
+            endianness: value.endianness.unwrap_or(Endianness::Little),
             type_path_by_name: TypePathMap::new(),
             structs_by_name: HashMap::new(),
             messages_by_name: HashMap::new(),
-- 
2.43.0


From e7f48b6cb1438b072dc9edf20a9825b99e59a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 07/35] fix: map float range views with a non-zero minimum
 correctly

---
 compiler/src/compiler/structure.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 10540b1..6b928a7 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -191,10 +191,10 @@ impl FieldView {
                     return Err(Error::UnsupportedViewType(ty));
                 }
                 let raw_max: usize = (1 << bit_size) - 1;
-                let a = max / (raw_max as f64);
+                let a = (max - min) / (raw_max as f64);
                 let b = min;
                 let a_inv = 1.0 / a;
-                let b_inv = -b;
+                let b_inv = -b * a_inv;
                 Ok(FieldView::Float { a, b, a_inv, b_inv })
             }
             Some(StructFieldView::FloatMultiplier { multiplier }) => {
-- 
2.43.0


From 2bc379a7c881864846ff832ed9cc1da3e3903dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 08/35] fix: saturate float views instead of wrapping to the
 other end of the range

---
 compiler/src/gen/base/structure.rs             | 1 +
 compiler/src/gen/rust/structure.field.template | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index 903bc2e..c541da1 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -134,6 +134,7 @@ fn gen_field_view_setter<U: Utilities>(field: &FixedField, scope: &Scope, type_p
     match &field.view {
         FieldView::Float { a_inv, b_inv, .. } => scope.var("view_type", U::get_field_type(field.ty))
             .var("a_inv", format!("{:?}", a_inv)).var("b_inv", format!("{:?}", b_inv))
+            .var_d("raw_max", u64::MAX >> (64 - field.loc.bit_size))
             .render("setters", &["view_float"]).unwrap(),
         FieldView::Enum(e) => scope.var("view_type", type_path_by_name.get(&e.name))
             .var_d("enum_largest", e.largest).render("setters", &["view_enum"]).unwrap(),
diff --git a/compiler/src/gen/rust/structure.field.template b/compiler/src/gen/rust/structure.field.template
index e4b51f7..3d707d2 100644
--- a/compiler/src/gen/rust/structure.field.template
+++ b/compiler/src/gen/rust/structure.field.template
@@ -98,7 +98,7 @@ impl<T: AsMut<[u8]>> {struct_name}<T> {{
 #fragment push view_float
     pub fn set_{name}(&mut self, value: {view_type}) -> &mut Self {{
         let raw_value = value * {a_inv} + {b_inv};
-        self.set_raw_{name}(raw_value as {raw_type});
+        self.set_raw_{name}((raw_value as {raw_type}).min({raw_max}));
         self
     }}
 #fragment pop
-- 
2.43.0


From 6b48b634a0191a62d596688e40699fcd002d8e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 09/35] fix: decode enum views by value instead of transmuting
 the raw integer

---
 compiler/src/gen/base/structure.rs              |  8 ++++++--
 compiler/src/gen/rust/structure.field.template  | 11 ++++++-----
 compiler/src/gen/swift/structure.field.template |  2 ++
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/compiler/src/gen/base/structure.rs b/compiler/src/gen/base/structure.rs
index c541da1..24efdaa 100644
--- a/compiler/src/gen/base/structure.rs
+++ b/compiler/src/gen/base/structure.rs
@@ -111,8 +111,12 @@ fn gen_field_view_getter<U: Utilities>(field: &FixedField, scope: &Scope, type_p
         FieldView::Float { a, b, .. } => scope.var("view_type", U::get_field_type(field.ty))
             .var("a", format!("{:?}", a)).var("b", format!("{:?}", b))
             .render("getters", &["view_float"]).unwrap(),
-        FieldView::Enum(e) => scope.var("view_type", type_path_by_name.get(&e.name))
-            .var_d("enum_largest", e.largest).render("getters", &["view_enum"]).unwrap(),
+        FieldView::Enum(e) => {
+            scope.var("view_type", type_path_by_name.get(&e.name));
+            let cases = e.variants.iter().map(|(k, v)| scope.clone().var("key", k).var_d("value", v)
+                .render("getters.view_enum", &["case"]).unwrap()).join("");
+            scope.var("cases", cases).render("getters", &["view_enum"]).unwrap()
+        },
         FieldView::Transmute => {
             let field_type = U::get_field_type(field.ty);
             scope.var("view_type", field_type);
diff --git a/compiler/src/gen/rust/structure.field.template b/compiler/src/gen/rust/structure.field.template
index 3d707d2..aac056e 100644
--- a/compiler/src/gen/rust/structure.field.template
+++ b/compiler/src/gen/rust/structure.field.template
@@ -30,11 +30,12 @@ impl<T: AsRef<[u8]>> {struct_name}<T> {{
 #fragment pop
 #fragment push view_enum
     pub fn get_{name}(&self) -> Option<{view_type}> {{
-        let raw_value = self.get_raw_{name}();
-        if raw_value > {enum_largest} {{
-            None
-        }} else {{
-            Some(unsafe {{ std::mem::transmute::<{raw_type}, {view_type}>(raw_value) }})
+        match self.get_raw_{name}() {{
+{cases}
+#fragment push case
+            {value} => Some({view_type}::{key}),
+#fragment pop
+            _ => None
         }}
     }}
 #fragment pop
diff --git a/compiler/src/gen/swift/structure.field.template b/compiler/src/gen/swift/structure.field.template
index 74fccbe..c4ee1e1 100644
--- a/compiler/src/gen/swift/structure.field.template
+++ b/compiler/src/gen/swift/structure.field.template
@@ -33,6 +33,8 @@ extension {struct_name} where T: BP3DProto.Buffer {{
         let raw_value = self.raw_{name};
         return {view_type}(raw: raw_value);
     }}
+#fragment push case
+#fragment pop
 #fragment pop
 #fragment push view_transmute
     public {name}: {view_type} {{
-- 
2.43.0


From cfef3b7f1146769531dd062eecda93477362d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 10/35] fix: reject unsupported bit sizes and array lengths
 instead of panicking

---
 compiler/src/compiler/error.rs     |  1 +
 compiler/src/compiler/structure.rs | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 5c77b70..1a2ea14 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -39,6 +39,7 @@ simple_error! {
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
+        ZeroArray => "arrays in structures must have at least 1 item",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
         InvalidUnionDiscriminant => "invalid union discriminant path",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 6b928a7..5c191e6 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -91,7 +91,9 @@ impl FixedFieldType {
         let motherfuckingrust = ty1.clone();
         let ty = ty1.get_simple_type();
         let bit_size = ty1.get_bit_size().ok_or(Error::UnsupportedType(ty1))?;
-        if ty == SimpleType::Boolean {
+        if bit_size == 0 || bit_size > 64 {
+            Err(Error::UnsupportedBitSize(bit_size))
+        } else if ty == SimpleType::Boolean {
             Ok(Self::Bool)
         } else if ty == SimpleType::Float && bit_size == 32 {
             Ok(Self::Float32)
@@ -190,7 +192,7 @@ impl FieldView {
                 if ty != SimpleType::Float {
                     return Err(Error::UnsupportedViewType(ty));
                 }
-                let raw_max: usize = (1 << bit_size) - 1;
+                let raw_max = u64::MAX >> (64 - bit_size);
                 let a = (max - min) / (raw_max as f64);
                 let b = min;
                 let a_inv = 1.0 / a;
@@ -299,9 +301,14 @@ impl Field {
             _ => {
                 let array_len = value.array_len.unwrap_or(1);
                 let mut bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
-                let view = FieldView::from_model(proto, value.info.get_simple_type(), bit_size, value.view)?;
-                bit_size *= array_len;
+                let simple_type = value.info.get_simple_type();
                 let ty = FixedFieldType::from_model(value.info)?;
+                let view = FieldView::from_model(proto, simple_type, bit_size, value.view)?;
+                if array_len == 0 {
+                    return Err(Error::ZeroArray);
+                }
+                bit_size = bit_size.checked_mul(array_len).ok_or(Error::UnsupportedBitSize(usize::MAX))?;
+                let next_bit_offset = last_bit_offset.checked_add(bit_size).ok_or(Error::UnsupportedBitSize(usize::MAX))?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
                     if bit_size % 8 != 0 {
@@ -313,7 +320,7 @@ impl Field {
                         array_len,
                         ty,
                         loc
-                    }), last_bit_offset + bit_size))
+                    }), next_bit_offset))
                 } else {
                     Ok((Self::Fixed(FixedField {
                         name: value.name,
@@ -321,7 +328,7 @@ impl Field {
                         ty,
                         loc,
                         view
-                    }), last_bit_offset + bit_size))
+                    }), next_bit_offset))
                 }
             }
         }
-- 
2.43.0


From c43f63f49bcdd6a7095e329537b101b312874d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 11/35] fix: reject arrays and nested structures which are not
 byte aligned

---
 compiler/src/compiler/error.rs     |  1 +
 compiler/src/compiler/structure.rs | 14 +++++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 1a2ea14..ecd0ae2 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -39,6 +39,7 @@ simple_error! {
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
+        UnalignedStruct => "unaligned nested structure",
         ZeroArray => "arrays in structures must have at least 1 item",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 5c191e6..678e059 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -292,26 +292,30 @@ impl Field {
         match value.info {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                if last_bit_offset % 8 != 0 {
+                    return Err(Error::UnalignedStruct);
+                }
+                let next_bit_offset = last_bit_offset.checked_add(r.bit_size).ok_or(Error::UnsupportedBitSize(usize::MAX))?;
                 Ok((Self::Struct(StructField {
                     name: value.name,
                     r: r.clone(),
                     loc: Location::from_model(r.bit_size, last_bit_offset)
-                }), last_bit_offset + r.bit_size))
+                }), next_bit_offset))
             },
             _ => {
                 let array_len = value.array_len.unwrap_or(1);
-                let mut bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
+                let item_bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
                 let simple_type = value.info.get_simple_type();
                 let ty = FixedFieldType::from_model(value.info)?;
-                let view = FieldView::from_model(proto, simple_type, bit_size, value.view)?;
+                let view = FieldView::from_model(proto, simple_type, item_bit_size, value.view)?;
                 if array_len == 0 {
                     return Err(Error::ZeroArray);
                 }
-                bit_size = bit_size.checked_mul(array_len).ok_or(Error::UnsupportedBitSize(usize::MAX))?;
+                let bit_size = item_bit_size.checked_mul(array_len).ok_or(Error::UnsupportedBitSize(usize::MAX))?;
                 let next_bit_offset = last_bit_offset.checked_add(bit_size).ok_or(Error::UnsupportedBitSize(usize::MAX))?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
-                    if bit_size % 8 != 0 {
+                    if item_bit_size % 8 != 0 || last_bit_offset % 8 != 0 {
                         return Err(Error::UnalignedArrayCodec);
                     }
                     Ok((Self::Array(FixedArrayField {
-- 
2.43.0


From e0c93a3c4fc1d3c9c15f53565c3a318b84c8183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 12/35] fix: reject views on nested structures and array items
 without a codec

---
 compiler/src/compiler/error.rs     | 1 +
 compiler/src/compiler/structure.rs | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index ecd0ae2..1c40afa 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -40,6 +40,7 @@ simple_error! {
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
         UnalignedStruct => "unaligned nested structure",
+        UnsupportedArrayItem(SimpleType) => "unsupported array item size for type: {:?}",
         ZeroArray => "arrays in structures must have at least 1 item",
         SolverError => "failed to resolve imported type",
         ZeroEnum => "enums must have at least 1 variant",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 678e059..1a0c985 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -292,6 +292,9 @@ impl Field {
         match value.info {
             StructFieldType::Struct { item_type } => {
                 let r = proto.structs_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                if value.view.is_some() {
+                    return Err(Error::UnsupportedViewType(SimpleType::Struct));
+                }
                 if last_bit_offset % 8 != 0 {
                     return Err(Error::UnalignedStruct);
                 }
@@ -307,7 +310,7 @@ impl Field {
                 let item_bit_size = value.info.get_bit_size().ok_or(Error::MissingBitSize)?;
                 let simple_type = value.info.get_simple_type();
                 let ty = FixedFieldType::from_model(value.info)?;
-                let view = FieldView::from_model(proto, simple_type, item_bit_size, value.view)?;
+                let view = FieldView::from_model(proto, simple_type.clone(), item_bit_size, value.view)?;
                 if array_len == 0 {
                     return Err(Error::ZeroArray);
                 }
@@ -315,6 +318,10 @@ impl Field {
                 let next_bit_offset = last_bit_offset.checked_add(bit_size).ok_or(Error::UnsupportedBitSize(usize::MAX))?;
                 let loc = Location::from_model(bit_size, last_bit_offset);
                 if array_len > 1 {
+                    if (simple_type == SimpleType::Float && item_bit_size != 32 && item_bit_size != 64)
+                        || (simple_type == SimpleType::Boolean && item_bit_size != 8) {
+                        return Err(Error::UnsupportedArrayItem(simple_type));
+                    }
                     if item_bit_size % 8 != 0 || last_bit_offset % 8 != 0 {
                         return Err(Error::UnalignedArrayCodec);
                     }
-- 
2.43.0


From daed11faf190db4dbafbc5d9f67e0cb896917113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 13/35] fix: reject enums which cannot be represented by the
 field or in Rust

---
 compiler/src/compiler/enum.rs      | 3 +++
 compiler/src/compiler/error.rs     | 2 ++
 compiler/src/compiler/structure.rs | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/compiler/src/compiler/enum.rs b/compiler/src/compiler/enum.rs
index 39138f0..0aa3850 100644
--- a/compiler/src/compiler/enum.rs
+++ b/compiler/src/compiler/enum.rs
@@ -41,6 +41,9 @@ impl Enum {
     pub fn from_model(value: crate::model::protocol::Enum) -> Result<Enum, Error> {
         let mut variants: Vec<(String, usize)> = value.variants.into_iter().collect();
         variants.sort_by(|(_, v), (_, v1)| v.cmp(v1));
+        if let Some(v) = variants.windows(2).find(|v| v[0].1 == v[1].1) {
+            return Err(Error::DuplicateVariant(v[1].0.clone()));
+        }
         let mut variants_map = HashMap::new();
         let largest = variants.last().map(|(_, v)| *v).ok_or(Error::ZeroEnum)?;
         for (k, v) in &variants {
diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 1c40afa..7ee8f54 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -43,6 +43,8 @@ simple_error! {
         UnsupportedArrayItem(SimpleType) => "unsupported array item size for type: {:?}",
         ZeroArray => "arrays in structures must have at least 1 item",
         SolverError => "failed to resolve imported type",
+        EnumTooLarge(usize) => "enum variants do not fit in a field of {} bits",
+        DuplicateVariant(String) => "enum variant {} has the same value as another variant",
         ZeroEnum => "enums must have at least 1 variant",
         InvalidUnionDiscriminant => "invalid union discriminant path",
         FloatInUnionDiscriminant => "floats are not allowed as union discriminants",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 1a0c985..14381ab 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -186,6 +186,9 @@ impl FieldView {
                     return Err(Error::UnsupportedViewType(ty));
                 }
                 let r = proto.enums_by_name.get(&name).ok_or_else(|| Error::UndefinedReference(name))?;
+                if r.largest as u64 > u64::MAX >> (64 - bit_size) {
+                    return Err(Error::EnumTooLarge(bit_size));
+                }
                 Ok(FieldView::Enum(r.clone()))
             }
             Some(StructFieldView::FloatRange { min, max }) => {
-- 
2.43.0


From 43116834009fc9dd8eb03e2480cf577640c994c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 14/35] fix: reject float views without finite coefficients

---
 compiler/src/compiler/error.rs     |  1 +
 compiler/src/compiler/structure.rs | 13 +++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index 7ee8f54..aadabe4 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -36,6 +36,7 @@ simple_error! {
         UnsupportedBitSize(usize) => "unsupported bit size for fixed field ({}), maximum is 64",
         UnsupportedType(StructFieldType) => "unsupported field type in struct: {:?}",
         UnsupportedViewType(SimpleType) => "unsupported view for type: {:?}",
+        InvalidFloatView => "float view is not invertible",
         MissingBitSize => "missing bits specifier on a structure field",
         UndefinedReference(String) => "undefined reference to '{}'",
         UnalignedArrayCodec => "unaligned array in structure",
diff --git a/compiler/src/compiler/structure.rs b/compiler/src/compiler/structure.rs
index 14381ab..7f93ed7 100644
--- a/compiler/src/compiler/structure.rs
+++ b/compiler/src/compiler/structure.rs
@@ -179,6 +179,15 @@ impl FieldView {
         }
     }
 
+    fn new_float(bit_size: usize, a: f64, b: f64, a_inv: f64, b_inv: f64) -> Result<Self, Error> {
+        let is_f32 = bit_size <= 16 || bit_size == 32;
+        let is_valid = [a, b, a_inv, b_inv].iter().all(|v| v.is_finite() && (!is_f32 || (*v as f32).is_finite()));
+        match is_valid {
+            true => Ok(FieldView::Float { a, b, a_inv, b_inv }),
+            false => Err(Error::InvalidFloatView)
+        }
+    }
+
     fn from_model(proto: &Protocol, ty: SimpleType, bit_size: usize, value: Option<StructFieldView>) -> Result<Self, Error> {
         match value {
             Some(StructFieldView::Enum { name }) => {
@@ -200,7 +209,7 @@ impl FieldView {
                 let b = min;
                 let a_inv = 1.0 / a;
                 let b_inv = -b * a_inv;
-                Ok(FieldView::Float { a, b, a_inv, b_inv })
+                Self::new_float(bit_size, a, b, a_inv, b_inv)
             }
             Some(StructFieldView::FloatMultiplier { multiplier }) => {
                 if ty != SimpleType::Float {
@@ -210,7 +219,7 @@ impl FieldView {
                 let b = 0.0;
                 let a_inv = 1.0 / a;
                 let b_inv = 0.0;
-                Ok(FieldView::Float { a, b, a_inv, b_inv })
+                Self::new_float(bit_size, a, b, a_inv, b_inv)
             }
             None => {
                 if ty == SimpleType::Float && bit_size != 32 && bit_size != 64 {
-- 
2.43.0


From b6ceb6dffaad777c3e0cc6096b83103d368f3fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 15/35] fix: reject union discriminant paths which do not end
 at a field

---
 compiler/src/compiler/union.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index b81a205..089c9c4 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -108,13 +108,17 @@ impl DiscriminantField {
         let mut leaf = proto.structs_by_name.get(name).ok_or_else(|| Error::UndefinedReference(name.into()))?;
         let root = leaf;
         let mut index_list = Vec::new();
+        let mut leaf_index = None;
         for sub in parts {
+            if leaf_index.is_some() {
+                return Err(Error::InvalidUnionDiscriminant);
+            }
             let (index, field) = leaf.fields.iter().enumerate()
                 .find(|(_, v)| v.name() == sub)
                 .ok_or_else(|| Error::UndefinedReference(format!("{}.{}", name, sub)))?;
             index_list.push(index);
             match field {
-                Field::Fixed(_) => break,
+                Field::Fixed(_) => leaf_index = Some(index),
                 Field::Struct(v) => leaf = &v.r,
                 Field::Array(_) => return Err(Error::InvalidUnionDiscriminant)
             }
@@ -122,7 +126,7 @@ impl DiscriminantField {
         Ok(DiscriminantField {
             root: root.clone(),
             leaf: leaf.clone(),
-            leaf_index: index_list.last().map(|v| *v).unwrap(),
+            leaf_index: leaf_index.ok_or(Error::InvalidUnionDiscriminant)?,
             index_list
         })
     }
-- 
2.43.0


From 867fd7bdee629cc745319179b19240bef325c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 16/35] fix: store union cases as raw discriminant values and
 reject those which do not fit

---
 compiler/src/compiler/union.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index 089c9c4..edbc8b7 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -29,7 +29,7 @@
 use std::rc::Rc;
 use crate::compiler::message::{Referenced, SizeInfo};
 use crate::compiler::{Error, Protocol};
-use crate::compiler::structure::{Field, FieldView, FixedField, Structure};
+use crate::compiler::structure::{Field, FieldView, FixedField, FixedFieldType, Structure};
 
 #[derive(Clone, Debug)]
 pub struct UnionField {
@@ -40,14 +40,26 @@ pub struct UnionField {
 
 impl UnionField {
     pub fn from_model(proto: &Protocol, discriminant: &FixedField, value: crate::model::union::UnionField) -> Result<Self, Error> {
+        let max = u64::MAX >> (64 - discriminant.loc.bit_size);
         let case: usize = match &discriminant.view {
             FieldView::Float { .. } => return Err(Error::FloatInUnionDiscriminant),
             FieldView::Enum(v) => v.variants_map.get(&value.case).map(|v| *v).ok_or_else(|| Error::InvalidUnionCase(value.case))?,
-            FieldView::Transmute | FieldView::SignedCast { .. } => {
-                let value: isize = value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?;
-                value as usize
+            FieldView::Transmute if matches!(discriminant.ty, FixedFieldType::Float32 | FixedFieldType::Float64) =>
+                return Err(Error::FloatInUnionDiscriminant),
+            FieldView::Transmute | FieldView::SignedCast { .. } if value.case.starts_with('-') && discriminant.ty != FixedFieldType::Bool => {
+                let case: i64 = value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case.clone()))?;
+                if case < -((max / 2) as i64) - 1 {
+                    return Err(Error::InvalidUnionCase(value.case));
+                }
+                (case as u64 & max) as usize
+            }
+            FieldView::Transmute | FieldView::SignedCast { .. } | FieldView::None => {
+                let case: usize = value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case.clone()))?;
+                if case as u64 > max {
+                    return Err(Error::InvalidUnionCase(value.case));
+                }
+                case
             }
-            FieldView::None => value.case.parse().map_err(|_| Error::InvalidUnionCase(value.case))?
         };
         let item_type = value.item_type.map(|v| Referenced::lookup(proto, &v).ok_or_else(|| Error::UndefinedReference(v)))
             .transpose()?;
-- 
2.43.0


From 3c9391b46d38806c1d2e755e87e5906a1d851e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 17/35] fix: reject unions without cases or with ambiguous
 cases

---
 compiler/src/compiler/error.rs | 1 +
 compiler/src/compiler/union.rs | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/compiler/src/compiler/error.rs b/compiler/src/compiler/error.rs
index aadabe4..34d9ce3 100644
--- a/compiler/src/compiler/error.rs
+++ b/compiler/src/compiler/error.rs
@@ -47,6 +47,7 @@ simple_error! {
         EnumTooLarge(usize) => "enum variants do not fit in a field of {} bits",
         DuplicateVariant(String) => "enum variant {} has the same value as another variant",
         ZeroEnum => "enums must have at least 1 variant",
+        ZeroUnion => "unions must have at least 1 case",
         InvalidUnionDiscriminant => "invalid union discriminant path",
         FloatInUnionDiscriminant => "floats are not allowed as union discriminants",
         InvalidUnionCase(String) => "invalid union case {}",
diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index edbc8b7..f71c5c6 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -157,6 +157,12 @@ impl Union {
         let discriminant = DiscriminantField::from_model(proto, value.discriminant)?;
         let cases = value.cases.into_iter().map(|v| UnionField::from_model(proto, discriminant.get_leaf(), v))
             .collect::<Result<Vec<UnionField>, Error>>()?;
+        if cases.is_empty() {
+            return Err(Error::ZeroUnion);
+        }
+        if let Some((_, v)) = cases.iter().enumerate().find(|(k, v)| cases[..*k].iter().any(|v1| v1.case == v.case)) {
+            return Err(Error::InvalidUnionCase(v.name.clone()));
+        }
         let is_element_dyn_sized = cases.iter().any(|v| v.item_type.as_ref().map(|v| match v {
             Referenced::Struct(_) => false,
             Referenced::Message(v) => v.size.is_element_dyn_sized
-- 
2.43.0


From bd6a39b3bb6266eba1d1e8dbc17c8a5f1ca17b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 18/35] fix: check the discriminant when writing union cases
 without payload

---
 compiler/src/gen/rust/union.rs       | 21 +++++++++++----------
 compiler/src/gen/rust/union.template | 12 ++++++++++--
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index cbbf563..0a3a88e 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -82,17 +82,18 @@ fn gen_union_from_slice_impl(u: &Union, template: &Template, type_path_by_name:
 fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &TypePathMap) -> String {
     let generics = get_generics(u);
     let mut scope = template.scope();
+    let cases = u.cases.iter().map(|case| {
+        let mut scope = template.scope();
+        scope.var("name", &case.name).var_d("case", case.case);
+        match &case.item_type {
+            None => scope.render("write_to.none", &["case"]).unwrap(),
+            Some(item_type) => scope.var("type_name", type_path_by_name.get(item_type.name()))
+                .render("write_to.generics", &["case"]).unwrap()
+        }
+    }).join("");
+    scope.var("cases", cases);
     if generics != "" {
-        let cases = u.cases.iter().filter_map(|case| {
-            let mut scope = template.scope();
-            scope.var("name", &case.name).var_d("case", case.case);
-            match &case.item_type {
-                None => None,
-                Some(item_type) => Some(scope.var("type_name", type_path_by_name.get(item_type.name()))
-                    .render("write_to.generics", &["case"]).unwrap())
-            }
-        }).join("");
-        scope.var("cases", cases).render_to_var("write_to", &["generics"], "fragment").unwrap();
+        scope.render_to_var("write_to", &["generics"], "fragment").unwrap();
     } else {
         scope.render_to_var("write_to", &["none"], "fragment").unwrap();
     }
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index e20da4c..0f7484f 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -77,13 +77,21 @@ impl<'a> {union_name}{generics} {{
                 return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
             }},
 #fragment pop
-            _ => ()
         }};
         Ok(())
     }}
 #fragment pop
 #fragment push none
-    pub fn write_to<W: std::io::Write>(_: &Self, _: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+    pub fn write_to<W: std::io::Write>(input: &Self, discriminant: &{discriminant_type}<&'a [u8]>, _: W) -> bp3d_proto::message::Result<()> {{
+        let discriminant = discriminant.{discriminant_path};
+        match input {{
+{cases}
+#fragment push case
+            Self::{name} => if discriminant != {case} {{
+                return Err(bp3d_proto::message::Error::InvalidUnionDiscriminant(discriminant as _))
+            }},
+#fragment pop
+        }};
         Ok(())
     }}
 #fragment pop
-- 
2.43.0


From 8ff6b090c8d0d4c575b76f8da6cf0d085f0e172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 19/35] fix: only give a lifetime to generated types which
 borrow data

---
 compiler/src/gen/base/message.rs           | 11 ++++----
 compiler/src/gen/rust/message.ext.template |  2 +-
 compiler/src/gen/rust/message.rs           |  6 ++--
 compiler/src/gen/rust/message.template     |  2 +-
 compiler/src/gen/rust/union.rs             | 20 ++++++--------
 compiler/src/gen/rust/union.template       |  4 +--
 compiler/src/gen/rust/util.rs              | 32 ++++++++++++++++------
 7 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/compiler/src/gen/base/message.rs b/compiler/src/gen/base/message.rs
index afcfcc3..3aef480 100644
--- a/compiler/src/gen/base/message.rs
+++ b/compiler/src/gen/base/message.rs
@@ -29,6 +29,7 @@
 use itertools::Itertools;
 use crate::compiler::message::{Field, FieldType, Message, Referenced};
 use crate::compiler::structure::FixedFieldType;
+use crate::compiler::union::Union;
 use crate::compiler::util::TypePathMap;
 use crate::gen::template::Template;
 use crate::model::protocol::Endianness;
@@ -49,8 +50,8 @@ pub trait Utilities: crate::gen::base::structure::Utilities {
     fn get_payload_type() -> &'static str;
     fn get_payload_type_inline() -> &'static str;
     fn gen_struct_ref_type(type_name: &str) -> String;
-    fn gen_message_ref_type(type_name: &str) -> String;
-    fn gen_union_ref_type(type_name: &str) -> String;
+    fn gen_message_ref_type(type_name: &str, msg: &Message) -> String;
+    fn gen_union_ref_type(type_name: &str, u: &Union) -> String;
 }
 
 fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by_name: &TypePathMap) -> String {
@@ -58,7 +59,7 @@ fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by
         FieldType::Fixed(ty) => U::get_field_type(ty.ty).into(),
         FieldType::Ref(v) => match v {
             Referenced::Struct(v) => U::gen_struct_ref_type(type_path_by_name.get(&v.name)),
-            Referenced::Message(v) => U::gen_message_ref_type(type_path_by_name.get(&v.name)),
+            Referenced::Message(v) => U::gen_message_ref_type(type_path_by_name.get(&v.name), v),
         },
         FieldType::NullTerminatedString => U::get_string_type(StringType::NullTerminated).into(),
         FieldType::VarcharString(_) => U::get_string_type(StringType::Varchar).into(),
@@ -66,10 +67,10 @@ fn gen_field_decl<U: Utilities>(field: &Field, template: &Template, type_path_by
             .var("codec", U::get_value_type(field.endianness, v.ty))
             .var("type_name", type_path_by_name.get(&v.item_type.name))
             .render("", &["array"]).unwrap(),
-        FieldType::Union(v) => U::gen_union_ref_type(type_path_by_name.get(&v.r.name)),
+        FieldType::Union(v) => U::gen_union_ref_type(type_path_by_name.get(&v.r.name), &v.r),
         FieldType::List(v) => template.scope()
             .var("codec", U::get_value_type(field.endianness, v.ty))
-            .var("type_name", type_path_by_name.get(&v.item_type.name))
+            .var("type_name", U::gen_message_ref_type(type_path_by_name.get(&v.item_type.name), &v.item_type))
             .render("", &["list"]).unwrap(),
         FieldType::Payload => U::get_payload_type().into()
     };
diff --git a/compiler/src/gen/rust/message.ext.template b/compiler/src/gen/rust/message.ext.template
index 2cb28fe..d317eb9 100644
--- a/compiler/src/gen/rust/message.ext.template
+++ b/compiler/src/gen/rust/message.ext.template
@@ -3,5 +3,5 @@ bp3d_proto::generate_array_wrapper!({msg_name}{name:capitalize}, {item_type}, {c
 #fragment pop
 
 #fragment push decl_list
-pub type {msg_name}{name:capitalize}<'a, T> = bp3d_proto::message::util::List<T, {codec}, {item_type}<'a>>;
+pub type {msg_name}{name:capitalize}<{generics}T> = bp3d_proto::message::util::List<T, {codec}, {item_type}>;
 #fragment pop
diff --git a/compiler/src/gen/rust/message.rs b/compiler/src/gen/rust/message.rs
index aa78ddc..75362fb 100644
--- a/compiler/src/gen/rust/message.rs
+++ b/compiler/src/gen/rust/message.rs
@@ -30,7 +30,7 @@ use itertools::Itertools;
 use crate::compiler::message::{FieldType, Message};
 use crate::compiler::util::TypePathMap;
 use crate::gen::base::message::{generate, Utilities};
-use crate::gen::rust::util::RustUtils;
+use crate::gen::rust::util::{Generics, RustUtils};
 use crate::gen::template::Template;
 
 const TEMPLATE: &[u8] = include_bytes!("./message.template");
@@ -45,7 +45,9 @@ fn gen_message_array_type_decls(msg: &Message, type_path_by_name: &TypePathMap)
             FieldType::Array(v) => Some(template.var("item_type", type_path_by_name.get(&v.item_type.name))
                 .var("codec", RustUtils::get_value_type(field.endianness, v.ty))
                 .render("", &["decl_array"]).unwrap()),
-            FieldType::List(v) => Some(template.var("item_type", type_path_by_name.get(&v.item_type.name))
+            FieldType::List(v) => Some(template
+                .var("item_type", RustUtils::gen_message_ref_type(type_path_by_name.get(&v.item_type.name), &v.item_type))
+                .var("generics", if Generics::from_message(&v.item_type).has_lifetime { "'a, " } else { "" })
                 .var("codec", RustUtils::get_value_type(field.endianness, v.ty))
                 .render("", &["decl_list"]).unwrap()),
             _ => None
diff --git a/compiler/src/gen/rust/message.template b/compiler/src/gen/rust/message.template
index cfd510c..34d6512 100644
--- a/compiler/src/gen/rust/message.template
+++ b/compiler/src/gen/rust/message.template
@@ -13,5 +13,5 @@ bp3d_proto::message::util::Array::<&'a [u8], {codec}, {type_name}<&'a [u8]>>
 #fragment pop
 
 #fragment push list
-bp3d_proto::message::util::List::<&'a [u8], {codec}, {type_name}<'a>>
+bp3d_proto::message::util::List::<&'a [u8], {codec}, {type_name}>
 #fragment pop
diff --git a/compiler/src/gen/rust/union.rs b/compiler/src/gen/rust/union.rs
index 0a3a88e..8353727 100644
--- a/compiler/src/gen/rust/union.rs
+++ b/compiler/src/gen/rust/union.rs
@@ -30,16 +30,13 @@ use itertools::Itertools;
 use crate::compiler::message::Referenced;
 use crate::compiler::union::Union;
 use crate::compiler::util::TypePathMap;
+use crate::gen::rust::util::Generics;
 use crate::gen::template::Template;
 
 const TEMPLATE: &[u8] = include_bytes!("./union.template");
 
-fn get_generics(u: &Union) -> &str {
-    if u.cases.iter().any(|v| v.item_type.is_some()) {
-        "<'a>"
-    } else {
-        ""
-    }
+fn has_payload(u: &Union) -> bool {
+    u.cases.iter().any(|v| v.item_type.is_some())
 }
 
 fn get_discriminant_path(u: &Union) -> String {
@@ -70,8 +67,7 @@ fn gen_union_from_slice_impl(u: &Union, template: &Template, type_path_by_name:
     }).join("");
     let mut scope = template.scope();
     scope.var("cases", cases);
-    let generics = get_generics(u);
-    if generics != "" {
+    if has_payload(u) {
         scope.render_to_var("from_slice", &["generics"], "fragment").unwrap();
     } else {
         scope.render_to_var("from_slice", &["none"], "fragment").unwrap();
@@ -80,7 +76,6 @@ fn gen_union_from_slice_impl(u: &Union, template: &Template, type_path_by_name:
 }
 
 fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &TypePathMap) -> String {
-    let generics = get_generics(u);
     let mut scope = template.scope();
     let cases = u.cases.iter().map(|case| {
         let mut scope = template.scope();
@@ -92,7 +87,7 @@ fn gen_union_write_to_impl(u: &Union, template: &Template, type_path_by_name: &T
         }
     }).join("");
     scope.var("cases", cases);
-    if generics != "" {
+    if has_payload(u) {
         scope.render_to_var("write_to", &["generics"], "fragment").unwrap();
     } else {
         scope.render_to_var("write_to", &["none"], "fragment").unwrap();
@@ -120,6 +115,7 @@ fn gen_union_as_getters(u: &Union, template: &Template, type_path_by_name: &Type
             Some(Referenced::Struct(v)) => scope.var("type_name", type_path_by_name.get(&v.name))
                 .render("getters", &["struct"]).unwrap(),
             Some(Referenced::Message(v)) => scope.var("type_name", type_path_by_name.get(&v.name))
+                .var("case_generics", Generics::from_message(v).to_code())
                 .render("getters", &["message"]).unwrap(),
             None => scope.render("getters", &["none"]).unwrap()
         }
@@ -129,8 +125,7 @@ fn gen_union_as_getters(u: &Union, template: &Template, type_path_by_name: &Type
 
 pub fn gen_union_decl(u: &Union, type_path_by_name: &TypePathMap) -> String {
     let mut template = Template::compile(TEMPLATE).unwrap();
-    let generics = get_generics(u);
-    template.var("union_name", &u.name).var("generics", generics)
+    template.var("union_name", &u.name).var("generics", Generics::from_union(u).to_code())
         .var("discriminant_path_mut", get_discriminant_path_mut(u))
         .var("discriminant_path", get_discriminant_path(u))
         .var("discriminant_type", type_path_by_name.get(&u.discriminant.root.name));
@@ -141,6 +136,7 @@ pub fn gen_union_decl(u: &Union, type_path_by_name: &TypePathMap) -> String {
             .render("decl", &["struct"]).unwrap(),
         Some(Referenced::Message(v)) => template.scope()
             .var("name", &case.name).var("type_name", type_path_by_name.get(&v.name))
+            .var("case_generics", Generics::from_message(v).to_code())
             .render("decl", &["message"]).unwrap()
     }).join("");
     let mut code = template.scope().var("cases", cases).render("", &["decl"]).unwrap();
diff --git a/compiler/src/gen/rust/union.template b/compiler/src/gen/rust/union.template
index 0f7484f..0a8a354 100644
--- a/compiler/src/gen/rust/union.template
+++ b/compiler/src/gen/rust/union.template
@@ -6,7 +6,7 @@ pub enum {union_name}{generics} {{
     {name}({type_name}<&'a [u8]>),
 #fragment pop
 #fragment push message
-    {name}({type_name}<'a>),
+    {name}({type_name}{case_generics}),
 #fragment pop
 #fragment push none
     {name},
@@ -26,7 +26,7 @@ impl{generics} {union_name}{generics} {{
     }}
 #fragment pop
 #fragment push message
-    pub fn as_{name_lower}(&self) -> Option<&{type_name}<'a>> {{
+    pub fn as_{name_lower}(&self) -> Option<&{type_name}{case_generics}> {{
         match self {{
             Self::{name}(v) => Some(v),
             _ => None
diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index 89dddd4..6547df2 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -26,8 +26,9 @@
 // NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 // SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-use crate::compiler::message::{FieldType, Message};
+use crate::compiler::message::{FieldType, Message, Referenced};
 use crate::compiler::structure::{FixedField, FixedFieldType};
+use crate::compiler::union::Union;
 use crate::gen::base::message::StringType;
 use crate::model::protocol::Endianness;
 
@@ -37,12 +38,12 @@ pub struct Generics {
 
 impl Generics {
     pub fn from_message(msg: &Message) -> Self {
-        let has_lifetime = msg.fields.iter().any(|v| match v.ty {
-            FieldType::Ref(_) => true,
+        let has_lifetime = msg.fields.iter().any(|v| match &v.ty {
+            FieldType::Ref(v) => Self::from_referenced(v).has_lifetime,
             FieldType::NullTerminatedString => true,
             FieldType::VarcharString(_) => true,
             FieldType::Array(_) => true,
-            FieldType::Union(_) => true,
+            FieldType::Union(v) => Self::from_union(&v.r).has_lifetime,
             FieldType::List(_) => true,
             FieldType::Payload => true,
             _ => false
@@ -52,6 +53,21 @@ impl Generics {
         }
     }
 
+    pub fn from_union(u: &Union) -> Self {
+        let has_lifetime = u.cases.iter()
+            .any(|v| v.item_type.as_ref().map(|v| Self::from_referenced(v).has_lifetime).unwrap_or_default());
+        Generics {
+            has_lifetime
+        }
+    }
+
+    fn from_referenced(r: &Referenced) -> Self {
+        match r {
+            Referenced::Struct(_) => Generics { has_lifetime: true },
+            Referenced::Message(v) => Self::from_message(v)
+        }
+    }
+
     pub fn to_vec(&self) -> Vec<&'static str> {
         let mut generics = Vec::new();
         if self.has_lifetime {
@@ -185,11 +201,11 @@ impl crate::gen::base::message::Utilities for RustUtils {
         format!("{}<&'a [u8]>", type_name)
     }
 
-    fn gen_message_ref_type(type_name: &str) -> String {
-        format!("{}<'a>", type_name)
+    fn gen_message_ref_type(type_name: &str, msg: &Message) -> String {
+        format!("{}{}", type_name, Generics::from_message(msg).to_code())
     }
 
-    fn gen_union_ref_type(type_name: &str) -> String {
-        format!("{}<'a>", type_name)
+    fn gen_union_ref_type(type_name: &str, u: &Union) -> String {
+        format!("{}{}", type_name, Generics::from_union(u).to_code())
     }
 }
-- 
2.43.0


From 719d6fe0e1f6a8aa8e8582f71ca3add200dfc5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 20/35] fix: allow optional fields whose value type differs
 from their codec

---
 runtime/src/message/util/common.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index ed58874..52fde99 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -33,10 +33,10 @@ use crate::message::{Error, FromSlice, FromSliceWithOffsets, Message, WriteTo};
 
 pub struct Optional<T>(PhantomData<T>);
 
-impl<'a, T: FromSlice<'a, Output = T>> FromSlice<'a> for Optional<T> {
-    type Output = Option<T>;
+impl<'a, T: FromSlice<'a>> FromSlice<'a> for Optional<T> {
+    type Output = Option<T::Output>;
 
-    fn from_slice(slice: &'a [u8]) -> Result<Message<Option<T>>, Error> {
+    fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
         if slice.len() < 1 {
             Err(Error::Truncated)
         } else {
@@ -51,7 +51,7 @@ impl<'a, T: FromSlice<'a, Output = T>> FromSlice<'a> for Optional<T> {
     }
 }
 
-impl<'a, T: FromSlice<'a, Output = T> + FromSliceWithOffsets<'a>> FromSliceWithOffsets<'a> for Optional<T> {
+impl<'a, T: FromSliceWithOffsets<'a>> FromSliceWithOffsets<'a> for Optional<T> {
     type Offsets = Option<T::Offsets>;
 
     fn from_slice_with_offsets(slice: &'a [u8]) -> crate::message::Result<Message<(Self::Output, Self::Offsets)>> {
@@ -71,8 +71,8 @@ impl<'a, T: FromSlice<'a, Output = T> + FromSliceWithOffsets<'a>> FromSliceWithO
     }
 }
 
-impl<T: WriteTo<Input = T>> WriteTo for Optional<T> {
-    type Input = Option<T>;
+impl<T: WriteTo<Input: Sized>> WriteTo for Optional<T> {
+    type Input = Option<T::Input>;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
         match input {
-- 
2.43.0


From e7d1ec8e58bcd154c7735a7f08a024cfaa8b3811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 21/35] fix: allow optional strings and payloads

---
 compiler/src/gen/base/message.rs            |  1 +
 compiler/src/gen/base/message_from_slice.rs | 14 +++++++++++---
 compiler/src/gen/rust/util.rs               |  4 ++++
 runtime/src/message/util/common.rs          | 19 +++++++++++++++++++
 4 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/compiler/src/gen/base/message.rs b/compiler/src/gen/base/message.rs
index 3aef480..5550973 100644
--- a/compiler/src/gen/base/message.rs
+++ b/compiler/src/gen/base/message.rs
@@ -45,6 +45,7 @@ pub trait Utilities: crate::gen::base::structure::Utilities {
     fn get_value_type_inline(endianness: Endianness, ty: FixedFieldType) -> &'static str;
     fn gen_option_type(ty: &str) -> String;
     fn gen_option_type_inline(ty: &str) -> String;
+    fn gen_borrowed_type_inline(ty: &str) -> String;
     fn get_string_type(ty: StringType) -> &'static str;
     fn get_string_type_inline(ty: StringType) -> &'static str;
     fn get_payload_type() -> &'static str;
diff --git a/compiler/src/gen/base/message_from_slice.rs b/compiler/src/gen/base/message_from_slice.rs
index c7bd322..bcd1bcc 100644
--- a/compiler/src/gen/base/message_from_slice.rs
+++ b/compiler/src/gen/base/message_from_slice.rs
@@ -41,6 +41,14 @@ fn gen_optional<'a, U: Utilities>(optional: bool, type_name: impl Into<Cow<'a, s
     }
 }
 
+fn gen_optional_borrowed<'a, U: Utilities>(optional: bool, type_name: impl Into<Cow<'a, str>>) -> Cow<'a, str> {
+    if optional {
+        gen_optional::<U>(optional, U::gen_borrowed_type_inline(&*type_name.into()))
+    } else {
+        type_name.into()
+    }
+}
+
 pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Field, template: &Template, type_path_by_name: &'a TypePathMap) -> (Cow<'a, str>, Option<&'a str>) {
     let mut union = None;
     let msg_type = match &field.ty {
@@ -49,8 +57,8 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
             Referenced::Struct(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name)),
             Referenced::Message(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name))
         }
-        FieldType::NullTerminatedString => gen_optional::<U>(field.optional, U::get_string_type_inline(StringType::NullTerminated)),
-        FieldType::VarcharString(v) => gen_optional::<U>(field.optional, template.scope()
+        FieldType::NullTerminatedString => gen_optional_borrowed::<U>(field.optional, U::get_string_type_inline(StringType::NullTerminated)),
+        FieldType::VarcharString(v) => gen_optional_borrowed::<U>(field.optional, template.scope()
             .var("codec", U::get_value_type(field.endianness, v.ty)).render("", &["varchar"]).unwrap()),
         FieldType::Array(v) => gen_optional::<U>(field.optional, template.scope()
             .var("codec", U::get_value_type(field.endianness, v.ty))
@@ -72,7 +80,7 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
                     .render("", &["list"]).unwrap()),
             }
         },
-        FieldType::Payload => gen_optional::<U>(field.optional, U::get_payload_type_inline())
+        FieldType::Payload => gen_optional_borrowed::<U>(field.optional, U::get_payload_type_inline())
     };
     (msg_type, union)
 }
diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index 6547df2..2385bf3 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -178,6 +178,10 @@ impl crate::gen::base::message::Utilities for RustUtils {
         format!("bp3d_proto::message::util::Optional::<{}>", ty)
     }
 
+    fn gen_borrowed_type_inline(ty: &str) -> String {
+        format!("bp3d_proto::message::util::Borrowed::<{}>", ty)
+    }
+
     fn get_string_type(_: StringType) -> &'static str {
         "&'a str"
     }
diff --git a/runtime/src/message/util/common.rs b/runtime/src/message/util/common.rs
index 52fde99..fd8fd42 100644
--- a/runtime/src/message/util/common.rs
+++ b/runtime/src/message/util/common.rs
@@ -86,6 +86,25 @@ impl<T: WriteTo<Input: Sized>> WriteTo for Optional<T> {
     }
 }
 
+/// Adapts a codec of an unsized type (str, [u8]) to values stored as references.
+pub struct Borrowed<'a, T>(PhantomData<&'a T>);
+
+impl<'a, T: FromSlice<'a>> FromSlice<'a> for Borrowed<'a, T> {
+    type Output = T::Output;
+
+    fn from_slice(slice: &'a [u8]) -> Result<Message<Self::Output>, Error> {
+        T::from_slice(slice)
+    }
+}
+
+impl<'a, T: WriteTo<Input: 'a>> WriteTo for Borrowed<'a, T> {
+    type Input = &'a T::Input;
+
+    fn write_to<W: Write>(input: &Self::Input, out: W) -> Result<(), Error> {
+        T::write_to(input, out)
+    }
+}
+
 #[derive(Debug, Copy, Clone)]
 pub struct ValueLE<T>(PhantomData<T>);
 #[derive(Debug, Copy, Clone)]
-- 
2.43.0


From 926455c05b416a6932103f5d890320f3e14e9269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 22/35] fix: keep the size of structures with a single oddly
 sized field in messages

---
 compiler/src/compiler/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index ea0d9aa..897f057 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -133,7 +133,7 @@ impl Field {
                     Referenced::Struct(r) => {
                         if r.fields.len() == 1 && r.fields[0].as_fixed().is_some()
                             && r.fields[0].as_fixed().map(|v| v.view.is_transmute()).unwrap_or_default()
-                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size % 8 == 0).unwrap_or_default() {
+                            && r.fields[0].as_fixed().map(|v| v.loc.bit_size == v.ty.get_byte_size() * 8).unwrap_or_default() {
                             let fixed = unsafe { r.fields[0].as_fixed().unwrap_unchecked() };
                             Ok(Field {
                                 name: value.name,
-- 
2.43.0


From a5aeb5931327ec968eec8e376c2476175f061497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 23/35] fix: refuse to write strings and lists the wire format
 cannot carry

---
 runtime/src/message/interface.rs      | 2 ++
 runtime/src/message/util/list_base.rs | 3 +++
 runtime/src/message/util/string.rs    | 6 ++++++
 3 files changed, 11 insertions(+)

diff --git a/runtime/src/message/interface.rs b/runtime/src/message/interface.rs
index cf7c115..d1eb696 100644
--- a/runtime/src/message/interface.rs
+++ b/runtime/src/message/interface.rs
@@ -33,6 +33,8 @@ simple_error! {
         InvalidUtf8 => "invalid UTF-8 string",
         Truncated => "truncated input",
         InvalidUnionDiscriminant(usize) => "invalid union discriminant ({})",
+        LengthOverflow(usize) => "length {} does not fit in its control field",
+        InteriorNul => "string contains a NUL character",
         (impl From) Io(std::io::Error) => "io error: {}"
     }
 }
diff --git a/runtime/src/message/util/list_base.rs b/runtime/src/message/util/list_base.rs
index 4a0f801..d62ed3f 100644
--- a/runtime/src/message/util/list_base.rs
+++ b/runtime/src/message/util/list_base.rs
@@ -51,6 +51,9 @@ macro_rules! impl_list_base {
             type Input = $t<B, T, Item>;
 
             fn write_to<W: std::io::Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+                if T::Input::from_usize(input.len).to_usize() != input.len {
+                    return Err(Error::LengthOverflow(input.len));
+                }
                 T::write_to(&T::Input::from_usize(input.len), &mut out)?;
                 out.write_all(input.data.as_ref())?;
                 Ok(())
diff --git a/runtime/src/message/util/string.rs b/runtime/src/message/util/string.rs
index 6e8a6e5..b86140d 100644
--- a/runtime/src/message/util/string.rs
+++ b/runtime/src/message/util/string.rs
@@ -50,6 +50,9 @@ impl WriteTo for NullTerminatedString {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+        if input.as_bytes().contains(&0x0) {
+            return Err(Error::InteriorNul);
+        }
         out.write_all(input.as_bytes())?;
         out.write_all(&[0x0])?;
         Ok(())
@@ -75,6 +78,9 @@ impl<T: WriteTo<Input: ToUsize + Sized>> WriteTo for VarcharString<T> {
     type Input = str;
 
     fn write_to<W: Write>(input: &Self::Input, mut out: W) -> Result<(), Error> {
+        if T::Input::from_usize(input.len()).to_usize() != input.len() {
+            return Err(Error::LengthOverflow(input.len()));
+        }
         T::write_to(&T::Input::from_usize(input.len()), &mut out)?;
         out.write_all(input.as_bytes())?;
         Ok(())
-- 
2.43.0


From 72f01c1b9c9933a4896a88efdbd8e2754a4e5115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 24/35] fix: bound the lists of messages embedded in messages
 and unions

---
 compiler/src/compiler/message.rs | 7 ++++++-
 compiler/src/compiler/union.rs   | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 897f057..1bd6e12 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -161,6 +161,7 @@ impl Field {
                         }
                     },
                     Referenced::Message(r) => {
+                        r.set_embedded();
                         Ok(Field {
                             name: value.name,
                             optional: value.optional.unwrap_or_default(),
@@ -191,7 +192,7 @@ impl Field {
                         })
                     },
                     Referenced::Message(item_type) => {
-                        item_type.embedded.set(true);
+                        item_type.set_embedded();
                         Ok(Field {
                             name: value.name,
                             ty: FieldType::List(ListField {
@@ -296,6 +297,10 @@ pub struct Message {
 }
 
 impl Message {
+    pub fn set_embedded(&self) {
+        self.embedded.set(true);
+    }
+
     pub fn is_embedded(&self) -> bool {
         self.embedded.get()
     }
diff --git a/compiler/src/compiler/union.rs b/compiler/src/compiler/union.rs
index f71c5c6..8db0177 100644
--- a/compiler/src/compiler/union.rs
+++ b/compiler/src/compiler/union.rs
@@ -63,6 +63,9 @@ impl UnionField {
         };
         let item_type = value.item_type.map(|v| Referenced::lookup(proto, &v).ok_or_else(|| Error::UndefinedReference(v)))
             .transpose()?;
+        if let Some(Referenced::Message(v)) = &item_type {
+            v.set_embedded();
+        }
         Ok(UnionField {
             name: value.name,
             case,
-- 
2.43.0


From da0b5c2a5d9d19c862468d0af01d943fef5d3276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 25/35] fix: bound lists which are followed by other fields

---
 compiler/src/gen/base/message_from_slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/base/message_from_slice.rs b/compiler/src/gen/base/message_from_slice.rs
index bcd1bcc..f3f254c 100644
--- a/compiler/src/gen/base/message_from_slice.rs
+++ b/compiler/src/gen/base/message_from_slice.rs
@@ -69,7 +69,8 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
             gen_optional::<U>(field.optional, type_path_by_name.get(&v.r.name))
         },
         FieldType::List(v) => {
-            match msg.is_embedded() {
+            let is_last = msg.fields.last().map(|v| std::ptr::eq(v, field)).unwrap_or_default();
+            match msg.is_embedded() || !is_last {
                 false => gen_optional::<U>(field.optional, template.scope()
                     .var("codec", U::get_value_type(field.endianness, v.ty))
                     .var("type_name", type_path_by_name.get(&v.item_type.name))
-- 
2.43.0


From eba2182aca8c27410a5d0acbc8a17e68a999aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 26/35] fix: leave lists untouched when an item cannot be
 encoded

---
 runtime/src/message/util/list_base.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/message/util/list_base.rs b/runtime/src/message/util/list_base.rs
index d62ed3f..734c42f 100644
--- a/runtime/src/message/util/list_base.rs
+++ b/runtime/src/message/util/list_base.rs
@@ -62,6 +62,8 @@ macro_rules! impl_list_base {
 
         impl<B: std::io::Write, T, I> $t<B, T, I> {
             pub fn write_item<Item: WriteTo<Input = Item>>(&mut self, item: &Item) -> Result<(), Error> {
+                // Make sure the item can be encoded before touching the existing data.
+                crate::message::util::size_of(item)?;
                 Item::write_to(item, &mut self.data)?;
                 self.len += 1;
                 Ok(())
-- 
2.43.0


From ae5159b0ceb53deaf25ddbb3806b86c17c12be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 27/35] fix: accept imported structures as array items

---
 runtime/src/message/macros.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/runtime/src/message/macros.rs b/runtime/src/message/macros.rs
index 247157a..5a0c025 100644
--- a/runtime/src/message/macros.rs
+++ b/runtime/src/message/macros.rs
@@ -28,19 +28,19 @@
 
 #[macro_export]
 macro_rules! generate_array_wrapper {
-    ($name: ident, $inner: ident, $t: ty) => {
-        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $inner<&'a [u8]>>);
+    ($name: ident, $($inner: ident)::+, $t: ty) => {
+        pub struct $name<'a, B>($crate::message::util::Array<B, $t, $($inner)::+<&'a [u8]>>);
 
         impl<'a, B> $name<'a, B> {
             pub unsafe fn from_raw_parts(data: B, len: usize) -> $name<'a, B> {
-                Self($crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_raw_parts(data, len))
+                Self($crate::message::util::Array::<B, $t, $($inner)::+<&'a [u8]>>::from_raw_parts(data, len))
             }
 
             pub fn new(data: B) -> $name<'a, B> {
                 unsafe { Self::from_raw_parts(data, 0) }
             }
 
-            pub fn from_array(inner: $crate::message::util::Array<B, $t, $inner<&'a [u8]>>) -> Self {
+            pub fn from_array(inner: $crate::message::util::Array<B, $t, $($inner)::+<&'a [u8]>>) -> Self {
                 Self(inner)
             }
 
@@ -50,39 +50,39 @@ macro_rules! generate_array_wrapper {
         }
 
         impl<'a, B: std::io::Write> $name<'a, B> {
-            pub fn write_item(&mut self, item: &$inner<&[u8]>) -> $crate::message::Result<()> {
+            pub fn write_item(&mut self, item: &$($inner)::+<&[u8]>) -> $crate::message::Result<()> {
                 self.0.write_item(item)
             }
 
-            pub fn write_items(&mut self, items: &[$inner<&[u8]>]) -> $crate::message::Result<()> {
+            pub fn write_items(&mut self, items: &[$($inner)::+<&[u8]>]) -> $crate::message::Result<()> {
                 self.0.write_items(items)
             }
         }
 
         impl<'a, B: AsRef<[u8]>> $name<'a, B> {
-            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $inner<&[u8]>> {
+            pub fn to_ref(&self) -> $crate::message::util::Array<&[u8], $t, $($inner)::+<&[u8]>> {
                 self.0.to_ref()
             }
 
             pub fn from_parts(data: B, len: usize) -> Option<Self> {
-                $crate::message::util::Array::<B, $t, $inner<&'a [u8]>>::from_parts(data, len).map(Self)
+                $crate::message::util::Array::<B, $t, $($inner)::+<&'a [u8]>>::from_parts(data, len).map(Self)
             }
 
-            pub fn get(&self, index: usize) -> $inner<&[u8]> {
+            pub fn get(&self, index: usize) -> $($inner)::+<&[u8]> {
                 self.0.get(index)
             }
 
-            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $inner<&[u8]>> {
+            pub fn iter<'b>(&'b self) -> $crate::message::util::array::Iter<'b, $($inner)::+<&[u8]>> {
                 self.0.iter()
             }
         }
 
         impl<'a, B: AsMut<[u8]>> $name<'a, B> {
-            pub fn get_mut(&mut self, index: usize) -> $inner<&mut [u8]> {
+            pub fn get_mut(&mut self, index: usize) -> $($inner)::+<&mut [u8]> {
                 self.0.get_mut(index)
             }
 
-            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $inner<&mut [u8]>> {
+            pub fn iter_mut<'b>(&'b mut self) -> $crate::message::util::array::IterMut<'b, $($inner)::+<&mut [u8]>> {
                 self.0.iter_mut()
             }
         }
-- 
2.43.0


From 27446124f314a96df2dfc75b544e4f1e4ee170cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 28/35] fix: sign extend the items of signed arrays

---
 runtime/src/codec/arrays.rs | 36 +++++++++++++++++++++++++++++++++---
 runtime/src/codec/mod.rs    |  2 +-
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/runtime/src/codec/arrays.rs b/runtime/src/codec/arrays.rs
index e64bc72..a83fbce 100644
--- a/runtime/src/codec/arrays.rs
+++ b/runtime/src/codec/arrays.rs
@@ -30,6 +30,36 @@ use std::marker::PhantomData;
 use bytesutil::{ReadBytes, WriteBytes};
 use crate::codec::ByteCodec;
 
+pub trait ArrayItem {
+    /// Extends the sign of a value stored on the given number of bits.
+    fn sign_extend(self, bit_size: usize) -> Self;
+}
+
+macro_rules! impl_array_item {
+    (signed: $($t: ty)*) => {
+        $(
+            impl ArrayItem for $t {
+                fn sign_extend(self, bit_size: usize) -> Self {
+                    let shift = <$t>::BITS as usize - bit_size;
+                    (self << shift) >> shift
+                }
+            }
+        )*
+    };
+    (other: $($t: ty)*) => {
+        $(
+            impl ArrayItem for $t {
+                fn sign_extend(self, _: usize) -> Self {
+                    self
+                }
+            }
+        )*
+    };
+}
+
+impl_array_item!(signed: i8 i16 i32 i64);
+impl_array_item!(other: u8 u16 u32 u64 f32 f64 bool);
+
 pub struct ArrayCodec<B, Item, C, const ITEM_BIT_SIZE: usize> {
     buffer: B,
     useless: PhantomData<Item>,
@@ -46,12 +76,12 @@ impl<B, Item, C, const ITEM_BIT_SIZE: usize> ArrayCodec<B, Item, C, ITEM_BIT_SIZ
     }
 }
 
-impl<B: AsRef<[u8]>, Item: ReadBytes, C: ByteCodec, const ITEM_BIT_SIZE: usize> ArrayCodec<B, Item, C, ITEM_BIT_SIZE> {
+impl<B: AsRef<[u8]>, Item: ReadBytes + ArrayItem, C: ByteCodec, const ITEM_BIT_SIZE: usize> ArrayCodec<B, Item, C, ITEM_BIT_SIZE> {
     pub fn get_raw(&self, index: usize) -> Item {
         let byte_size = ITEM_BIT_SIZE / 8;
         let pos = index * byte_size;
         let end = pos + byte_size;
-        C::read::<Item>(&self.buffer.as_ref()[pos..end])
+        C::read::<Item>(&self.buffer.as_ref()[pos..end]).sign_extend(ITEM_BIT_SIZE)
     }
 
     pub fn len(&self) -> usize {
@@ -61,7 +91,7 @@ impl<B: AsRef<[u8]>, Item: ReadBytes, C: ByteCodec, const ITEM_BIT_SIZE: usize>
 
     pub fn iter_raw(&self) -> impl Iterator<Item = Item> + '_ {
         let byte_size = ITEM_BIT_SIZE / 8;
-        self.buffer.as_ref().chunks(byte_size).map(|v| C::read::<Item>(v))
+        self.buffer.as_ref().chunks(byte_size).map(|v| C::read::<Item>(v).sign_extend(ITEM_BIT_SIZE))
     }
 }
 
diff --git a/runtime/src/codec/mod.rs b/runtime/src/codec/mod.rs
index 3ddb2d6..eb6e99a 100644
--- a/runtime/src/codec/mod.rs
+++ b/runtime/src/codec/mod.rs
@@ -30,6 +30,6 @@ mod bytes;
 mod bits;
 mod arrays;
 
-pub use arrays::ArrayCodec;
+pub use arrays::{ArrayCodec, ArrayItem};
 pub use bits::*;
 pub use bytes::*;
-- 
2.43.0


From 4df5148844b0255bb1da49e11a2a44ebf1b8d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 29/35] fix: reject unions whose discriminant field is optional

---
 compiler/src/compiler/message.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/compiler/message.rs b/compiler/src/compiler/message.rs
index 1bd6e12..0c47210 100644
--- a/compiler/src/compiler/message.rs
+++ b/compiler/src/compiler/message.rs
@@ -247,6 +247,9 @@ impl Field {
                         None
                     }).ok_or_else(|| Error::UndefinedReference(on))?;
                 let r = proto.unions_by_name.get(&item_type).ok_or_else(|| Error::UndefinedReference(item_type))?;
+                if on_field.optional {
+                    return Err(Error::UnionTypeMismatch);
+                }
                 match &on_field.ty {
                     FieldType::Ref(v) => match v {
                         Referenced::Struct(v) => {
-- 
2.43.0


From bbe20d5324455f93c83ded594fa426fb1dea118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 30/35] fix: refer to re-imported types at their declaring
 protocol

---
 compiler/src/compiler/protocol.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/compiler/src/compiler/protocol.rs b/compiler/src/compiler/protocol.rs
index e53245a..65ca965 100644
--- a/compiler/src/compiler/protocol.rs
+++ b/compiler/src/compiler/protocol.rs
@@ -52,6 +52,14 @@ pub struct Protocol {
 }
 
 impl Protocol {
+    fn get_import_path<T: ImportResolver>(&self, solver: &T, protocol: &str, type_name: &str) -> Result<String, Error> {
+        // A type which has itself been imported lives in the protocol which declares it.
+        match self.type_path_by_name.get(type_name) {
+            path if path != type_name => Ok(path.into()),
+            _ => solver.get_full_type_path(protocol, type_name).ok_or(Error::SolverError)
+        }
+    }
+
     pub fn from_model<T: ImportResolver>(value: crate::model::Protocol, solver: &T) -> Result<Self, Error> {
         let mut proto = Protocol {
             name: value.name,
@@ -79,27 +87,27 @@ impl Protocol {
                             None => {
                                 match r.unions_by_name.get(&v.type_name) {
                                     Some(vv) => {
-                                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                                        let type_path = r.get_import_path(solver, &v.protocol, &v.type_name)?;
                                         proto.unions_by_name.insert(v.type_name, vv.clone());
                                         proto.type_path_by_name.add(vv.name.clone(), type_path);
                                     },
                                     None => {
                                         let msg = r.messages_by_name.get(&v.type_name).ok_or(Error::UndefinedReference(format!("{}::{}", v.protocol, v.type_name)))?;
-                                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                                        let type_path = r.get_import_path(solver, &v.protocol, &v.type_name)?;
                                         proto.messages_by_name.insert(v.type_name, msg.clone());
                                         proto.type_path_by_name.add(msg.name.clone(), type_path);
                                     }
                                 }
                             },
                             Some(vv) => {
-                                let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                                let type_path = r.get_import_path(solver, &v.protocol, &v.type_name)?;
                                 proto.enums_by_name.insert(v.type_name, vv.clone());
                                 proto.type_path_by_name.add(vv.name.clone(), type_path);
                             }
                         }
                     },
                     Some(vv) => {
-                        let type_path = solver.get_full_type_path(&v.protocol, &v.type_name).ok_or(Error::SolverError)?;
+                        let type_path = r.get_import_path(solver, &v.protocol, &v.type_name)?;
                         proto.structs_by_name.insert(v.type_name, vv.clone());
                         proto.type_path_by_name.add(vv.name.clone(), type_path);
                     }
-- 
2.43.0


From d044b6980dd2d322a0e40ff0bc4cb23679736da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 31/35] fix: name the buffer type of optional structures in
 message codecs

---
 compiler/src/gen/base/message_from_slice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/base/message_from_slice.rs b/compiler/src/gen/base/message_from_slice.rs
index f3f254c..67cfc53 100644
--- a/compiler/src/gen/base/message_from_slice.rs
+++ b/compiler/src/gen/base/message_from_slice.rs
@@ -54,7 +54,10 @@ pub fn generate_field_type_inline<'a, U: Utilities>(msg: &Message, field: &'a Fi
     let msg_type = match &field.ty {
         FieldType::Fixed(ty) => gen_optional::<U>(field.optional, U::get_value_type_inline(field.endianness, ty.ty)),
         FieldType::Ref(v) => match v {
-            Referenced::Struct(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name)),
+            Referenced::Struct(v) => match field.optional {
+                true => gen_optional::<U>(true, U::gen_struct_ref_type(type_path_by_name.get(&v.name))),
+                false => type_path_by_name.get(&v.name).into()
+            },
             Referenced::Message(v) => gen_optional::<U>(field.optional, type_path_by_name.get(&v.name))
         }
         FieldType::NullTerminatedString => gen_optional_borrowed::<U>(field.optional, U::get_string_type_inline(StringType::NullTerminated)),
-- 
2.43.0


From f8801892fbb828afa5c75e0123e83ebd64e57562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 32/35] fix: capitalize names which do not start with an ASCII
 letter

---
 compiler/src/gen/template.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index b1afce5..f2fc22a 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -132,13 +132,10 @@ pub struct FunctionMap<'fragment> {
 }
 
 fn capitalize(value: &str) -> Cow<str> {
-    if value.len() == 0 {
-        return value.into();
-    }
-    if value.as_bytes()[0] >= b'A' && value.as_bytes()[0] <= b'Z' {
-        value.into()
-    } else {
-        (value[..1].to_ascii_uppercase() + &value[1..]).into()
+    let mut chars = value.chars();
+    match chars.next() {
+        Some(first) if first.is_lowercase() => (first.to_uppercase().to_string() + chars.as_str()).into(),
+        _ => value.into()
     }
 }
 
-- 
2.43.0


From 2041ee357708b854d4da90e27eaf52653db80c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 33/35] fix: end template placeholders at their first closing
 brace

---
 compiler/src/gen/template.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/src/gen/template.rs b/compiler/src/gen/template.rs
index f2fc22a..07f77fe 100644
--- a/compiler/src/gen/template.rs
+++ b/compiler/src/gen/template.rs
@@ -210,21 +210,25 @@ impl<'fragment, 'variable> Template<'fragment, 'variable> {
             } else {
                 let cur_fragment = frag_stack.last_mut().ok_or(Error::NoFragment)?;
                 let mut token = Token::new(line);
+                let mut in_variable = false;
                 while token.has_next() {
                     if token.cur() == b'{' {
                         if token.next() == Some(b'{') {
                             token.inc();
+                        } else {
+                            in_variable = true;
                         }
                         if let Some(component) = token.pop()?.map(Component::Constant) {
                             cur_fragment.content.push(component);
                         }
                     } else if token.cur() == b'}' {
-                        if token.next() == Some(b'}') {
+                        if token.next() == Some(b'}') && !in_variable {
                             token.inc();
                             if let Some(component) = token.pop()?.map(Component::Constant) {
                                 cur_fragment.content.push(component);
                             }
                         } else {
+                            in_variable = false;
                             if let Some(component) = token.pop()?.map(|v| Component::parse_variable(&function_map, v)) {
                                 cur_fragment.content.push(component?);
                             }
-- 
2.43.0


From 6a45db032cdbfd0730d5959e7439a85be2755cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:50 +0000
Subject: [PATCH 34/35] fix: generated files in sub-folders which exist
 already, or which are nested

---
 compiler/src/gen/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/gen/mod.rs b/compiler/src/gen/mod.rs
index b1015bd..dd4d9de 100644
--- a/compiler/src/gen/mod.rs
+++ b/compiler/src/gen/mod.rs
@@ -66,9 +66,9 @@ impl File {
 
     pub fn write(self, out_directory: &Path) -> std::io::Result<Option<PathBuf>> {
         if self.data.len() > 1 {
-            let sub_folder = self.name.find("/").map(|id| &self.name[..id]);
+            let sub_folder = self.name.rfind("/").map(|id| &self.name[..id]);
             if let Some(sub_folder) = sub_folder {
-                std::fs::create_dir(out_directory.join(sub_folder))?;
+                std::fs::create_dir_all(out_directory.join(sub_folder))?;
             }
             let path = out_directory.join(&*self.name);
             std::fs::write(&path, self.data)?;
-- 
2.43.0


From f716462db8787d2a78bd8c3a7449f232ff798d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:19 +0000
Subject: [PATCH 35/35] fix: generation time exponential in the nesting depth
 of messages

---
 compiler/src/gen/rust/util.rs | 56 ++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/compiler/src/gen/rust/util.rs b/compiler/src/gen/rust/util.rs
index 2385bf3..baf9568 100644
--- a/compiler/src/gen/rust/util.rs
+++ b/compiler/src/gen/rust/util.rs
@@ -31,6 +31,39 @@ use crate::compiler::structure::{FixedField, FixedFieldType};
 use crate::compiler::union::Union;
 use crate::gen::base::message::StringType;
 use crate::model::protocol::Endianness;
+use std::collections::HashSet;
+
+// A message may be reached by a number of paths exponential in the depth of the schema: `visited`
+// holds those already looked at so that each is looked at once.
+fn message_has_lifetime(msg: &Message, visited: &mut HashSet<*const Message>) -> bool {
+    if !visited.insert(msg) {
+        return false;
+    }
+    msg.fields.iter().any(|v| match &v.ty {
+        FieldType::Ref(v) => referenced_has_lifetime(v, visited),
+        FieldType::NullTerminatedString => true,
+        FieldType::VarcharString(_) => true,
+        FieldType::Array(_) => true,
+        FieldType::Union(v) => union_has_lifetime(&v.r, visited),
+        FieldType::List(_) => true,
+        FieldType::Payload => true,
+        _ => false
+    })
+}
+
+fn union_has_lifetime(u: &Union, visited: &mut HashSet<*const Message>) -> bool {
+    u.cases.iter().any(|v| match &v.item_type {
+        Some(v) => referenced_has_lifetime(v, visited),
+        None => false
+    })
+}
+
+fn referenced_has_lifetime(r: &Referenced, visited: &mut HashSet<*const Message>) -> bool {
+    match r {
+        Referenced::Struct(_) => true,
+        Referenced::Message(v) => message_has_lifetime(v, visited)
+    }
+}
 
 pub struct Generics {
     pub has_lifetime: bool
@@ -38,33 +71,14 @@ pub struct Generics {
 
 impl Generics {
     pub fn from_message(msg: &Message) -> Self {
-        let has_lifetime = msg.fields.iter().any(|v| match &v.ty {
-            FieldType::Ref(v) => Self::from_referenced(v).has_lifetime,
-            FieldType::NullTerminatedString => true,
-            FieldType::VarcharString(_) => true,
-            FieldType::Array(_) => true,
-            FieldType::Union(v) => Self::from_union(&v.r).has_lifetime,
-            FieldType::List(_) => true,
-            FieldType::Payload => true,
-            _ => false
-        });
         Generics {
-            has_lifetime
+            has_lifetime: message_has_lifetime(msg, &mut HashSet::new())
         }
     }
 
     pub fn from_union(u: &Union) -> Self {
-        let has_lifetime = u.cases.iter()
-            .any(|v| v.item_type.as_ref().map(|v| Self::from_referenced(v).has_lifetime).unwrap_or_default());
         Generics {
-            has_lifetime
-        }
-    }
-
-    fn from_referenced(r: &Referenced) -> Self {
-        match r {
-            Referenced::Struct(_) => Generics { has_lifetime: true },
-            Referenced::Message(v) => Self::from_message(v)
+            has_lifetime: union_has_lifetime(u, &mut HashSet::new())
         }
     }
 
-- 
2.43.0

