From 871a502ec19cfc4572415217e5a325952caa2944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 01/14] fix: do not index out of bounds in Pool::get

The encoded length is one greater than the last valid index,
so looking up the index `pool.len()` panicked.
---
 src/basic/constpool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 9861e95..3dcfb1f 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -349,7 +349,7 @@ impl Pool {
     /// If the index is 0 or greater than the size of the pool, an error is returned.
     pub fn get(&self, index: u16) -> Result<&Item> {
         // bounds checking
-        if index != 0 && index <= self.len() {
+        if index != 0 && index < self.len() {
             if let Some(ref item) = self.by_index[index as usize - 1] {
                 return Ok(item);
             }
-- 
2.43.0


From 939cb62484a92dee83a12ecc84f471154cb67697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 02/14] fix: let Pool::default create a usable empty pool

The derived implementation set the encoded length to 0 instead of 1,
so is_empty was false and the first item was pushed at the invalid index 0.
---
 src/basic/constpool.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 3dcfb1f..331a528 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -309,13 +309,18 @@ pub enum ReferenceKind {
 /// A `Vec` and a `HashMap` is used internally to have fast lookups by index and value.
 /// To connect both, `Rc`s are used.
 /// As a result, we will have a little overhead, but this should be negligible.
-#[derive(Default)]
 pub struct Pool {
     length: u16,
     by_index: Vec<Option<Rc<Item>>>,
     by_entry: HashMap<Rc<Item>, u16>,
 }
 
+impl Default for Pool {
+    fn default() -> Self {
+        Pool::new()
+    }
+}
+
 impl Pool {
     pub fn new() -> Self {
         Pool {
-- 
2.43.0


From 945dec70026cf804d0a69c7773160bfc67ee61ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 03/14] fix: let PoolIter return the index of the item

Every index was too large by one,
and the index overflowed when next was called often enough after the end.
---
 src/basic/constpool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 331a528..b6243be 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -453,10 +453,10 @@ impl<'a> Iterator for PoolIter<'a> {
     type Item = (u16, &'a Item);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.index += 1;
         if let Some(rc_item) = self.iter.next() {
+            self.index += 1;
             if let Some(ref item) = *rc_item {
-                Some((self.index + 1, item))
+                Some((self.index, item))
             } else {
                 self.next()
             }
-- 
2.43.0


From 9c53b742137f730b4169a1c020cb1b6d0031ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 04/14] fix: check the size of the item in Pool::push

Pushing a long or double on a pool with a single free index
overflowed the length. Also, items already in the pool take no
additional space, so pushing them on a full pool must not fail.
---
 src/basic/constpool.rs | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index b6243be..9003ec9 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -397,32 +397,30 @@ impl Pool {
 
     /// Pushes an item on the pool.
     pub fn push(&mut self, item: Item) -> Result<u16> {
-        if self.len() == u16::max_value() {
-            return Err(Error::CPTooLarge);
-        }
-
         let double = item.is_double();
-        let length = &mut self.length;
 
         let rc_item = Rc::new(item);
-        let rc_item1 = Rc::clone(&rc_item);
-
-        let by_index = &mut self.by_index;
 
         // check if in pool, if not insert it
-        Ok(*self.by_entry.entry(rc_item).or_insert_with(move || {
-            by_index.push(Some(Rc::clone(&rc_item1)));
-
-            let prev_length = *length;
-            if double {
-                // long and double take an additional space
-                by_index.push(None);
-                *length += 2;
-            } else {
-                *length += 1;
-            }
-            prev_length
-        }))
+        if let Some(index) = self.by_entry.get(&rc_item) {
+            return Ok(*index);
+        }
+
+        // long and double take an additional space
+        let size = if double { 2 } else { 1 };
+        if self.len() > u16::max_value() - size {
+            return Err(Error::CPTooLarge);
+        }
+
+        self.by_index.push(Some(Rc::clone(&rc_item)));
+
+        let prev_length = self.length;
+        if double {
+            self.by_index.push(None);
+        }
+        self.length += size;
+        self.by_entry.insert(rc_item, prev_length);
+        Ok(prev_length)
     }
 
     pub fn iter(&self) -> PoolIter {
-- 
2.43.0


From 5e2140c93150d2138b1f4f713f53f69a7974bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 05/14] fix: respect the indices of the constant pool when
 parsing

A long or double takes two indices, but the parser only advanced by one,
and duplicate items were merged, which shifted all items after them.
---
 src/basic/constpool.rs  | 14 +++++++++++---
 src/basic/parser/mod.rs | 14 ++++++++++----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 9003ec9..514ed7b 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -397,8 +397,6 @@ impl Pool {
 
     /// Pushes an item on the pool.
     pub fn push(&mut self, item: Item) -> Result<u16> {
-        let double = item.is_double();
-
         let rc_item = Rc::new(item);
 
         // check if in pool, if not insert it
@@ -406,6 +404,14 @@ impl Pool {
             return Ok(*index);
         }
 
+        self.append(rc_item)
+    }
+
+    /// Appends an item to the pool, even if it is already in the pool.
+    /// This is needed to respect the indices of class files containing duplicates.
+    pub(super) fn append(&mut self, rc_item: Rc<Item>) -> Result<u16> {
+        let double = rc_item.is_double();
+
         // long and double take an additional space
         let size = if double { 2 } else { 1 };
         if self.len() > u16::max_value() - size {
@@ -419,7 +425,9 @@ impl Pool {
             self.by_index.push(None);
         }
         self.length += size;
-        self.by_entry.insert(rc_item, prev_length);
+        if !self.by_entry.contains_key(&rc_item) {
+            self.by_entry.insert(rc_item, prev_length);
+        }
         Ok(prev_length)
     }
 
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index f620734..be3a82f 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -4,6 +4,8 @@ mod method;
 mod code;
 mod annotation;
 
+use std::rc::Rc;
+
 pub use super::constpool::*;
 pub use super::tree::*;
 pub use result::*;
@@ -73,8 +75,8 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
     let size = decoder.read_u16()?;
     let mut pool = Pool::new();
 
-    let mut index = 1;
-    while index < size {
+    while pool.len() < size {
+        let index = pool.len();
         let tag = decoder.read_u8()?;
 
         // match a tag and read the additional information
@@ -156,8 +158,12 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
             _ => return Err(Error::InvalidCPItem(index)),
         };
 
-        pool.push(item)?;
-        index += 1;
+        pool.append(Rc::new(item))?;
+    }
+
+    // the last item must not take more space than there is left
+    if pool.len() > size && size != 0 {
+        return Err(Error::InvalidCPItem(size - 1));
     }
 
     Ok(pool)
-- 
2.43.0


From 1f94c241fb4de11665f1501fb524c8240056e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 06/14] fix: use the correct name of the EnclosingMethod
 attribute

The attribute was never recognized and always returned as unknown.
---
 src/basic/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index be3a82f..1ea24a0 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -234,7 +234,7 @@ fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<A
                 Attribute::ConstantValue(index)
             }
             "Deprecated" => Attribute::Deprecated,
-            "EnclosingMethods" => parse_enclosing_method(&mut attr_decoder)?,
+            "EnclosingMethod" => parse_enclosing_method(&mut attr_decoder)?,
             "Exceptions" => parse_exceptions(&mut attr_decoder)?,
             "InnerClasses" => parse_inner_classes(&mut attr_decoder)?,
             "LineNumberTable" => parse_line_number_table(&mut attr_decoder)?,
-- 
2.43.0


From 1f0b912645c13832ba93c5461aa6d4ff36a5f1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 07/14] fix: read the parameter count of MethodParameters as a
 single byte

parameters_count is a u1 (JVMS 4.7.24), so valid attributes were rejected.
---
 src/basic/parser/method.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/method.rs b/src/basic/parser/method.rs
index 01ca8a6..22333a7 100644
--- a/src/basic/parser/method.rs
+++ b/src/basic/parser/method.rs
@@ -155,7 +155,7 @@ fn parse_verification_type(decoder: &mut Decoder) -> Result<VerificationType> {
 
 /// Parses the `MethodParameters` attribute.
 pub fn parse_method_parameters(decoder: &mut Decoder) -> Result<Attribute> {
-    let count = decoder.read_u16()?;
+    let count = decoder.read_u8()?;
     let mut params = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let name = decoder.read_u16()?;
-- 
2.43.0


From 6e4cd33ca3f4c3bf5a38e8f3384d07ff7e086489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 08/14] fix: read the table length of local variable targets as
 two bytes

table_length is a u2 (JVMS 4.7.20.1), so valid type annotations were rejected
or decoded to something else.
---
 src/basic/parser/annotation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index b4bfced..d7717dd 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -155,7 +155,7 @@ fn parse_target_type(decoder: &mut Decoder) -> Result<TargetType> {
 
 /// Parses the local variables of a local variable target type
 fn parse_local_variable(decoder: &mut Decoder) -> Result<Vec<LocalVariableTarget>> {
-    let length = decoder.read_u8()?;
+    let length = decoder.read_u16()?;
     let mut table = Vec::with_capacity(length as usize);
 
     for _ in 0..length {
-- 
2.43.0


From fdd826c4ee5768a98fdeedabb5eb62b3329fb0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 09/14] fix: use the correct op code of astore in the wide
 instruction

wide astore was rejected, while 0x40 (lstore_1) was accepted.
---
 src/basic/parser/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 8227f42..3cd6517 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -329,7 +329,7 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             0x37 => LStore(decoder.read_u16()?),
             0x38 => FStore(decoder.read_u16()?),
             0x39 => DStore(decoder.read_u16()?),
-            0x40 => AStore(decoder.read_u16()?),
+            0x3A => AStore(decoder.read_u16()?),
             0x84 => {
                 let index = decoder.read_u16()?;
                 let value = decoder.read_i16()?;
-- 
2.43.0


From 34e6f13267969957ab78a8e7216f1170834f6234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 10/14] fix: use 0x8000 for the MODULE and MANDATED access
 flags

Both flags contained the bit of PUBLIC, so they were not found
if a module or a mandated parameter was not public as well.
---
 src/basic/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/tree.rs b/src/basic/tree.rs
index ff92693..2c7e173 100644
--- a/src/basic/tree.rs
+++ b/src/basic/tree.rs
@@ -110,8 +110,8 @@ bitflags! {
         const SYNTHETIC    = 0b0001_0000_0000_0000;
         const ANNOTATION   = 0b0010_0000_0000_0000;
         const ENUM         = 0b0100_0000_0000_0000;
-        const MODULE       = 0b1000_0000_0000_0001;
-        const MANDATED     = 0b1000_0000_0000_0001;
+        const MODULE       = 0b1000_0000_0000_0000;
+        const MANDATED     = 0b1000_0000_0000_0000;
     }
 }
 
-- 
2.43.0


From dcb0ffee7377e7fa08fb291d4955b94e7a94acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 11/14] fix: check the bounds of tableswitch

The amount of offsets overflowed, or requested too much memory,
so parsing an invalid tableswitch panicked.
---
 src/basic/parser/code.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 3cd6517..ce8f044 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -248,8 +248,15 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             let low = decoder.read_i32()?;
             let high = decoder.read_i32()?;
 
-            let mut offsets = Vec::with_capacity((high - low + 1) as usize);
-            for _ in low..(high + 1) {
+            // low must be less than or equal to high
+            if low > high {
+                return Err(Error::InvalidInstruction { op_code, at });
+            }
+
+            // the bounds cannot be trusted, so no capacity is reserved
+            let mut offsets = Vec::new();
+            let count = i64::from(high) - i64::from(low) + 1;
+            for _ in 0..count {
                 offsets.push(decoder.read_i32()?);
             }
 
-- 
2.43.0


From f5a40f83105086409e2168ff150052eb1d7d9c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 12/14] fix: reject invalid continuation bytes in modified
 UTF-8 strings

Any byte was accepted as the second or third byte of a char
and as the start of the second surrogate, so malformed strings
were decoded to a different string instead of returning an error.
---
 src/basic/parser/decode.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 8029079..4005618 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -123,20 +123,23 @@ impl<'a> Decoder<'a> {
             } else if r1 >= 0xC0 && r1 < 0xE0 && i >= 2 {
                 // 2 bytes
                 i -= 2;
-                let r2 = u32::from(self.read_u8()?);
+                let r2 = self.read_continuation()?;
                 (r1 & 0x1F) << 6 | (r2 & 0x3F)
             } else if r1 >= 0xE0 && r1 < 0xF0 && i >= 3 {
                 i -= 3;
-                let r2 = u32::from(self.read_u8()?);
-                let r3 = u32::from(self.read_u8()?);
+                let r2 = self.read_continuation()?;
+                let r3 = self.read_continuation()?;
                 if r1 == 0xED && r2 >= 0xA0 && r2 <= 0xAF {
                     if i >= 3 {
                         i -= 3;
 
-                        self.read_u8()?;
-                        let r5 = u32::from(self.read_u8()?);
-                        let r6 = u32::from(self.read_u8()?);
-                        // r1 and r4 can be ignored
+                        let r4 = self.read_u8()?;
+                        let r5 = self.read_continuation()?;
+                        let r6 = self.read_continuation()?;
+                        // a low surrogate must follow
+                        if r4 != 0xED || r5 < 0xB0 {
+                            return Err(Error::InvalidUTF8);
+                        }
                         0x1_0000 + ((r2 & 0x0F) << 16) + ((r3 & 0x3F) << 10) + ((r5 & 0x0F) << 6)
                             + (r6 & 0x3F)
                     } else {
@@ -158,6 +161,16 @@ impl<'a> Decoder<'a> {
         Ok(out)
     }
 
+    /// Reads a byte, which must be a continuation byte of a modified UTF-8 string
+    fn read_continuation(&mut self) -> Result<u32> {
+        let byte = u32::from(self.read_u8()?);
+        if byte & 0xC0 == 0x80 {
+            Ok(byte)
+        } else {
+            Err(Error::InvalidUTF8)
+        }
+    }
+
     /// Checks for bounds
     fn check(&self, location: usize) -> Result<()> {
         if location <= self.limit {
-- 
2.43.0


From fe89c299ac8a73256dd56fdd61ec6692b9dcd265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 13/14] fix: limit the depth of nested attributes and element
 values

A crafted class file with deeply nested element values or Code attributes
overflowed the stack, which aborted the process.
---
 src/basic/parser/annotation.rs |  2 ++
 src/basic/parser/decode.rs     | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index d7717dd..c3afdef 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -49,6 +49,8 @@ fn parse_annotation(decoder: &mut Decoder) -> Result<Annotation> {
 
 /// Reads an element value.
 pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
+    // element values can contain other element values
+    let decoder = &mut decoder.nested()?;
     let tag = decoder.read_u8()?;
 
     match tag {
diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 4005618..6e53c34 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -5,10 +5,15 @@ use result::*;
 use byteorder::{BigEndian, ByteOrder};
 use std::char;
 
+/// The maximum depth of nested attributes and element values.
+/// Parsing them is recursive, so the stack would overflow without it.
+const MAX_DEPTH: u8 = 64;
+
 pub struct Decoder<'a> {
     bytes: &'a [u8],
     cursor: &'a mut usize,
     limit: usize,
+    depth: u8,
 }
 
 impl<'a> Decoder<'a> {
@@ -19,6 +24,7 @@ impl<'a> Decoder<'a> {
             bytes,
             cursor,
             limit: bytes.len(),
+            depth: 0,
         }
     }
 
@@ -26,10 +32,22 @@ impl<'a> Decoder<'a> {
     pub fn limit(&mut self, to: usize) -> Result<Decoder> {
         let end = *self.cursor + to;
         self.check(end)?;
+        let mut decoder = self.nested()?;
+        decoder.limit = end;
+        Ok(decoder)
+    }
+
+    /// Returns a decoder for a nested structure,
+    /// or an error if too many structures are nested
+    pub fn nested(&mut self) -> Result<Decoder> {
+        if self.depth >= MAX_DEPTH {
+            return Err(Error::LimitExceeded);
+        }
         Ok(Decoder {
             bytes: self.bytes,
             cursor: self.cursor,
-            limit: end,
+            limit: self.limit,
+            depth: self.depth + 1,
         })
     }
 
-- 
2.43.0


From b941c3de470d4a77818329a0b9c9f415db578e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 14/14] fix: reserve room for the arguments of a bootstrap
 method by their own count

The room was reserved by the count of all bootstrap methods,
so a file of 260 kB could make the parser hold 8 GB.
---
 src/basic/parser/class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/class.rs b/src/basic/parser/class.rs
index a9f39e0..0d8a972 100644
--- a/src/basic/parser/class.rs
+++ b/src/basic/parser/class.rs
@@ -7,8 +7,8 @@ pub fn parse_bootstrap_methods(decoder: &mut Decoder) -> Result<Attribute> {
     let mut bootstrap_methods = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let method_ref = decoder.read_u16()?;
-        let mut arguments = Vec::with_capacity(count as usize);
         let count = decoder.read_u16()?;
+        let mut arguments = Vec::with_capacity(count as usize);
         for _ in 0..count {
             arguments.push(decoder.read_u16()?);
         }
-- 
2.43.0

