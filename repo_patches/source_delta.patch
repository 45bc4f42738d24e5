From ade3eb1babab38cbba69e305e755d5f578c62599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 1/9] fix: bound switch table sizes by the remaining bytecode

The entry count of a tableswitch was computed with overflowing i32 arithmetic,
and both switch instructions reserved memory for up to 2^32 entries straight
from the untrusted count, which could abort the process on a tiny class file.
---
 src/bytecode.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index b9758e2..aa5fabb 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -500,10 +500,10 @@ fn read_opcodes<'a>(
                 if low > high {
                     fail!("The low value must be less than or equal to the high value in tableswitch at index {}", ix - 4);
                 }
-                let jump_count = match usize::try_from(high - low + 1) {
-                    Ok(n) => n,
+                let jump_count = match usize::try_from(i64::from(high) - i64::from(low) + 1) {
+                    Ok(n) if n <= (code.len() - ix) / 4 => n,
                     _ => fail!(
-                        "Unable to convert range to usize in tableswitch at index {}",
+                        "Range does not fit in remaining bytecode in tableswitch at index {}",
                         ix - 4
                     ),
                 };
@@ -530,9 +530,9 @@ fn read_opcodes<'a>(
                     );
                 }
                 let pair_count = match usize::try_from(npairs) {
-                    Ok(n) => n,
+                    Ok(n) if n <= (code.len() - ix) / 8 => n,
                     _ => fail!(
-                        "Unable to convert number of pairs in lookupswitch to usize at index {}",
+                        "Number of pairs does not fit in remaining bytecode in lookupswitch at index {}",
                         ix - 4
                     ),
                 };
-- 
2.43.0


From 7c30c80d2ac0789faea982a3942227cc04544a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 2/9] fix: avoid i32 overflow when validating jump destinations

---
 src/bytecode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index aa5fabb..f7bc53a 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -249,7 +249,7 @@ impl<'a> ByteCode<'a> {
     }
 
     fn validate_jump(&self, source_offset: i32, jump: JumpOffset) -> Result<(), ParseError> {
-        let target_offset = usize::try_from(source_offset + jump)
+        let target_offset = usize::try_from(i64::from(source_offset) + i64::from(jump))
             .map_err(|_| err!("Invalid destination after applying jump"))?;
         if self.get_opcode_index(target_offset).is_none() {
             fail!("Invalid opcode offset after applying jump");
-- 
2.43.0


From 51db59f05f83c080b40ecf7f86a678abce9fe2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 3/9] fix: do not follow NameAndType cycles when validating
 method descriptors

Two NameAndType entries using each other as descriptor sent the validation
into unbounded recursion.
---
 src/constant_pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 3721b02..487711a 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -384,7 +384,13 @@ impl<'a> ConstantPoolEntry<'a> {
 
     fn validate_method_descriptor(&self) -> Result<(), ParseError> {
         match self {
-            ConstantPoolEntry::NameAndType(_, y) => peel!(y).validate_method_descriptor(),
+            ConstantPoolEntry::NameAndType(_, y) => {
+                if is_method_descriptor(peel!(y).str()?) {
+                    Ok(())
+                } else {
+                    fail!("Invalid method descriptor")
+                }
+            }
             _ => {
                 if is_method_descriptor(self.str()?) {
                     Ok(())
-- 
2.43.0


From 4614cf5e72dd0619c79af72c9d3afea27686f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 4/9] fix: reject NameAndType entries whose descriptor is not
 valid utf-8

Such an entry was accepted when nothing else in the constant pool used it, and
then made the constant pool iterator or EnclosingMethod parsing panic.
---
 src/constant_pool.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 487711a..462e72f 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -652,6 +652,13 @@ fn validate_constant_pool(
         cp_entry
             .validate(major_version)
             .map_err(|e| err!(e, "constant pool entry {}", i))?;
+        if let ConstantPoolEntry::NameAndType(_, y) = cp_entry.deref() {
+            // The contents of the descriptor are only validated where the entry is used, but
+            // it is always exposed as a string, so it must at least be representable as one.
+            peel!(y)
+                .str()
+                .map_err(|e| err!(e, "constant pool entry {}", i))?;
+        }
     }
     Ok(())
 }
-- 
2.43.0


From f1d736b55883e4347bb0262b3a5bfe98a597290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 5/9] fix: reject a long or double in the last constant pool
 slot

JVMS 4.4.5 requires the index following such an entry to be valid. Accepting it
also overflowed the u16 index when the pool had the maximum size.
---
 src/constant_pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 462e72f..f115d65 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -702,7 +702,13 @@ pub(crate) fn read_constant_pool<'a>(
         cp_ix += 1;
         if constant_type == 5 || constant_type == 6 {
             // long and double types take up two entries in the constant pool,
-            // so eat up another index.
+            // so eat up another index, which must be a valid one.
+            if cp_ix >= count {
+                fail!(
+                    "Constant pool entry at index {} takes up two entries but is the last one",
+                    cp_ix - 1
+                );
+            }
             cp_ix += 1;
             constant_pool.push(CafeRc::new(ConstantPoolEntry::Unused));
         }
-- 
2.43.0


From 8a2c92375bae8b12aff0f7b19f05f45c0eb71655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 6/9] fix: reject empty class names and class names ending in a
 slash

---
 src/descriptors.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index eadf427..00929d2 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -36,6 +36,9 @@ impl<'a> TryFrom<Cow<'a, str>> for ClassName<'a> {
         let mut index = 0;
         loop {
             match parse_unqualified_segment(&value[index..])? {
+                (segment, None) if segment.is_empty() => {
+                    fail!("Unexpected empty unqualified segment in class name")
+                }
                 (_, None) => break,
                 (_, Some(';')) => fail!("Disallowed ';' in class name"),
                 (segment, Some('/')) => index += segment.len() + 1,
-- 
2.43.0


From 0a5a14b37868ca25694e357d9f2581358071b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 7/9] fix: reject trailing data after field and method
 descriptors

The descriptors of fields, methods, local variables, record components and
annotations were accepted with arbitrary garbage following them.
---
 src/attributes.rs  | 10 +++++-----
 src/descriptors.rs | 22 ++++++++++++++++++++++
 src/lib.rs         |  8 ++++----
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index c320f57..f1e5ec7 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -11,7 +11,7 @@ use crate::constant_pool::{
 use crate::constant_pool::{
     BootstrapArgument, ConstantPoolEntry, LiteralConstant, MethodHandle, NameAndType,
 };
-use crate::descriptors::{is_return_descriptor, parse_field_descriptor, FieldDescriptor};
+use crate::descriptors::{is_return_descriptor, parse_entire_field_descriptor, FieldDescriptor};
 use crate::names::is_unqualified_name;
 use crate::{read_u1, read_u2, read_u4, AccessFlags, CafeRc, ParseError, ParseOptions};
 
@@ -602,7 +602,7 @@ fn read_localvariable_data<'a>(
             fail!("Invalid unqualified name for variable {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor for variable {}", i))?;
         let index = read_u2(bytes, ix)?;
         localvariables.push(LocalVariableEntry {
@@ -661,7 +661,7 @@ fn read_annotation_element_value<'a>(
         's' => AnnotationElementValue::StringConstant(read_cp_utf8(bytes, ix, pool)?),
         'e' => {
             let type_name = read_cp_utf8(bytes, ix, pool)
-                .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+                .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
                 .map_err(|e| err!(e, "annotation element value enum descriptor"))?;
             let const_name = read_cp_utf8(bytes, ix, pool)?;
             AnnotationElementValue::EnumConstant {
@@ -699,7 +699,7 @@ fn read_annotation<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
-        .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+        .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
         .map_err(|e| err!(e, "type descriptor field"))?;
     let element_count = read_u2(bytes, ix)?;
     let mut elements = Vec::with_capacity(element_count.into());
@@ -1035,7 +1035,7 @@ fn read_record_data<'a>(
             fail!("Invalid unqualified name for entry {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
+            .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
         let attributes =
             read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "entry {}", i))?;
diff --git a/src/descriptors.rs b/src/descriptors.rs
index 00929d2..dc6f07d 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -290,6 +290,28 @@ pub(crate) fn parse_method_descriptor<'a>(
     })
 }
 
+// Parse the given data as a field descriptor, with nothing following.
+pub(crate) fn parse_entire_field_descriptor<'a>(
+    data: &Cow<'a, str>,
+) -> Result<FieldDescriptor<'a>, ParseError> {
+    let desc = parse_field_descriptor(data, 0)?;
+    if data.len() != desc.byte_len() {
+        fail!("Unexpected data after field descriptor")
+    }
+    Ok(desc)
+}
+
+// Parse the given data as a method descriptor, with nothing following.
+pub(crate) fn parse_entire_method_descriptor<'a>(
+    data: &Cow<'a, str>,
+) -> Result<MethodDescriptor<'a>, ParseError> {
+    let desc = parse_method_descriptor(data, 0)?;
+    if data.len() != desc.byte_len() {
+        fail!("Unexpected data after method descriptor")
+    }
+    Ok(desc)
+}
+
 pub(crate) fn parse_array_descriptor<'a>(
     data: &Cow<'a, str>,
 ) -> Result<Option<FieldDescriptor<'a>>, ParseError> {
diff --git a/src/lib.rs b/src/lib.rs
index e1683e1..2ecbf83 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -31,8 +31,8 @@ use crate::constant_pool::{
     ConstantPoolIter,
 };
 use crate::descriptors::{
-    parse_field_descriptor, parse_method_descriptor, ClassName, FieldDescriptor, MethodDescriptor,
-    ReturnDescriptor,
+    parse_entire_field_descriptor, parse_entire_method_descriptor, ClassName, FieldDescriptor,
+    MethodDescriptor, ReturnDescriptor,
 };
 pub use crate::error::ParseError;
 use crate::names::{is_unqualified_method_name, is_unqualified_name};
@@ -176,7 +176,7 @@ fn read_fields<'a>(
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .map_err(|e| err!(e, "descriptor of class field {}", i))?;
-        let descriptor = parse_field_descriptor(&descriptor, 0)?;
+        let descriptor = parse_entire_field_descriptor(&descriptor)?;
 
         let unique_id = (name.clone(), descriptor.clone());
         if !unique_ids.insert(unique_id) {
@@ -242,7 +242,7 @@ fn read_methods<'a>(
             fail!("Invalid unqualified name for class method {}", i);
         }
         let descriptor = read_cp_utf8(bytes, ix, pool)
-            .and_then(|d| parse_method_descriptor(&d, 0))
+            .and_then(|d| parse_entire_method_descriptor(&d))
             .map_err(|e| err!(e, "descriptor of class method {}", i))?;
 
         if allow_init && name == "<init>" && descriptor.return_type != ReturnDescriptor::Void {
-- 
2.43.0


From e29e886cf0b92aa6dea9dfa918a2812cc895c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 8/9] fix: never link constant pool entries of the wrong type

A malformed pool could chain tens of thousands of entries to each other before
the types were checked; dropping such a chain recursed until the stack
overflowed. Checking the type before linking bounds the depth, and also rules
out reference cycles, which were leaked.
---
 src/constant_pool.rs | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index f115d65..3befaac 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -32,6 +32,7 @@ impl<'a> ConstantPoolRef<'a> {
         &mut self,
         my_index: usize,
         pool: &[CafeRc<ConstantPoolEntry<'a>>],
+        allowed: ConstantPoolEntryTypes,
     ) -> Result<(), ParseError> {
         match self {
             ConstantPoolRef::Unresolved(ix) => {
@@ -46,6 +47,9 @@ impl<'a> ConstantPoolRef<'a> {
                         target
                     );
                 }
+                pool[target]
+                    .ensure_type(allowed)
+                    .map_err(|e| err!(e, "constant pool entry {}", my_index))?;
                 *self = ConstantPoolRef::Resolved(pool[target].clone());
                 Ok(())
             }
@@ -80,6 +84,7 @@ trait CafeCellDeref<'a> {
         &self,
         cp_index: usize,
         pool: &[CafeRc<ConstantPoolEntry<'a>>],
+        allowed: ConstantPoolEntryTypes,
     ) -> Result<(), ParseError>;
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError>;
 }
@@ -89,11 +94,16 @@ impl<'a> CafeCellDeref<'a> for CafeCell<ConstantPoolRef<'a>> {
         &self,
         cp_index: usize,
         pool: &[CafeRc<ConstantPoolEntry<'a>>],
+        allowed: ConstantPoolEntryTypes,
     ) -> Result<(), ParseError> {
         #[cfg(not(feature = "threadsafe"))]
-        return self.borrow_mut().resolve(cp_index, pool);
+        return self.borrow_mut().resolve(cp_index, pool, allowed);
         #[cfg(feature = "threadsafe")]
-        return self.lock().unwrap().deref_mut().resolve(cp_index, pool);
+        return self
+            .lock()
+            .unwrap()
+            .deref_mut()
+            .resolve(cp_index, pool, allowed);
     }
 
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError> {
@@ -136,6 +146,7 @@ bitflags! {
         const PACKAGE_INFO = 0x0002_0000;
         const UNUSED = 0x0004_0000;
 
+        const MEMBER_REFS = Self::FIELD_REF.bits() | Self::METHOD_REF.bits() | Self::INTERFACE_METHOD_REF.bits();
         const NEW_METHOD_REFS = Self::METHOD_REF.bits() | Self::INTERFACE_METHOD_REF.bits();
         const CONSTANTS = Self::INTEGER.bits() | Self::FLOAT.bits() | Self::LONG.bits() | Self::DOUBLE.bits() | Self::STRING.bits();
         const BOOTSTRAP_ARGUMENT = Self::CONSTANTS.bits() | Self::CLASS_INFO.bits() | Self::METHOD_HANDLE.bits() | Self::METHOD_TYPE.bits();
@@ -189,20 +200,28 @@ impl<'a> ConstantPoolEntry<'a> {
             // Entry types that reference one other entry:
             ConstantPoolEntry::ClassInfo(x)
             | ConstantPoolEntry::String(x)
-            | ConstantPoolEntry::MethodHandle(_, x)
             | ConstantPoolEntry::MethodType(x)
-            | ConstantPoolEntry::Dynamic(_, x)
-            | ConstantPoolEntry::InvokeDynamic(_, x)
             | ConstantPoolEntry::ModuleInfo(x)
-            | ConstantPoolEntry::PackageInfo(x) => x.resolve(my_index, pool),
+            | ConstantPoolEntry::PackageInfo(x) => {
+                x.resolve(my_index, pool, ConstantPoolEntryTypes::UTF8)
+            }
+            ConstantPoolEntry::MethodHandle(_, x) => {
+                x.resolve(my_index, pool, ConstantPoolEntryTypes::MEMBER_REFS)
+            }
+            ConstantPoolEntry::Dynamic(_, x) | ConstantPoolEntry::InvokeDynamic(_, x) => {
+                x.resolve(my_index, pool, ConstantPoolEntryTypes::NAME_AND_TYPE)
+            }
 
             // Entry types that reference two other entries:
             ConstantPoolEntry::FieldRef(x, y)
             | ConstantPoolEntry::MethodRef(x, y)
-            | ConstantPoolEntry::InterfaceMethodRef(x, y)
-            | ConstantPoolEntry::NameAndType(x, y) => {
-                x.resolve(my_index, pool)?;
-                y.resolve(my_index, pool)
+            | ConstantPoolEntry::InterfaceMethodRef(x, y) => {
+                x.resolve(my_index, pool, ConstantPoolEntryTypes::CLASS_INFO)?;
+                y.resolve(my_index, pool, ConstantPoolEntryTypes::NAME_AND_TYPE)
+            }
+            ConstantPoolEntry::NameAndType(x, y) => {
+                x.resolve(my_index, pool, ConstantPoolEntryTypes::UTF8)?;
+                y.resolve(my_index, pool, ConstantPoolEntryTypes::UTF8)
             }
         }
     }
-- 
2.43.0


From a5cc9acfeb0b6146c77002ebbe279e487ed33f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 9/9] fix: limit the nesting depth of attributes and
 annotations

Deeply nested Code/Record attributes or annotation element values in a small
class file made the recursive parser overflow the stack and abort the process.
---
 src/attributes.rs | 46 ++++++++++++++++++++++++++++++++++------------
 src/lib.rs        |  8 ++++----
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index f1e5ec7..4b8931a 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -15,6 +15,15 @@ use crate::descriptors::{is_return_descriptor, parse_entire_field_descriptor, Fi
 use crate::names::is_unqualified_name;
 use crate::{read_u1, read_u2, read_u4, AccessFlags, CafeRc, ParseError, ParseOptions};
 
+/// How deeply attributes may be nested in one another (inside Code and Record attributes).
+/// Valid class files need two levels; the limit keeps the recursion away from stack overflows.
+const MAX_ATTRIBUTE_DEPTH: usize = 16;
+
+/// How deeply annotation element values may be nested in one another. As an annotation type
+/// cannot contain itself, this is far more than real class files need; the limit keeps the
+/// recursion away from stack overflows.
+const MAX_ANNOTATION_DEPTH: usize = 64;
+
 #[derive(Debug)]
 pub struct ExceptionTableEntry<'a> {
     pub start_pc: u16,
@@ -369,6 +378,7 @@ fn read_code_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<CodeData<'a>, ParseError> {
     let max_stack = read_u2(bytes, ix)?;
     let max_locals = read_u2(bytes, ix)?;
@@ -397,7 +407,7 @@ fn read_code_data<'a>(
         });
     }
     let code_attributes =
-        read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "code attribute"))?;
+        read_attributes(bytes, ix, pool, opts, depth + 1).map_err(|e| err!(e, "code attribute"))?;
     let bytecode = if opts.parse_bytecode {
         Some(ByteCode::from(code, pool).map_err(|e| err!(e, "bytecode"))?)
     } else {
@@ -648,7 +658,11 @@ fn read_annotation_element_value<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<AnnotationElementValue<'a>, ParseError> {
+    if depth >= MAX_ANNOTATION_DEPTH {
+        fail!("Annotation element values are nested too deeply");
+    }
     let value = match read_u1(bytes, ix)? as char {
         'B' => AnnotationElementValue::ByteConstant(read_cp_integer(bytes, ix, pool)?),
         'C' => AnnotationElementValue::CharConstant(read_cp_integer(bytes, ix, pool)?),
@@ -676,13 +690,15 @@ fn read_annotation_element_value<'a>(
             }
             AnnotationElementValue::ClassLiteral { class_name }
         }
-        '@' => AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool)?),
+        '@' => {
+            AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool, depth + 1)?)
+        }
         '[' => {
             let count = read_u2(bytes, ix)?;
             let mut array_values = Vec::with_capacity(count.into());
             for i in 0..count {
                 array_values.push(
-                    read_annotation_element_value(bytes, ix, pool)
+                    read_annotation_element_value(bytes, ix, pool, depth + 1)
                         .map_err(|e| err!(e, "array index {}", i))?,
                 );
             }
@@ -697,6 +713,7 @@ fn read_annotation<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
         .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
@@ -705,7 +722,7 @@ fn read_annotation<'a>(
     let mut elements = Vec::with_capacity(element_count.into());
     for i in 0..element_count {
         let name = read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name of element {}", i))?;
-        let value = read_annotation_element_value(bytes, ix, pool)
+        let value = read_annotation_element_value(bytes, ix, pool, depth)
             .map_err(|e| err!(e, "value of element {}", i))?;
         elements.push(AnnotationElement { name, value });
     }
@@ -724,7 +741,7 @@ fn read_annotation_data<'a>(
     let mut annotations = Vec::with_capacity(count.into());
     for i in 0..count {
         annotations
-            .push(read_annotation(bytes, ix, pool).map_err(|e| err!(e, "annotation {}", i))?);
+            .push(read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "annotation {}", i))?);
     }
     Ok(annotations)
 }
@@ -741,7 +758,7 @@ fn read_parameter_annotation_data<'a>(
         let mut annotations = Vec::with_capacity(annotation_count.into());
         for j in 0..annotation_count {
             annotations.push(
-                read_annotation(bytes, ix, pool)
+                read_annotation(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "annotation {} of parameter {}", j, i))?,
             );
         }
@@ -826,7 +843,7 @@ fn read_type_annotation_data<'a>(
             });
         }
         let annotation =
-            read_annotation(bytes, ix, pool).map_err(|e| err!(e, "type annotation {}", i))?;
+            read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "type annotation {}", i))?;
         annotations.push(TypeAnnotation {
             target_type,
             target_path,
@@ -1026,6 +1043,7 @@ fn read_record_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<Vec<RecordComponentEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
     let mut components = Vec::with_capacity(count.into());
@@ -1037,8 +1055,8 @@ fn read_record_data<'a>(
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .and_then(|descriptor| parse_entire_field_descriptor(&descriptor))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
-        let attributes =
-            read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "entry {}", i))?;
+        let attributes = read_attributes(bytes, ix, pool, opts, depth + 1)
+            .map_err(|e| err!(e, "entry {}", i))?;
         components.push(RecordComponentEntry {
             name,
             descriptor,
@@ -1053,7 +1071,11 @@ pub(crate) fn read_attributes<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    if depth >= MAX_ATTRIBUTE_DEPTH {
+        fail!("Attributes are nested too deeply");
+    }
     let count = read_u2(bytes, ix)?;
     let mut attributes = Vec::with_capacity(count.into());
     for i in 0..count {
@@ -1076,7 +1098,7 @@ pub(crate) fn read_attributes<'a>(
                 )
             }
             "Code" => {
-                let code_data = read_code_data(bytes, ix, pool, opts)
+                let code_data = read_code_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Code attribute {}", i))?;
                 AttributeData::Code(code_data)
             }
@@ -1183,7 +1205,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::RuntimeInvisibleTypeAnnotations(annotation_data)
             }
             "AnnotationDefault" => {
-                let element_value = read_annotation_element_value(bytes, ix, pool)
+                let element_value = read_annotation_element_value(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "AnnotationDefault attribute {}", i))?;
                 AttributeData::AnnotationDefault(element_value)
             }
@@ -1230,7 +1252,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::PermittedSubclasses(permitted_subclasses_data)
             }
             "Record" => {
-                let record_data = read_record_data(bytes, ix, pool, opts)
+                let record_data = read_record_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Record attribute {}", i))?;
                 AttributeData::Record(record_data)
             }
diff --git a/src/lib.rs b/src/lib.rs
index 2ecbf83..b97841a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -186,7 +186,7 @@ fn read_fields<'a>(
             );
         }
         let attributes =
-            read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "class field {}", i))?;
+            read_attributes(bytes, ix, pool, opts, 0).map_err(|e| err!(e, "class field {}", i))?;
         fields.push(FieldInfo {
             access_flags,
             name,
@@ -264,7 +264,7 @@ fn read_methods<'a>(
             );
         }
         let attributes =
-            read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "class method {}", i))?;
+            read_attributes(bytes, ix, pool, opts, 0).map_err(|e| err!(e, "class method {}", i))?;
         methods.push(MethodInfo {
             access_flags,
             name,
@@ -414,8 +414,8 @@ pub fn parse_class_with_options<'a>(
         access_flags.contains(ClassAccessFlags::INTERFACE),
         major_version,
     )?;
-    let attributes =
-        read_attributes(raw_bytes, &mut ix, &constant_pool, opts).map_err(|e| err!(e, "class"))?;
+    let attributes = read_attributes(raw_bytes, &mut ix, &constant_pool, opts, 0)
+        .map_err(|e| err!(e, "class"))?;
     // Section 4.8 "Format Checking" says the class file must not have extra bytes at the end
     if ix != raw_bytes.len() {
         fail!("Extra bytes found at index {} after reading class file", ix);
-- 
2.43.0

