From b87ea82b037f89be36fcf63601e0c60a7d948516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 01/16] fix: include RETURN_VALUE_INLINE in the exclusive
 Return flag category

A message whose flags combine RETURN_VALUE_INLINE with another Return flag,
an Exception flag or a Signature flag was accepted (MS-NRBF 2.2.1.1).
---
 src/record/message_flags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/record/message_flags.rs b/src/record/message_flags.rs
index d4ba481..3cb0b8c 100644
--- a/src/record/message_flags.rs
+++ b/src/record/message_flags.rs
@@ -81,7 +81,7 @@ impl MessageFlags {
     let return_flags = flags.intersection(
       Self::NO_RETURN_VALUE
         .union(Self::RETURN_VALUE_VOID)
-        .union(Self::RETURN_VALUE_IN_ARRAY)
+        .union(Self::RETURN_VALUE_INLINE)
         .union(Self::RETURN_VALUE_IN_ARRAY),
     );
     let signature_flags = flags.intersection(Self::METHOD_SIGNATURE_IN_ARRAY);
-- 
2.43.0


From 10c8d064449da8c86c722edacb654349cb393159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 02/16] fix: do not count the end of a list's items as an
 element

A List whose _size is one more than the number of _items was deserialized
as if it were complete.
---
 src/value/object.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/value/object.rs b/src/value/object.rs
index 7364f11..e3c879d 100644
--- a/src/value/object.rs
+++ b/src/value/object.rs
@@ -262,7 +262,9 @@ where
   {
     if self.count < self.size {
       let res = self.array_deserializer.next_element_seed(seed)?;
-      self.count += 1;
+      if res.is_some() {
+        self.count += 1;
+      }
       return Ok(res)
     }
 
-- 
2.43.0


From f3d8fafee8b9bac9771c024f5e9ede5aab69c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 03/16] fix: forward deserialize_option of a message to its
 value

from_slice::<Option<T>> failed for every root value but null.
---
 src/remoting_message.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/remoting_message.rs b/src/remoting_message.rs
index 644fb80..b00f576 100644
--- a/src/remoting_message.rs
+++ b/src/remoting_message.rs
@@ -100,6 +100,13 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
     self.to_deserializer(&visitor)?.deserialize_any(visitor)
   }
 
+  fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+  where
+    V: Visitor<'de>,
+  {
+    self.to_deserializer(&visitor)?.deserialize_option(visitor)
+  }
+
   fn deserialize_struct<V>(
     self,
     name: &'static str,
@@ -114,7 +121,7 @@ impl<'de> Deserializer<'de> for RemotingMessage<'de> {
 
   forward_to_deserialize_any! {
       bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-      bytes byte_buf option unit unit_struct newtype_struct seq tuple
+      bytes byte_buf unit unit_struct newtype_struct seq tuple
       tuple_struct map enum identifier ignored_any
   }
 }
-- 
2.43.0


From c3184dacc5d418b2cdb58f39f29e8e24ae53564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 04/16] fix: read the kind of a DateTime from its two high bits

.NET stores Ticks in the low 62 bits and Kind in the two high bits of the
64-bit value (MS-NRBF 2.1.1.5); ticks() of 2020-01-01 returned a quarter of
its ticks.
---
 src/value/date_time.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/value/date_time.rs b/src/value/date_time.rs
index 7a2e5e5..e818290 100644
--- a/src/value/date_time.rs
+++ b/src/value/date_time.rs
@@ -17,12 +17,14 @@ impl DateTime {
   /// The value can represent time instants in a granularity of 100 nanoseconds
   /// until 23:59:59.9999999, December 31, 9999.
   pub fn ticks(&self) -> i64 {
-    i64::from(self.0) >> 2
+    // The low 62 bits are the ticks, as a signed integer.
+    (i64::from(self.0) << 2) >> 2
   }
 
   /// Provides the time-zone information.
   pub fn kind(&self) -> Option<DateTimeKind> {
-    match i64::from(self.0) & 0b11 {
+    // The high 2 bits are the kind.
+    match (i64::from(self.0) >> 62) & 0b11 {
       1 => Some(DateTimeKind::Utc),
       2 => Some(DateTimeKind::Local),
       _ => None,
-- 
2.43.0


From 28a62f21610a09ed3c6ee06ced76dde1ff785d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 05/16] fix: decode a Char as the UTF-8 sequence it is

Every byte is a valid code point, so the first alternative always matched
and a multi-byte character was read as one Latin-1 character per byte,
leaving the rest of its bytes in the stream (MS-NRBF 2.1.1.1).
---
 src/data_type/char.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/data_type/char.rs b/src/data_type/char.rs
index 26f8f2e..2bd39b0 100644
--- a/src/data_type/char.rs
+++ b/src/data_type/char.rs
@@ -1,8 +1,9 @@
+use std::str;
+
 use nom::{
   IResult, Parser,
-  branch::alt,
+  bytes::complete::take,
   combinator::{map, map_opt},
-  number::complete::{le_u16, le_u24, le_u32, u8},
 };
 
 use super::impl_primitive;
@@ -18,20 +19,20 @@ pub struct Char(pub char);
 
 impl Char {
   pub fn parse(input: &[u8]) -> IResult<&[u8], Self, Error<'_>> {
-    map(
-      alt((
-        map_opt(u8, |n| char::from_u32(n as u32)),
-        map_opt(le_u16, |n| char::from_u32(n as u32)),
-        map_opt(le_u24, char::from_u32),
-        map_opt(le_u32, char::from_u32),
-      )),
-      Self,
-    )
-    .parse(input)
-    .map_err(|err| {
-      into_failure(err)
-        .map(|err: nom::error::Error<&[u8]>| error_position!(err.input, ExpectedPrimitive(PrimitiveType::Char)))
-    })
+    // The first byte determines the length of the UTF-8 sequence.
+    let len = match input.first() {
+      Some(0xC0..=0xDF) => 2usize,
+      Some(0xE0..=0xEF) => 3,
+      Some(0xF0..=0xFF) => 4,
+      _ => 1,
+    };
+
+    map(map_opt(take(len), |bytes| str::from_utf8(bytes).ok().and_then(|s| s.chars().next())), Self)
+      .parse(input)
+      .map_err(|err| {
+        into_failure(err)
+          .map(|err: nom::error::Error<&[u8]>| error_position!(err.input, ExpectedPrimitive(PrimitiveType::Char)))
+      })
   }
 }
 
-- 
2.43.0


From e06fd4b196043bf664380270f4999838d827d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 06/16] fix: accept a BinaryLibrary in front of records other
 than classes

parse_classes registers a library before it finds out that no class follows.
The next alternative then saw the same record as a duplicate, so that e.g. an
array of library classes could never be parsed.
---
 src/binary_parser/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index d0cb273..1d0a556 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -80,9 +80,13 @@ impl<'i> BinaryParser<'i> {
 
     if let Some(binary_library) = binary_library {
       let library_id = binary_library.library_id();
+      let library_name = binary_library.library_name.as_str();
 
-      if self.binary_libraries.insert(library_id, binary_library.library_name).is_some() {
-        return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
+      if let Some(previous) = self.binary_libraries.insert(library_id, binary_library.library_name) {
+        // The same record is parsed again when another alternative is tried at its position.
+        if !std::ptr::eq(previous.as_str(), library_name) {
+          return Err(nom::Err::Failure(error_position!(input, DuplicateLibraryId)))
+        }
       }
     }
 
-- 
2.43.0


From a2fbc6c34b87b4b2868dbb671d8651651e18407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 07/16] fix: remember class metadata for ClassWithId records

No class was ever registered, so every ClassWithId record failed with
"missing metadata ID" and duplicate class object IDs went unnoticed.
---
 src/binary_parser/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 1d0a556..4b35ee6 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -234,8 +234,11 @@ impl<'i> BinaryParser<'i> {
 
     let err_input = input;
 
+    let mut is_class_with_id = false;
     let (input, (object_id, class)) = match ClassWithId::parse(input) {
       Ok((input, class_with_id)) => {
+        is_class_with_id = true;
+
         if let Some(class) = self.classes.get(&class_with_id.metadata_id()) {
           (input, (class_with_id.object_id(), class.clone()))
         } else {
@@ -258,6 +261,11 @@ impl<'i> BinaryParser<'i> {
       return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
     }
 
+    // Members can already refer to the metadata of the class they belong to.
+    if !is_class_with_id {
+      self.classes.insert(object_id, class.clone());
+    }
+
     let (input, (class_info, library, member_references)) = match class {
       Class::ClassWithMembers(ref class) => {
         let library = if let Some(library) = self.binary_libraries.get(&class.library_id()) {
-- 
2.43.0


From b7eca893436fde1d686ba697f76bd9b1cae06c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 08/16] fix: reject an object whose ID is taken instead of
 replacing the object

Of two records with the same object ID, the later one silently won.
---
 src/binary_parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 4b35ee6..e11f23a 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -459,7 +459,10 @@ impl<'i> BinaryParser<'i> {
       ),
     )?;
 
-    self.objects.insert(object_id.0, object);
+    if self.objects.insert(object_id.0, object).is_some() {
+      return Err(nom::Err::Failure(error_position!(input, DuplicateObjectId)))
+    }
+
     Ok((input, object_id))
   }
 
-- 
2.43.0


From 2020d20e15359432fc4c8831ec0cb898e98ffc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 09/16] fix: report the error of a class instead of trying a
 null object

A malformed class in a slot with a class type was reported as a missing
null object.
---
 src/binary_parser/mod.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index e11f23a..db2dc9e 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -113,14 +113,16 @@ impl<'i> BinaryParser<'i> {
         },
         (BinaryType::Object, None) => return self.parse_member_reference(input, None),
         (BinaryType::SystemClass, Some(AdditionalTypeInfo::SystemClass(class_name))) => {
-          if let Ok((input, (_, object))) = self.parse_classes(input) {
-            if object.class != class_name.as_str() || object.library.is_some() {
-              return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
-            }
-
-            (input, ValueOrRef::Value(Value::Object(object)))
-          } else {
-            Self::parse_null_object(input)?
+          match self.parse_classes(input) {
+            Ok((input, (_, object))) => {
+              if object.class != class_name.as_str() || object.library.is_some() {
+                return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
+              }
+
+              (input, ValueOrRef::Value(Value::Object(object)))
+            },
+            Err(nom::Err::Error(_)) => Self::parse_null_object(input)?,
+            Err(err) => return Err(err),
           }
         },
         (BinaryType::Class, Some(AdditionalTypeInfo::Class(class_type_info))) => {
@@ -132,14 +134,16 @@ impl<'i> BinaryParser<'i> {
             return Err(nom::Err::Failure(error_position!(err_input, MissingLibraryId)))
           };
 
-          if let Ok((input, (_, object))) = self.parse_classes(input) {
-            if object.class != class_type_info.type_name.as_str() || object.library != Some(library) {
-              return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
-            }
+          match self.parse_classes(input) {
+            Ok((input, (_, object))) => {
+              if object.class != class_type_info.type_name.as_str() || object.library != Some(library) {
+                return Err(nom::Err::Failure(error_position!(input, UnexpectedClass)))
+              }
 
-            (input, ValueOrRef::Value(Value::Object(object)))
-          } else {
-            Self::parse_null_object(input)?
+              (input, ValueOrRef::Value(Value::Object(object)))
+            },
+            Err(nom::Err::Error(_)) => Self::parse_null_object(input)?,
+            Err(err) => return Err(err),
           }
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
-- 
2.43.0


From 124114863cd8fef27805e396fbed7082276be4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 10/16] fix: accept references and null in every slot of a
 reference type

A null or shared string member, and a class or primitive array member that is
a reference or null (MS-NRBF 2.7 memberReference), failed to parse.
---
 src/binary_parser/mod.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index db2dc9e..b3aa035 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -108,9 +108,6 @@ impl<'i> BinaryParser<'i> {
           |primitive| ValueOrRef::Value(primitive.into_value()),
         )
         .parse(input)?,
-        (BinaryType::String, None) => {
-          map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))).parse(input)?
-        },
         (BinaryType::Object, None) => return self.parse_member_reference(input, None),
         (BinaryType::SystemClass, Some(AdditionalTypeInfo::SystemClass(class_name))) => {
           match self.parse_classes(input) {
@@ -121,7 +118,7 @@ impl<'i> BinaryParser<'i> {
 
               (input, ValueOrRef::Value(Value::Object(object)))
             },
-            Err(nom::Err::Error(_)) => Self::parse_null_object(input)?,
+            Err(nom::Err::Error(_)) => Self::parse_reference_or_null_object(input)?,
             Err(err) => return Err(err),
           }
         },
@@ -142,23 +139,18 @@ impl<'i> BinaryParser<'i> {
 
               (input, ValueOrRef::Value(Value::Object(object)))
             },
-            Err(nom::Err::Error(_)) => Self::parse_null_object(input)?,
+            Err(nom::Err::Error(_)) => Self::parse_reference_or_null_object(input)?,
             Err(err) => return Err(err),
           }
         },
         (BinaryType::ObjectArray, None) => return self.parse_member_reference(input, None),
-        (BinaryType::StringArray, None) => alt((
+        (BinaryType::String | BinaryType::StringArray, None) => alt((
           map(BinaryObjectString::parse, |s| ValueOrRef::Value(Value::String(s.as_str()))),
-          map(
-            |input| MemberReference::parse(input),
-            |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)),
-          ),
-          Self::parse_null_object,
+          Self::parse_reference_or_null_object,
         ))
         .parse(input)?,
         (BinaryType::PrimitiveArray, Some(AdditionalTypeInfo::Primitive(_primitive_type))) => {
-          map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref)))
-            .parse(input)?
+          Self::parse_reference_or_null_object(input)?
         },
         _ => unreachable!(),
       }
@@ -480,6 +472,15 @@ impl<'i> BinaryParser<'i> {
     .parse(input)
   }
 
+  /// 2.7 Binary Record Grammar - `MemberReference/nullObject`
+  fn parse_reference_or_null_object(input: &'i [u8]) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
+    alt((
+      map(|input| MemberReference::parse(input), |member_reference| ValueOrRef::Ref(RefId(member_reference.id_ref))),
+      Self::parse_null_object,
+    ))
+    .parse(input)
+  }
+
   fn parse_call_array(
     &mut self,
     input: &'i [u8],
-- 
2.43.0


From 21379e425f7dc77cb74b79c3a68154d754b6c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 11/16] fix: make null runs fill exactly the members they stand
 for

The number of records was taken for the number of members: a null run could
make an array longer than declared (and the splitting of a rectangular array
panic), or shift and drop the remaining members of a class.
---
 src/binary_parser/mod.rs | 102 ++++++++++++++++++++-------------------
 1 file changed, 53 insertions(+), 49 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index b3aa035..d5b2566 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -175,17 +175,57 @@ impl<'i> BinaryParser<'i> {
   ) -> IResult<&'i [u8], Vec<ValueOrRef<'i>>, Error<'i>> {
     let mut member_references = vec![];
 
-    for (binary_type_enum, additional_info) in
-      member_type_info.binary_type_enums.iter().zip(member_type_info.additional_infos.iter())
-    {
+    let mut members = member_type_info.binary_type_enums.iter().zip(member_type_info.additional_infos.iter());
+    while let Some((binary_type_enum, additional_info)) = members.next() {
       let member;
       (input, member) = self.parse_member_reference(input, Some((*binary_type_enum, additional_info.as_ref())))?;
+
+      if let ValueOrRef::Null(count) = member {
+        for _ in 1..count {
+          if members.next().is_none() {
+            return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+          }
+        }
+      }
+
       member_references.push(member);
     }
 
     Ok((input, member_references))
   }
 
+  /// Parses exactly `len` members, a null record counting as many times as it says.
+  fn parse_members(
+    &mut self,
+    mut input: &'i [u8],
+    len: usize,
+    type_enum_and_additional_type_info: Option<(BinaryType, Option<&AdditionalTypeInfo<'i>>)>,
+  ) -> IResult<&'i [u8], Vec<ValueOrRef<'i>>, Error<'i>> {
+    let mut members = vec![];
+
+    while members.len() < len {
+      let member;
+      (input, member) = self.parse_member_reference(input, type_enum_and_additional_type_info)?;
+
+      match member {
+        ValueOrRef::Null(count) => {
+          if count > len - members.len() {
+            return Err(nom::Err::Failure(error_position!(input, InvalidNullCount)))
+          }
+
+          for _ in 0..count {
+            members.push(ValueOrRef::Value(Value::Null));
+          }
+        },
+        _ => {
+          members.push(member);
+        },
+      }
+    }
+
+    Ok((input, members))
+  }
+
   /// Resolves members from already parsed objects or by parsing missing members.
   fn resolve_members(
     &mut self,
@@ -271,8 +311,7 @@ impl<'i> BinaryParser<'i> {
         };
 
         let member_count = class.class_info().member_names.len();
-        let (input, member_references) =
-          count(|input| self.parse_member_reference(input, None), member_count).parse(input)?;
+        let (input, member_references) = self.parse_members(input, member_count, None)?;
 
         (input, (class.class_info(), Some(library), member_references))
       },
@@ -289,8 +328,7 @@ impl<'i> BinaryParser<'i> {
       },
       Class::SystemClassWithMembers(ref class) => {
         let member_count = class.class_info().member_names.len();
-        let (input, member_references) =
-          count(|input| self.parse_member_reference(input, None), member_count).parse(input)?;
+        let (input, member_references) = self.parse_members(input, member_count, None)?;
 
         (input, (class.class_info(), None, member_references))
       },
@@ -318,26 +356,10 @@ impl<'i> BinaryParser<'i> {
 
   /// 2.7 Binary Record Grammar - `ArraySingleObject *(memberReference)`
   fn parse_array_single_object(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
-    let (mut input, array_single_object) = ArraySingleObject::parse(input)?;
-
-    let mut members = vec![];
+    let (input, array_single_object) = ArraySingleObject::parse(input)?;
 
     let len = array_single_object.array_info.len();
-    while members.len() < len {
-      let member;
-      (input, member) = self.parse_member_reference(input, None)?;
-
-      match member {
-        ValueOrRef::Null(count) => {
-          for _ in 0..count {
-            members.push(ValueOrRef::Value(Value::Null));
-          }
-        },
-        _ => {
-          members.push(member);
-        },
-      }
-    }
+    let (input, members) = self.parse_members(input, len, None)?;
 
     let (input, members) = self.resolve_members(input, members)?;
 
@@ -364,26 +386,10 @@ impl<'i> BinaryParser<'i> {
 
   /// 2.7 Binary Record Grammar - `ArraySingleString *(BinaryObjectString/MemberReference/nullObject)`
   fn parse_array_single_string(&mut self, input: &'i [u8]) -> IResult<&'i [u8], (RefId, Vec<Value<'i>>), Error<'i>> {
-    let (mut input, array_single_string) = ArraySingleString::parse(input)?;
-
-    let mut members = vec![];
+    let (input, array_single_string) = ArraySingleString::parse(input)?;
 
     let len = array_single_string.array_info.len();
-    while members.len() < len {
-      let member;
-      (input, member) = self.parse_member_reference(input, Some((BinaryType::StringArray, None)))?;
-
-      match member {
-        ValueOrRef::Null(count) => {
-          for _ in 0..count {
-            members.push(ValueOrRef::Value(Value::Null));
-          }
-        },
-        _ => {
-          members.push(member);
-        },
-      }
-    }
+    let (input, members) = self.parse_members(input, len, Some((BinaryType::StringArray, None)))?;
 
     let (input, members) = self.resolve_members(input, members)?;
 
@@ -401,13 +407,11 @@ impl<'i> BinaryParser<'i> {
       Some(member_count) => member_count,
       None => return Err(nom::Err::Failure(error_position!(err_input, InvalidLength))),
     };
-    let (input, members) = count(
-      |input| {
-        self.parse_member_reference(input, Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())))
-      },
+    let (input, members) = self.parse_members(
+      input,
       member_count,
-    )
-    .parse(input)?;
+      Some((binary_array.type_enum, binary_array.additional_type_info.as_ref())),
+    )?;
 
     let (input, members) = self.resolve_members(input, members)?;
     let object_id = binary_array.object_id();
-- 
2.43.0


From 3c4bb71e7dae8914981ac77ebf06e9806e3a857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 12/16] fix: split a rectangular array without moving the rest
 for each row

Draining rows from the front took quadratic time: 19 s for a message of
100 kB. It also panicked if a row came up short.
---
 src/binary_parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index d5b2566..06f3876 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -420,8 +420,14 @@ impl<'i> BinaryParser<'i> {
     for l in binary_array.lengths.into_iter().skip(1).rev() {
       let mut members2 = vec![];
 
-      while !members.is_empty() {
-        members2.push(Value::Array(members.drain(0..l).collect::<Vec<_>>()));
+      let mut rest = members.into_iter();
+      loop {
+        let row = rest.by_ref().take(l).collect::<Vec<_>>();
+        if row.is_empty() {
+          break
+        }
+
+        members2.push(Value::Array(row));
       }
 
       members = members2;
-- 
2.43.0


From 9112471983f5cdae3cbd406262b2ecb05ec50709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 13/16] fix: limit the rank of an array to 32

Every dimension nests the resulting value once more, so a rank of 100000 in a
message of 400 kB overflowed the stack when the value was dropped.
---
 src/record/binary_array.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/record/binary_array.rs b/src/record/binary_array.rs
index cba98ac..b374083 100644
--- a/src/record/binary_array.rs
+++ b/src/record/binary_array.rs
@@ -6,7 +6,7 @@ use crate::{
   combinator::{length, object_id},
   common::AdditionalTypeInfo,
   enumeration::{BinaryArrayType, BinaryType},
-  error::Error,
+  error::{Error, error_position},
   record::RecordType,
 };
 
@@ -27,8 +27,14 @@ impl<'i> BinaryArray<'i> {
 
     let (input, object_id) = object_id(input)?;
     let (input, binary_array_type_enum) = BinaryArrayType::parse(input)?;
+    let err_input = input;
     let (input, rank) = length(input)?;
 
+    // .NET does not support arrays of a higher rank.
+    if rank > 32 {
+      return Err(nom::Err::Failure(error_position!(err_input, InvalidLength)))
+    }
+
     let (input, lengths) = count(length, rank).parse(input)?;
     let (input, lower_bounds) = cond(
       matches!(
-- 
2.43.0


From e72bc0575fa3dbf5340dffc19ee27cd153f31260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 14/16] fix: reject primitive arrays of null or string

---
 src/record/array_single_primitive.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/record/array_single_primitive.rs b/src/record/array_single_primitive.rs
index 16b02d0..97a784a 100644
--- a/src/record/array_single_primitive.rs
+++ b/src/record/array_single_primitive.rs
@@ -2,7 +2,12 @@ use std::num::NonZeroU32;
 
 use nom::IResult;
 
-use crate::{common::ArrayInfo, enumeration::PrimitiveType, error::Error, record::RecordType};
+use crate::{
+  common::ArrayInfo,
+  enumeration::PrimitiveType,
+  error::{Error, error_position},
+  record::RecordType,
+};
 
 /// 2.4.3.3 `ArraySinglePrimitive`
 #[derive(Debug, Clone, PartialEq)]
@@ -16,8 +21,14 @@ impl ArraySinglePrimitive {
     let (input, _) = RecordType::ArraySinglePrimitive.parse(input)?;
 
     let (input, array_info) = ArrayInfo::parse(input)?;
+    let err_input = input;
     let (input, primitive_type) = PrimitiveType::parse(input)?;
 
+    // The value must not be `Null` or `String`.
+    if matches!(primitive_type, PrimitiveType::Null | PrimitiveType::String) {
+      return Err(nom::Err::Failure(error_position!(err_input, ExpectedPrimitiveType)))
+    }
+
     Ok((input, Self { array_info, primitive_type }))
   }
 
-- 
2.43.0


From abf4aaf6602ee3f985f32ee8b84e13e286fd176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 15/16] fix: reject primitive members of type null or string

---
 src/common/additional_type_info.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/additional_type_info.rs b/src/common/additional_type_info.rs
index a5efd89..794bf38 100644
--- a/src/common/additional_type_info.rs
+++ b/src/common/additional_type_info.rs
@@ -3,7 +3,7 @@ use nom::IResult;
 use crate::{
   data_type::{ClassTypeInfo, LengthPrefixedString},
   enumeration::{BinaryType, PrimitiveType},
-  error::Error,
+  error::{Error, error_position},
 };
 
 #[derive(Debug, Clone, PartialEq)]
@@ -17,8 +17,15 @@ impl<'i> AdditionalTypeInfo<'i> {
   pub fn parse(mut input: &'i [u8], binary_type_enum: BinaryType) -> IResult<&'i [u8], Option<Self>, Error<'i>> {
     let additional_info = match binary_type_enum {
       BinaryType::Primitive => {
+        let err_input = input;
         let primitive_type;
         (input, primitive_type) = PrimitiveType::parse(input)?;
+
+        // The value must not be `Null` or `String`.
+        if matches!(primitive_type, PrimitiveType::Null | PrimitiveType::String) {
+          return Err(nom::Err::Failure(error_position!(err_input, ExpectedPrimitiveType)))
+        }
+
         Some(Self::Primitive(primitive_type))
       },
       BinaryType::String => None,
-- 
2.43.0


From 0ce4fee7fef31210e8c553076aaf2b0363f9deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 16/16] fix: do not look for a library in front of an untyped
 primitive

---
 src/binary_parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary_parser/mod.rs b/src/binary_parser/mod.rs
index 06f3876..a91cbca 100644
--- a/src/binary_parser/mod.rs
+++ b/src/binary_parser/mod.rs
@@ -99,7 +99,12 @@ impl<'i> BinaryParser<'i> {
     input: &'i [u8],
     type_enum_and_additional_type_info: Option<(BinaryType, Option<&AdditionalTypeInfo<'i>>)>,
   ) -> IResult<&'i [u8], ValueOrRef<'i>, Error<'i>> {
-    let (input, ()) = self.parse_binary_library(input)?;
+    // An untyped primitive can start with any byte, including the one of a `BinaryLibrary`.
+    let (input, ()) = if matches!(type_enum_and_additional_type_info, Some((BinaryType::Primitive, _))) {
+      (input, ())
+    } else {
+      self.parse_binary_library(input)?
+    };
 
     let (input, object) = if let Some((type_enum, additional_type_info)) = type_enum_and_additional_type_info {
       match (type_enum, additional_type_info) {
-- 
2.43.0

