From ee05fb2d3ceedb4bbd9b6f2a26ba38c7dfd58353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 01/21] fix: decode 256-bit integers that are followed by other
 bytes

---
 scale-decode/src/visitor/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 52af01a..2f59c9b 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -215,9 +215,9 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
             data: &mut &'scale [u8],
         ) -> Result<&'scale [u8; 32], DecodeError> {
             // Pull an array from the data if we can, preserving the lifetime.
-            let arr: &'scale [u8; 32] = match (*data).try_into() {
-                Ok(arr) => arr,
-                Err(_) => return Err(DecodeError::NotEnoughInput),
+            let arr: &'scale [u8; 32] = match data.get(..32).and_then(|b| b.try_into().ok()) {
+                Some(arr) => arr,
+                None => return Err(DecodeError::NotEnoughInput),
             };
             // If we successfully read the bytes, then advance the pointer past them.
             *data = &data[32..];
-- 
2.43.0


From c399e7f5399b4576b0b6f93bd3b64d2f7f6ee6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 02/21] fix: Tuple::remaining() counts only the items that are
 left

---
 scale-decode/src/visitor/types/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 3faaaec..e11228b 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -58,7 +58,7 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
     }
     /// The number of un-decoded items remaining in the tuple.
     pub fn remaining(&self) -> usize {
-        self.fields.len()
+        self.fields.len() - self.next_field_idx
     }
     /// Decode the next item from the tuple by providing a visitor to handle it.
     pub fn decode_item<V: Visitor<TypeResolver = R>>(
-- 
2.43.0


From a2b25577a8f61ba87da4c5e64bc277516b040163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 03/21] fix: decode compact encoded tuple fields as such when
 given a visitor

---
 scale-decode/src/visitor/types/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index e11228b..25abb0d 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -143,11 +143,12 @@ impl<'scale, 'resolver, R: TypeResolver> TupleField<'scale, 'resolver, R> {
         &self,
         visitor: V,
     ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
-        crate::visitor::decode_with_visitor(
+        crate::visitor::decode_with_visitor_maybe_compact(
             &mut &*self.bytes,
             self.type_id.clone(),
             self.types,
             visitor,
+            self.is_compact,
         )
     }
     /// Decode this field into a specific type via [`DecodeAsType`].
-- 
2.43.0


From 7c832a061536794d9d8c4aaa6dddb87d9b912bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 04/21] fix: Composite::as_tuple() covers only the fields that
 are left

---
 scale-decode/src/visitor/types/composite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index e195c87..a1727c3 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -86,7 +86,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     pub fn as_tuple(&self) -> super::Tuple<'scale, 'resolver, R> {
         super::Tuple::new(
             self.item_bytes,
-            &mut self.fields.iter().cloned(),
+            &mut self.fields[self.next_field_idx..].iter().cloned(),
             self.types,
             self.is_compact,
         )
-- 
2.43.0


From 0c039b8e2b95292ad1a1802601197309019d782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 05/21] fix: report the location of an error from the outside
 in

---
 scale-decode/src/error/context.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scale-decode/src/error/context.rs b/scale-decode/src/error/context.rs
index 5dbb440..7e80ea1 100644
--- a/scale-decode/src/error/context.rs
+++ b/scale-decode/src/error/context.rs
@@ -49,15 +49,16 @@ impl<'a> Path<'a> {
     pub fn into_owned(self) -> Path<'static> {
         Path(Cow::Owned(self.0.into_owned()))
     }
-    /// Return each location visited, oldest first
+    /// Return each location visited, outermost first
     pub fn locations(&self) -> impl Iterator<Item = &Location> {
-        self.0.iter()
+        // Locations are added from the inside out as an error is handed back.
+        self.0.iter().rev()
     }
 }
 
 impl<'a> core::fmt::Display for Path<'a> {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for (idx, loc) in self.0.iter().enumerate() {
+        for (idx, loc) in self.locations().enumerate() {
             if idx != 0 {
                 f.write_str(".")?;
             }
-- 
2.43.0


From 50ca9389b2aff3e02cc56d2049d7b93c6bbe7bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 06/21] fix: honour codec(skip) next to other codec attributes

---
 scale-decode-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 4d44700..be5abdb 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -561,7 +561,7 @@ impl TopLevelAttrs {
 
 /// Parse the attributes attached to some field
 #[derive(Debug, FromAttributes, Default)]
-#[darling(attributes(decode_as_type, codec))]
+#[darling(attributes(decode_as_type, codec), allow_unknown_fields)]
 struct FieldAttrs {
     #[darling(default)]
     skip: bool,
-- 
2.43.0


From 8a0e63117ec7ab67cc4097bfcc836d46241722bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 07/21] fix: do not shorten or overflow lengths where usize has
 32 bits

---
 scale-decode/src/visitor/types/sequence.rs | 3 ++-
 scale-decode/src/visitor/types/str.rs      | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/scale-decode/src/visitor/types/sequence.rs b/scale-decode/src/visitor/types/sequence.rs
index b9ada17..3834a91 100644
--- a/scale-decode/src/visitor/types/sequence.rs
+++ b/scale-decode/src/visitor/types/sequence.rs
@@ -39,7 +39,8 @@ impl<'scale, 'resolver, R: TypeResolver> Sequence<'scale, 'resolver, R> {
         // Sequences are prefixed with their length in bytes. Make a note of this,
         // as well as the number of bytes
         let item_bytes = &mut &*bytes;
-        let len = <Compact<u64>>::decode(item_bytes)?.0 as usize;
+        let len = <Compact<u64>>::decode(item_bytes)?.0;
+        let len = len.try_into().map_err(|_| DecodeError::NotEnoughInput)?;
 
         Ok(Sequence { bytes, values: Array::new(item_bytes, type_id, len, types) })
     }
diff --git a/scale-decode/src/visitor/types/str.rs b/scale-decode/src/visitor/types/str.rs
index f8d788c..318cd2a 100644
--- a/scale-decode/src/visitor/types/str.rs
+++ b/scale-decode/src/visitor/types/str.rs
@@ -47,7 +47,7 @@ impl<'scale> Str<'scale> {
     }
     /// The bytes remaining in the input after this string.
     pub fn bytes_after(&self) -> Result<&'scale [u8], DecodeError> {
-        self.bytes.get(self.compact_len + self.len..).ok_or(DecodeError::NotEnoughInput)
+        self.bytes[self.compact_len..].get(self.len..).ok_or(DecodeError::NotEnoughInput)
     }
     /// Is the string zero bytes long?
     pub fn is_empty(&self) -> bool {
@@ -56,8 +56,9 @@ impl<'scale> Str<'scale> {
     /// return a string, failing if the bytes could not be properly utf8-decoded.
     pub fn as_str(&self) -> Result<&'scale str, DecodeError> {
         let start = self.compact_len;
-        let end = start + self.len;
-        alloc::str::from_utf8(self.bytes.get(start..end).ok_or(DecodeError::NotEnoughInput)?)
-            .map_err(DecodeError::InvalidStr)
+        alloc::str::from_utf8(
+            self.bytes[start..].get(..self.len).ok_or(DecodeError::NotEnoughInput)?,
+        )
+        .map_err(DecodeError::InvalidStr)
     }
 }
-- 
2.43.0


From 5e4d98b12f65b6860a7499a33cd940c56f8069f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 08/21] fix: report a visitor's own error rather than one from
 skipping leftovers

---
 scale-decode-derive/src/lib.rs     | 11 ++++++++---
 scale-decode/src/impls/mod.rs      | 11 ++++++++---
 scale-decode/src/visitor/decode.rs | 12 ++++++++++--
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index be5abdb..5a20ac8 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -326,10 +326,15 @@ fn generate_struct_impl(
                     let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, Default::default());
 
                     // Consume any remaining bytes and update input:
-                    composite.skip_decoding()?;
-                    *input = composite.bytes_from_undecoded();
+                    let skip_res = composite.skip_decoding();
+                    if skip_res.is_ok() {
+                        *input = composite.bytes_from_undecoded();
+                    }
 
-                    val.map_err(From::from)
+                    // Prioritize returning visitor errors over skip_decoding errors.
+                    let val = val?;
+                    skip_res?;
+                    Ok(val)
                 }
             }
         };
diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 16ec900..92871c0 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -645,10 +645,15 @@ macro_rules! impl_decode_tuple {
                 let val = <($($t,)*)>::into_visitor().visit_composite(&mut composite, Default::default());
 
                 // Skip over bytes that we decoded:
-                composite.skip_decoding()?;
-                *input = composite.bytes_from_undecoded();
+                let skip_res = composite.skip_decoding();
+                if skip_res.is_ok() {
+                    *input = composite.bytes_from_undecoded();
+                }
 
-                val
+                // Prioritize returning visitor errors over skip_decoding errors.
+                let val = val?;
+                skip_res?;
+                Ok(val)
             }
         }
     }
diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 2f59c9b..4338abb 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -352,8 +352,16 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
         let res = self.visitor.visit_bitsequence(&mut bitseq, self.type_id);
 
         // Move to the bytes after the bit sequence.
-        *self.data = bitseq.bytes_after()?;
+        let bytes_after = bitseq.bytes_after();
+        if let Ok(bytes) = bytes_after {
+            *self.data = bytes;
+        }
 
-        res
+        // Prioritize returning visitor errors over errors skipping the bits.
+        match (res, bytes_after) {
+            (Err(e), _) => Err(e),
+            (_, Err(e)) => Err(e.into()),
+            (Ok(v), _) => Ok(v),
+        }
     }
 }
-- 
2.43.0


From 60542b1f02c51e566fceafcbc8bc3421c591d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 09/21] fix: refuse a Duration that is too large instead of
 panicking

---
 scale-decode/src/impls/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 92871c0..50d847c 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -211,7 +211,7 @@ macro_rules! impl_into_visitor_like {
                 // Use the source visitor to decode into some type:
                 let inner_res = decode_with_visitor(input, type_id, types, <$source>::into_visitor());
                 // map this type into our desired output and return it:
-                let res = inner_res.map($mapper);
+                let res = inner_res.and_then($mapper);
                 DecodeAsTypeResult::Decoded(res)
             }
         }
@@ -219,13 +219,17 @@ macro_rules! impl_into_visitor_like {
     }
 }
 
-impl_into_visitor_like!(Compact<T> as T: |res| Compact(res));
-impl_into_visitor_like!(Arc<T> as T: |res| Arc::new(res));
-impl_into_visitor_like!(Rc<T> as T: |res| Rc::new(res));
-impl_into_visitor_like!(Box<T> as T: |res| Box::new(res));
-impl_into_visitor_like!(Duration as (u64, u32): |res: (u64,u32)| Duration::from_secs(res.0) + Duration::from_nanos(res.1 as u64));
-impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| res.0..res.1);
-impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| res.0..=res.1);
+impl_into_visitor_like!(Compact<T> as T: |res| Ok(Compact(res)));
+impl_into_visitor_like!(Arc<T> as T: |res| Ok(Arc::new(res)));
+impl_into_visitor_like!(Rc<T> as T: |res| Ok(Rc::new(res)));
+impl_into_visitor_like!(Box<T> as T: |res| Ok(Box::new(res)));
+impl_into_visitor_like!(Duration as (u64, u32): |res: (u64,u32)| {
+    Duration::from_secs(res.0)
+        .checked_add(Duration::from_nanos(res.1 as u64))
+        .ok_or_else(|| Error::custom_str("Duration is out of range"))
+});
+impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| Ok(res.0..res.1));
+impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| Ok(res.0..=res.1));
 
 // A custom implementation for `Cow` because it's rather tricky; the visitor we want is whatever the
 // `ToOwned` value for the Cow is, and Cow's have specific constraints, too.
-- 
2.43.0


From 3f0ed775d8faa1084298afc850c8d777324154f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 10/21] fix: keep the compactness of a value when one visitor
 hands it to another

---
 scale-decode/src/impls/mod.rs             | 52 ++++++++++++++++++++---
 scale-decode/src/impls/primitive_types.rs | 15 ++++++-
 scale-decode/src/visitor/decode.rs        |  7 ++-
 scale-decode/src/visitor/mod.rs           | 26 +++++++++++-
 4 files changed, 91 insertions(+), 9 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 50d847c..603e8b6 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -19,7 +19,8 @@ mod primitive_types;
 use crate::{
     error::{Error, ErrorKind},
     visitor::{
-        self, decode_with_visitor, types::*, DecodeAsTypeResult, DecodeItemIterator, Visitor,
+        self, decode_with_visitor_maybe_compact, types::*, DecodeAsTypeResult, DecodeItemIterator,
+        Visitor,
     },
     DecodeAsFields, FieldIter, IntoVisitor,
 };
@@ -207,9 +208,19 @@ macro_rules! impl_into_visitor_like {
                 input: &mut &'scale [u8],
                 type_id: <Self::TypeResolver as TypeResolver>::TypeId,
                 types: &'resolver Self::TypeResolver,
+            ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
             ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
                 // Use the source visitor to decode into some type:
-                let inner_res = decode_with_visitor(input, type_id, types, <$source>::into_visitor());
+                let inner_res = decode_with_visitor_maybe_compact(input, type_id, types, <$source>::into_visitor(), is_compact);
                 // map this type into our desired output and return it:
                 let res = inner_res.and_then($mapper);
                 DecodeAsTypeResult::Decoded(res)
@@ -248,10 +259,25 @@ where
         input: &mut &'scale [u8],
         type_id: <Self::TypeResolver as TypeResolver>::TypeId,
         types: &'resolver Self::TypeResolver,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
         // Use the ToOwned visitor to decode into some type:
-        let inner_res =
-            decode_with_visitor(input, type_id, types, <<T as ToOwned>::Owned>::into_visitor());
+        let inner_res = decode_with_visitor_maybe_compact(
+            input,
+            type_id,
+            types,
+            <<T as ToOwned>::Owned>::into_visitor(),
+            is_compact,
+        );
         // map this type into our owned Cow to return:
         let res = inner_res.map(Cow::Owned);
         DecodeAsTypeResult::Decoded(res)
@@ -558,6 +584,16 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             input: &mut &'scale [u8],
             type_id: <Self::TypeResolver as TypeResolver>::TypeId,
             types: &'resolver Self::TypeResolver,
+        ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+            self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+        }
+
+        fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+            self,
+            input: &mut &'scale [u8],
+            type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+            types: &'resolver Self::TypeResolver,
+            is_compact: bool,
         ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
             use scale_type_resolver::{ResolvedTypeVisitor, UnhandledKind};
 
@@ -587,7 +623,13 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             }
 
             // Else, try to decode as the inner type.
-            let inner_res = decode_with_visitor(input, type_id, types, <$t>::into_visitor());
+            let inner_res = decode_with_visitor_maybe_compact(
+                input,
+                type_id,
+                types,
+                <$t>::into_visitor(),
+                is_compact,
+            );
             let res = inner_res.map(|val| (val,)).map_err(|e| e.into());
             DecodeAsTypeResult::Decoded(res)
         }
diff --git a/scale-decode/src/impls/primitive_types.rs b/scale-decode/src/impls/primitive_types.rs
index ff788f1..f934efe 100644
--- a/scale-decode/src/impls/primitive_types.rs
+++ b/scale-decode/src/impls/primitive_types.rs
@@ -16,7 +16,7 @@
 use super::BasicVisitor;
 use crate::{
     error::Error,
-    visitor::{decode_with_visitor, DecodeAsTypeResult, Visitor},
+    visitor::{decode_with_visitor_maybe_compact, DecodeAsTypeResult, Visitor},
     IntoVisitor,
 };
 use primitive_types::{H128, H160, H256, H384, H512, H768};
@@ -38,11 +38,22 @@ macro_rules! impl_visitor {
                 Self,
                 Result<Self::Value<'scale, 'resolver>, Self::Error>,
             > {
-                let res = decode_with_visitor(
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
+            ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+                let res = decode_with_visitor_maybe_compact(
                     input,
                     type_id,
                     types,
                     BasicVisitor::<[u8; $len / 8], R> { _marker: core::marker::PhantomData },
+                    is_compact,
                 )
                 .map(|res| <$ty>::from(res));
                 DecodeAsTypeResult::Decoded(res)
diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 4338abb..f1a4e15 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -46,7 +46,12 @@ pub fn decode_with_visitor_maybe_compact<'scale, 'resolver, V: Visitor>(
     is_compact: bool,
 ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
     // Provide option to "bail out" and do something custom first.
-    let visitor = match visitor.unchecked_decode_as_type(data, ty_id.clone(), types) {
+    let visitor = match visitor.unchecked_decode_as_type_maybe_compact(
+        data,
+        ty_id.clone(),
+        types,
+        is_compact,
+    ) {
         DecodeAsTypeResult::Decoded(r) => return r,
         DecodeAsTypeResult::Skipped(v) => v,
     };
diff --git a/scale-decode/src/visitor/mod.rs b/scale-decode/src/visitor/mod.rs
index f1bfc19..599ad6e 100644
--- a/scale-decode/src/visitor/mod.rs
+++ b/scale-decode/src/visitor/mod.rs
@@ -60,6 +60,19 @@ pub trait Visitor: Sized {
         DecodeAsTypeResult::Skipped(self)
     }
 
+    /// As [`Visitor::unchecked_decode_as_type()`], but also told whether the value is compact encoded. Visitors which
+    /// hand the decoding over to another visitor need to pass this on.
+    #[doc(hidden)]
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        _is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type(input, type_id, types)
+    }
+
     /// This is called when a visitor function that you've not provided an implementation is called.
     /// You are provided an enum value corresponding to the function call, and can decide what to return
     /// in this case. The default is to return an error to announce the unexpected value.
@@ -420,7 +433,18 @@ where
         type_id: TypeIdFor<Self>,
         types: &'resolver Self::TypeResolver,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
-        let res = decode_with_visitor(input, type_id, types, self.0).map_err(Into::into);
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        let res = decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)
+            .map_err(Into::into);
         DecodeAsTypeResult::Decoded(res)
     }
 }
-- 
2.43.0


From 4780d4262be019322a257291edb5948a770b6204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 11/21] fix: skip from the failed field on when a visitor
 tolerates a failure

---
 scale-decode/src/visitor/types/composite.rs | 17 ++++++++++++++++-
 scale-decode/src/visitor/types/tuple.rs     | 16 +++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index a1727c3..98951df 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -26,6 +26,8 @@ pub struct Composite<'scale, 'resolver, R: TypeResolver> {
     fields: smallvec::SmallVec<[Field<'resolver, R::TypeId>; 16]>,
     path: smallvec::SmallVec<[&'resolver str; 5]>,
     next_field_idx: usize,
+    // The field that could not be decoded, if any; skipping has to resume there.
+    failed_field_idx: Option<usize>,
     types: &'resolver R,
     is_compact: bool,
 }
@@ -42,7 +44,16 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     ) -> Composite<'scale, 'resolver, R> {
         let path = smallvec::SmallVec::from_iter(path);
         let fields = smallvec::SmallVec::from_iter(fields);
-        Composite { path, bytes, item_bytes: bytes, fields, types, next_field_idx: 0, is_compact }
+        Composite {
+            path,
+            bytes,
+            item_bytes: bytes,
+            fields,
+            types,
+            next_field_idx: 0,
+            failed_field_idx: None,
+            is_compact,
+        }
     }
     /// Return the name of the composite type, if one was given.
     pub fn name(&self) -> Option<&'resolver str> {
@@ -55,6 +66,9 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     /// Skip over all bytes associated with this composite type. After calling this,
     /// [`Self::bytes_from_undecoded()`] will represent the bytes after this composite type.
     pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
+        if let Some(idx) = self.failed_field_idx.take() {
+            self.next_field_idx = idx;
+        }
         while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
             res?;
         }
@@ -121,6 +135,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
             self.next_field_idx += 1;
         } else {
             // Otherwise, skip to end to prevent any future iterations:
+            self.failed_field_idx = Some(self.next_field_idx);
             self.next_field_idx = self.fields.len()
         }
 
diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 25abb0d..82e9cf2 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -25,6 +25,8 @@ pub struct Tuple<'scale, 'resolver, R: TypeResolver> {
     item_bytes: &'scale [u8],
     fields: smallvec::SmallVec<[Field<'resolver, R::TypeId>; 16]>,
     next_field_idx: usize,
+    // The field that could not be decoded, if any; skipping has to resume there.
+    failed_field_idx: Option<usize>,
     types: &'resolver R,
     is_compact: bool,
 }
@@ -37,11 +39,22 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
         is_compact: bool,
     ) -> Tuple<'scale, 'resolver, R> {
         let fields = smallvec::SmallVec::from_iter(fields);
-        Tuple { bytes, item_bytes: bytes, fields, types, next_field_idx: 0, is_compact }
+        Tuple {
+            bytes,
+            item_bytes: bytes,
+            fields,
+            types,
+            next_field_idx: 0,
+            failed_field_idx: None,
+            is_compact,
+        }
     }
     /// Skip over all bytes associated with this tuple. After calling this,
     /// [`Self::bytes_from_undecoded()`] will represent the bytes after this tuple.
     pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
+        if let Some(idx) = self.failed_field_idx.take() {
+            self.next_field_idx = idx;
+        }
         while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
             res?;
         }
@@ -82,6 +95,7 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
             self.next_field_idx += 1;
         } else {
             // Otherwise, skip to end to prevent any future iterations:
+            self.failed_field_idx = Some(self.next_field_idx);
             self.next_field_idx = self.fields.len()
         }
 
-- 
2.43.0


From f326e917f058d25f07fe0f52a7111ed6515b5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 12/21] fix: let a derived struct have a type parameter named R

---
 scale-decode-derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 5a20ac8..5643275 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -315,10 +315,10 @@ fn generate_struct_impl(
             }
 
             impl #impl_generics #path_to_scale_decode::DecodeAsFields for #path_to_type #ty_generics #visitor_where_clause  {
-                fn decode_as_fields<'info, R: #path_to_scale_decode::TypeResolver>(
+                fn decode_as_fields<'info, #type_resolver_ident: #path_to_scale_decode::TypeResolver>(
                     input: &mut &[u8],
-                    fields: &mut dyn #path_to_scale_decode::FieldIter<'info, R::TypeId>,
-                    types: &'info R
+                    fields: &mut dyn #path_to_scale_decode::FieldIter<'info, #type_resolver_ident::TypeId>,
+                    types: &'info #type_resolver_ident
                 ) -> Result<Self, #path_to_scale_decode::Error>
                 {
                     let mut composite = #path_to_scale_decode::visitor::types::Composite::new(core::iter::empty(), input, fields, types, false);
-- 
2.43.0


From ac62e44f46b277f22d4ea15312f024baffdbb9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 13/21] fix: skip a field that is marked so more than once

---
 scale-decode-derive/src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 5643275..5861b40 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -347,10 +347,9 @@ fn named_field_keyvals<'f>(
     fields: &'f syn::FieldsNamed,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f, impl Iterator<Item = TokenStream2> + 'f) {
     let field_keyval_impls = fields.named.iter().map(move |f| {
-        let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
         let field_ident = f.ident.as_ref().expect("named field has ident");
         let field_name = field_ident.to_string();
-        let skip_field = field_attrs.skip;
+        let skip_field = is_skipped(&f.attrs);
 
         // If a field is skipped, we expect it to have a Default impl to use to populate it instead.
         if skip_field {
@@ -394,8 +393,7 @@ fn unnamed_field_vals<'f>(
     fields: &'f syn::FieldsUnnamed,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f) {
     let field_val_impls = fields.unnamed.iter().enumerate().map(|(idx, f)| {
-        let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
-        let skip_field = field_attrs.skip;
+        let skip_field = is_skipped(&f.attrs);
 
         // If a field is skipped, we expect it to have a Default impl to use to populate it instead.
         if skip_field {
@@ -420,6 +418,15 @@ fn unnamed_field_vals<'f>(
     (field_count, field_vals)
 }
 
+// Is this field to be skipped? Each attribute is looked at alone; more than one may say so.
+fn is_skipped(attrs: &[syn::Attribute]) -> bool {
+    attrs.iter().any(|attr| {
+        let field_attrs =
+            FieldAttrs::from_attributes(core::slice::from_ref(attr)).unwrap_or_default();
+        field_attrs.skip
+    })
+}
+
 fn handle_generics(attrs: &TopLevelAttrs, generics: syn::Generics) -> GenericTypes {
     let path_to_crate = &attrs.crate_path;
 
-- 
2.43.0


From c7ab346f3467feb04c503d5f4235a742c7babd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 14/21] fix: let derived code compile where Result, Ok, Option,
 vec and the like mean something else

---
 scale-decode-derive/src/lib.rs | 58 ++++++++++++++++------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 5861b40..2c11862 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -92,18 +92,18 @@ fn generate_enum_impl(
                     let fields = value.fields();
                     return if fields.has_unnamed_fields() {
                         if fields.remaining() != #field_count {
-                            return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
+                            return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
                                 actual_len: fields.remaining(),
                                 expected_len: #field_count
                             }));
                         }
                         let vals = fields;
-                        Ok(#path_to_type::#variant_ident { #(#field_tuple_keyvals),* })
+                        ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_tuple_keyvals),* })
                     } else {
-                        let vals: #path_to_scale_decode::BTreeMap<Option<&str>, _> = fields
+                        let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&str>, _> = fields
                             .map(|res| res.map(|item| (item.name(), item)))
-                            .collect::<Result<_, _>>()?;
-                        Ok(#path_to_type::#variant_ident { #(#field_composite_keyvals),* })
+                            .collect::<::core::result::Result<_, _>>()?;
+                        ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_composite_keyvals),* })
                     }
                 }
             },
@@ -116,18 +116,18 @@ fn generate_enum_impl(
                 quote!{
                     let fields = value.fields();
                     if fields.remaining() != #field_count {
-                        return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
                             actual_len: fields.remaining(),
                             expected_len: #field_count
                         }));
                     }
                     let vals = fields;
-                    return Ok(#path_to_type::#variant_ident ( #(#field_vals),* ))
+                    return ::core::result::Result::Ok(#path_to_type::#variant_ident ( #(#field_vals),* ))
                 }
             },
             syn::Fields::Unit => {
                 quote!{
-                    return Ok(#path_to_type::#variant_ident)
+                    return ::core::result::Result::Ok(#path_to_type::#variant_ident)
                 }
             },
         };
@@ -145,7 +145,6 @@ fn generate_enum_impl(
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
             );
 
-            use #path_to_scale_decode::vec;
             use #path_to_scale_decode::ToString;
 
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
@@ -164,13 +163,13 @@ fn generate_enum_impl(
                     self,
                     value: &mut #path_to_scale_decode::visitor::types::Variant<'scale, 'info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
                     #(
                         #variant_ifs
                     )*
-                    Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindVariant {
+                    ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindVariant {
                         got: value.name().to_string(),
-                        expected: vec![#(#variant_names),*]
+                        expected: #path_to_scale_decode::vec![#(#variant_names),*]
                     }))
                 }
                 // Allow an enum to be decoded through nested 1-field composites and tuples:
@@ -178,7 +177,7 @@ fn generate_enum_impl(
                     self,
                     value: &mut #path_to_scale_decode::visitor::types::Composite<'scale, 'info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
                     if value.remaining() != 1 {
                         return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Composite);
                     }
@@ -188,7 +187,7 @@ fn generate_enum_impl(
                     self,
                     value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale, 'info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
                     if value.remaining() != 1 {
                         return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Tuple);
                     }
@@ -230,19 +229,19 @@ fn generate_struct_impl(
                        return self.visit_tuple(&mut value.as_tuple(), type_id)
                     }
 
-                    let vals: #path_to_scale_decode::BTreeMap<Option<&str>, _> =
-                        value.map(|res| res.map(|item| (item.name(), item))).collect::<Result<_, _>>()?;
+                    let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&str>, _> =
+                        value.map(|res| res.map(|item| (item.name(), item))).collect::<::core::result::Result<_, _>>()?;
 
-                    Ok(#path_to_type { #(#field_composite_keyvals),* })
+                    ::core::result::Result::Ok(#path_to_type { #(#field_composite_keyvals),* })
                 },
                 quote! {
                     if value.remaining() != #field_count {
-                        return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
                     }
 
                     let vals = value;
 
-                    Ok(#path_to_type { #(#field_tuple_keyvals),* })
+                    ::core::result::Result::Ok(#path_to_type { #(#field_tuple_keyvals),* })
                 },
             )
         }
@@ -255,12 +254,12 @@ fn generate_struct_impl(
                 },
                 quote! {
                     if value.remaining() != #field_count {
-                        return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
                     }
 
                     let vals = value;
 
-                    Ok(#path_to_type ( #( #field_vals ),* ))
+                    ::core::result::Result::Ok(#path_to_type ( #( #field_vals ),* ))
                 },
             )
         }
@@ -270,9 +269,9 @@ fn generate_struct_impl(
             },
             quote! {
                 if value.remaining() > 0 {
-                    return Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: 0 }));
+                    return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: 0 }));
                 }
-                Ok(#path_to_type)
+                ::core::result::Result::Ok(#path_to_type)
             },
         ),
     };
@@ -283,7 +282,6 @@ fn generate_struct_impl(
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
             );
 
-            use #path_to_scale_decode::vec;
             use #path_to_scale_decode::ToString;
 
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
@@ -302,14 +300,14 @@ fn generate_struct_impl(
                     self,
                     value: &mut #path_to_scale_decode::visitor::types::Composite<'scale, 'info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
                     #visit_composite_body
                 }
                 fn visit_tuple<'scale, 'info>(
                     self,
                     value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale, 'info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
                     #visit_tuple_body
                 }
             }
@@ -319,11 +317,11 @@ fn generate_struct_impl(
                     input: &mut &[u8],
                     fields: &mut dyn #path_to_scale_decode::FieldIter<'info, #type_resolver_ident::TypeId>,
                     types: &'info #type_resolver_ident
-                ) -> Result<Self, #path_to_scale_decode::Error>
+                ) -> ::core::result::Result<Self, #path_to_scale_decode::Error>
                 {
-                    let mut composite = #path_to_scale_decode::visitor::types::Composite::new(core::iter::empty(), input, fields, types, false);
+                    let mut composite = #path_to_scale_decode::visitor::types::Composite::new(::core::iter::empty(), input, fields, types, false);
                     use #path_to_scale_decode::{ Visitor, IntoVisitor };
-                    let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, Default::default());
+                    let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, ::core::default::Default::default());
 
                     // Consume any remaining bytes and update input:
                     let skip_res = composite.skip_decoding();
@@ -334,7 +332,7 @@ fn generate_struct_impl(
                     // Prioritize returning visitor errors over skip_decoding errors.
                     let val = val?;
                     skip_res?;
-                    Ok(val)
+                    ::core::result::Result::Ok(val)
                 }
             }
         };
-- 
2.43.0


From 72db7c87082e62295234cd62aade91f93fda36e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 15/21] fix: let derived types be called Visitor

---
 scale-decode-derive/src/lib.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 2c11862..3ef98a1 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -141,20 +141,20 @@ fn generate_enum_impl(
 
     quote!(
         const _: () = {
-            #visibility struct Visitor #visitor_impl_generics (
+            #visibility struct ScaleDecodeVisitor #visitor_impl_generics (
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
             );
 
-            use #path_to_scale_decode::ToString;
+            use #path_to_scale_decode::ToString as _;
 
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
-                type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = Visitor #visitor_ty_generics;
+                type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = ScaleDecodeVisitor #visitor_ty_generics;
                 fn into_visitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver>() -> Self::AnyVisitor<#type_resolver_ident> {
-                    Visitor(::core::marker::PhantomData)
+                    ScaleDecodeVisitor(::core::marker::PhantomData)
                 }
             }
 
-            impl #visitor_impl_generics #path_to_scale_decode::Visitor for Visitor #visitor_ty_generics #visitor_where_clause {
+            impl #visitor_impl_generics #path_to_scale_decode::Visitor for ScaleDecodeVisitor #visitor_ty_generics #visitor_where_clause {
                 type Error = #path_to_scale_decode::Error;
                 type Value<'scale, 'info> = #path_to_type #ty_generics;
                 type TypeResolver = #type_resolver_ident;
@@ -278,20 +278,20 @@ fn generate_struct_impl(
 
     quote!(
         const _: () = {
-            #visibility struct Visitor #visitor_impl_generics (
+            #visibility struct ScaleDecodeVisitor #visitor_impl_generics (
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
             );
 
-            use #path_to_scale_decode::ToString;
+            use #path_to_scale_decode::ToString as _;
 
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
-                type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = Visitor #visitor_ty_generics;
+                type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = ScaleDecodeVisitor #visitor_ty_generics;
                 fn into_visitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver>() -> Self::AnyVisitor<#type_resolver_ident> {
-                    Visitor(::core::marker::PhantomData)
+                    ScaleDecodeVisitor(::core::marker::PhantomData)
                 }
             }
 
-            impl #visitor_impl_generics #path_to_scale_decode::Visitor for Visitor #visitor_ty_generics #visitor_where_clause {
+            impl #visitor_impl_generics #path_to_scale_decode::Visitor for ScaleDecodeVisitor #visitor_ty_generics #visitor_where_clause {
                 type Error = #path_to_scale_decode::Error;
                 type Value<'scale, 'info> = #path_to_type #ty_generics;
                 type TypeResolver = #type_resolver_ident;
@@ -320,7 +320,7 @@ fn generate_struct_impl(
                 ) -> ::core::result::Result<Self, #path_to_scale_decode::Error>
                 {
                     let mut composite = #path_to_scale_decode::visitor::types::Composite::new(::core::iter::empty(), input, fields, types, false);
-                    use #path_to_scale_decode::{ Visitor, IntoVisitor };
+                    use #path_to_scale_decode::{ Visitor as _, IntoVisitor as _ };
                     let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, ::core::default::Default::default());
 
                     // Consume any remaining bytes and update input:
-- 
2.43.0


From e7d92ef12891c011821de71d7222f0bcd9e79af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 16/21] fix: let derived types have lifetimes called 'scale and
 'info

---
 scale-decode-derive/src/lib.rs | 40 +++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 3ef98a1..7d81fda 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -156,14 +156,14 @@ fn generate_enum_impl(
 
             impl #visitor_impl_generics #path_to_scale_decode::Visitor for ScaleDecodeVisitor #visitor_ty_generics #visitor_where_clause {
                 type Error = #path_to_scale_decode::Error;
-                type Value<'scale, 'info> = #path_to_type #ty_generics;
+                type Value<'scale_decode_scale, 'scale_decode_info> = #path_to_type #ty_generics;
                 type TypeResolver = #type_resolver_ident;
 
-                fn visit_variant<'scale, 'info>(
+                fn visit_variant<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Variant<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Variant<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
                     #(
                         #variant_ifs
                     )*
@@ -173,21 +173,21 @@ fn generate_enum_impl(
                     }))
                 }
                 // Allow an enum to be decoded through nested 1-field composites and tuples:
-                fn visit_composite<'scale, 'info>(
+                fn visit_composite<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Composite<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Composite<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
                     if value.remaining() != 1 {
                         return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Composite);
                     }
                     value.decode_item(self).unwrap()
                 }
-                fn visit_tuple<'scale, 'info>(
+                fn visit_tuple<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
                     if value.remaining() != 1 {
                         return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Tuple);
                     }
@@ -293,30 +293,30 @@ fn generate_struct_impl(
 
             impl #visitor_impl_generics #path_to_scale_decode::Visitor for ScaleDecodeVisitor #visitor_ty_generics #visitor_where_clause {
                 type Error = #path_to_scale_decode::Error;
-                type Value<'scale, 'info> = #path_to_type #ty_generics;
+                type Value<'scale_decode_scale, 'scale_decode_info> = #path_to_type #ty_generics;
                 type TypeResolver = #type_resolver_ident;
 
-                fn visit_composite<'scale, 'info>(
+                fn visit_composite<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Composite<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Composite<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
                     #visit_composite_body
                 }
-                fn visit_tuple<'scale, 'info>(
+                fn visit_tuple<'scale_decode_scale, 'scale_decode_info>(
                     self,
-                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale, 'info, Self::TypeResolver>,
+                    value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
-                ) -> ::core::result::Result<Self::Value<'scale, 'info>, Self::Error> {
+                ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
                     #visit_tuple_body
                 }
             }
 
             impl #impl_generics #path_to_scale_decode::DecodeAsFields for #path_to_type #ty_generics #visitor_where_clause  {
-                fn decode_as_fields<'info, #type_resolver_ident: #path_to_scale_decode::TypeResolver>(
+                fn decode_as_fields<'scale_decode_info, #type_resolver_ident: #path_to_scale_decode::TypeResolver>(
                     input: &mut &[u8],
-                    fields: &mut dyn #path_to_scale_decode::FieldIter<'info, #type_resolver_ident::TypeId>,
-                    types: &'info #type_resolver_ident
+                    fields: &mut dyn #path_to_scale_decode::FieldIter<'scale_decode_info, #type_resolver_ident::TypeId>,
+                    types: &'scale_decode_info #type_resolver_ident
                 ) -> ::core::result::Result<Self, #path_to_scale_decode::Error>
                 {
                     let mut composite = #path_to_scale_decode::visitor::types::Composite::new(::core::iter::empty(), input, fields, types, false);
-- 
2.43.0


From 73e7148dcba859fef75660c2a5a031f28a7bba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 17/21] fix: let derived types have parameters that are not
 sized

---
 scale-decode-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 7d81fda..860bb0c 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -453,7 +453,8 @@ fn handle_generics(attrs: &TopLevelAttrs, generics: syn::Generics) -> GenericTyp
         let tys = generics.params.iter().filter_map::<syn::Type, _>(|p| match p {
             syn::GenericParam::Type(ty) => {
                 let ty = &ty.ident;
-                Some(syn::parse_quote!(#ty))
+                // Wrapped, because it need not be sized.
+                Some(syn::parse_quote!(::core::marker::PhantomData<#ty>))
             }
             syn::GenericParam::Lifetime(lt) => {
                 let lt = &lt.lifetime;
-- 
2.43.0


From 251b54d4cdccc93f399715eeded625eab56568f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 18/21] fix: keep trait_bounds when another decode_as_type
 attribute follows

---
 scale-decode-derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 860bb0c..51c4ff7 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -560,7 +560,9 @@ impl TopLevelAttrs {
             let meta = &attr.meta;
             let parsed_attrs = TopLevelAttrsInner::from_meta(meta)?;
 
-            res.trait_bounds = parsed_attrs.trait_bounds;
+            if let Some(trait_bounds) = parsed_attrs.trait_bounds {
+                res.trait_bounds = Some(trait_bounds);
+            }
             if let Some(crate_path) = parsed_attrs.crate_path {
                 res.crate_path = crate_path;
             }
-- 
2.43.0


From 3be6cb55ea0e2b1cc967d113a83bb655f7aa28fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:02 +0000
Subject: [PATCH 19/21] fix: let derived code compile where Some means
 something else

---
 scale-decode-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 51c4ff7..e833ecd 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -364,7 +364,7 @@ fn named_field_keyvals<'f>(
             // For turning named fields in scale typeinfo into named fields on struct like type:
             quote!(#field_ident: {
                 let val = vals
-                    .get(&Some(#field_name))
+                    .get(&::core::option::Option::Some(#field_name))
                     .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #field_name.to_string() }))?
                     .clone();
                 val.decode_as_type().map_err(|e| e.at_field(#field_name))?
-- 
2.43.0


From 111e7e1f8adeeeb41af88cce05e01e961638fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 20/21] fix: let derived code compile where str means something
 else

---
 scale-decode-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index e833ecd..ba2b73f 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -100,7 +100,7 @@ fn generate_enum_impl(
                         let vals = fields;
                         ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_tuple_keyvals),* })
                     } else {
-                        let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&str>, _> = fields
+                        let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> = fields
                             .map(|res| res.map(|item| (item.name(), item)))
                             .collect::<::core::result::Result<_, _>>()?;
                         ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_composite_keyvals),* })
@@ -229,7 +229,7 @@ fn generate_struct_impl(
                        return self.visit_tuple(&mut value.as_tuple(), type_id)
                     }
 
-                    let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&str>, _> =
+                    let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =
                         value.map(|res| res.map(|item| (item.name(), item))).collect::<::core::result::Result<_, _>>()?;
 
                     ::core::result::Result::Ok(#path_to_type { #(#field_composite_keyvals),* })
-- 
2.43.0


From 05e571ddcb569140d2607247f612463635dc16aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 21/21] fix: let derived code call what it means to, whatever
 traits are in scope

---
 scale-decode-derive/src/lib.rs | 83 +++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 42 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index ba2b73f..5456f99 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -74,6 +74,9 @@ fn generate_enum_impl(
     let visitor_phantomdata_type = generic_types.visitor_phantomdata_type();
     let type_resolver_ident = generic_types.type_resolver_ident();
 
+    // Traits in scope may give every type methods of any name. To be called regardless of them, methods that take
+    // `&self` are called on a reference, and those of traits by their full name.
+
     // determine what the body of our visitor functions will be based on the type of enum fields
     // that we're trying to generate output for.
     let variant_ifs = details.variants.iter().map(|variant| {
@@ -90,19 +93,19 @@ fn generate_enum_impl(
 
                 quote!{
                     let fields = value.fields();
-                    return if fields.has_unnamed_fields() {
-                        if fields.remaining() != #field_count {
+                    return if (&*fields).has_unnamed_fields() {
+                        if (&*fields).remaining() != #field_count {
                             return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
-                                actual_len: fields.remaining(),
+                                actual_len: (&*fields).remaining(),
                                 expected_len: #field_count
                             }));
                         }
                         let vals = fields;
                         ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_tuple_keyvals),* })
                     } else {
-                        let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> = fields
-                            .map(|res| res.map(|item| (item.name(), item)))
-                            .collect::<::core::result::Result<_, _>>()?;
+                        let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> = ::core::iter::Iterator::collect::<::core::result::Result<_, _>>(
+                            ::core::iter::Iterator::map(fields, |res| res.map(|item| ((&item).name(), item)))
+                        )?;
                         ::core::result::Result::Ok(#path_to_type::#variant_ident { #(#field_composite_keyvals),* })
                     }
                 }
@@ -115,9 +118,9 @@ fn generate_enum_impl(
 
                 quote!{
                     let fields = value.fields();
-                    if fields.remaining() != #field_count {
+                    if (&*fields).remaining() != #field_count {
                         return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength {
-                            actual_len: fields.remaining(),
+                            actual_len: (&*fields).remaining(),
                             expected_len: #field_count
                         }));
                     }
@@ -133,7 +136,7 @@ fn generate_enum_impl(
         };
 
         quote!{
-            if value.name() == #variant_name {
+            if (&*value).name() == #variant_name {
                 #visit_one_variant_body
             }
         }
@@ -145,8 +148,6 @@ fn generate_enum_impl(
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
             );
 
-            use #path_to_scale_decode::ToString as _;
-
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
                 type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = ScaleDecodeVisitor #visitor_ty_generics;
                 fn into_visitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver>() -> Self::AnyVisitor<#type_resolver_ident> {
@@ -168,7 +169,7 @@ fn generate_enum_impl(
                         #variant_ifs
                     )*
                     ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindVariant {
-                        got: value.name().to_string(),
+                        got: #path_to_scale_decode::ToString::to_string((&*value).name()),
                         expected: #path_to_scale_decode::vec![#(#variant_names),*]
                     }))
                 }
@@ -178,8 +179,8 @@ fn generate_enum_impl(
                     value: &mut #path_to_scale_decode::visitor::types::Composite<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
                 ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
-                    if value.remaining() != 1 {
-                        return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Composite);
+                    if (&*value).remaining() != 1 {
+                        return #path_to_scale_decode::Visitor::visit_unexpected(self, #path_to_scale_decode::visitor::Unexpected::Composite);
                     }
                     value.decode_item(self).unwrap()
                 }
@@ -188,8 +189,8 @@ fn generate_enum_impl(
                     value: &mut #path_to_scale_decode::visitor::types::Tuple<'scale_decode_scale, 'scale_decode_info, Self::TypeResolver>,
                     _type_id: <Self::TypeResolver as #path_to_scale_decode::TypeResolver>::TypeId,
                 ) -> ::core::result::Result<Self::Value<'scale_decode_scale, 'scale_decode_info>, Self::Error> {
-                    if value.remaining() != 1 {
-                        return self.visit_unexpected(#path_to_scale_decode::visitor::Unexpected::Tuple);
+                    if (&*value).remaining() != 1 {
+                        return #path_to_scale_decode::Visitor::visit_unexpected(self, #path_to_scale_decode::visitor::Unexpected::Tuple);
                     }
                     value.decode_item(self).unwrap()
                 }
@@ -225,18 +226,19 @@ fn generate_struct_impl(
 
             (
                 quote! {
-                    if value.has_unnamed_fields() {
-                       return self.visit_tuple(&mut value.as_tuple(), type_id)
+                    if (&*value).has_unnamed_fields() {
+                       return #path_to_scale_decode::Visitor::visit_tuple(self, &mut (&*value).as_tuple(), type_id)
                     }
 
-                    let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> =
-                        value.map(|res| res.map(|item| (item.name(), item))).collect::<::core::result::Result<_, _>>()?;
+                    let vals: #path_to_scale_decode::BTreeMap<::core::option::Option<&::core::primitive::str>, _> = ::core::iter::Iterator::collect::<::core::result::Result<_, _>>(
+                        ::core::iter::Iterator::map(value, |res| res.map(|item| ((&item).name(), item)))
+                    )?;
 
                     ::core::result::Result::Ok(#path_to_type { #(#field_composite_keyvals),* })
                 },
                 quote! {
-                    if value.remaining() != #field_count {
-                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
+                    if (&*value).remaining() != #field_count {
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: (&*value).remaining(), expected_len: #field_count }));
                     }
 
                     let vals = value;
@@ -250,11 +252,11 @@ fn generate_struct_impl(
 
             (
                 quote! {
-                    self.visit_tuple(&mut value.as_tuple(), type_id)
+                    #path_to_scale_decode::Visitor::visit_tuple(self, &mut (&*value).as_tuple(), type_id)
                 },
                 quote! {
-                    if value.remaining() != #field_count {
-                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: #field_count }));
+                    if (&*value).remaining() != #field_count {
+                        return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: (&*value).remaining(), expected_len: #field_count }));
                     }
 
                     let vals = value;
@@ -265,11 +267,11 @@ fn generate_struct_impl(
         }
         syn::Fields::Unit => (
             quote! {
-                self.visit_tuple(&mut value.as_tuple(), type_id)
+                #path_to_scale_decode::Visitor::visit_tuple(self, &mut (&*value).as_tuple(), type_id)
             },
             quote! {
-                if value.remaining() > 0 {
-                    return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: value.remaining(), expected_len: 0 }));
+                if (&*value).remaining() > 0 {
+                    return ::core::result::Result::Err(#path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::WrongLength { actual_len: (&*value).remaining(), expected_len: 0 }));
                 }
                 ::core::result::Result::Ok(#path_to_type)
             },
@@ -282,8 +284,6 @@ fn generate_struct_impl(
                 ::core::marker::PhantomData<#visitor_phantomdata_type>
             );
 
-            use #path_to_scale_decode::ToString as _;
-
             impl #impl_generics #path_to_scale_decode::IntoVisitor for #path_to_type #ty_generics #visitor_where_clause {
                 type AnyVisitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver> = ScaleDecodeVisitor #visitor_ty_generics;
                 fn into_visitor<#type_resolver_ident: #path_to_scale_decode::TypeResolver>() -> Self::AnyVisitor<#type_resolver_ident> {
@@ -320,13 +320,13 @@ fn generate_struct_impl(
                 ) -> ::core::result::Result<Self, #path_to_scale_decode::Error>
                 {
                     let mut composite = #path_to_scale_decode::visitor::types::Composite::new(::core::iter::empty(), input, fields, types, false);
-                    use #path_to_scale_decode::{ Visitor as _, IntoVisitor as _ };
-                    let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, ::core::default::Default::default());
+                    let visitor = <#path_to_type #ty_generics as #path_to_scale_decode::IntoVisitor>::into_visitor();
+                    let val = #path_to_scale_decode::Visitor::visit_composite(visitor, &mut composite, ::core::default::Default::default());
 
                     // Consume any remaining bytes and update input:
-                    let skip_res = composite.skip_decoding();
-                    if skip_res.is_ok() {
-                        *input = composite.bytes_from_undecoded();
+                    let skip_res = (&mut composite).skip_decoding();
+                    if (&skip_res).is_ok() {
+                        *input = (&composite).bytes_from_undecoded();
                     }
 
                     // Prioritize returning visitor errors over skip_decoding errors.
@@ -363,16 +363,15 @@ fn named_field_keyvals<'f>(
             true,
             // For turning named fields in scale typeinfo into named fields on struct like type:
             quote!(#field_ident: {
-                let val = vals
+                let val = (&vals)
                     .get(&::core::option::Option::Some(#field_name))
-                    .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #field_name.to_string() }))?
-                    .clone();
+                    .ok_or_else(|| #path_to_scale_decode::Error::new(#path_to_scale_decode::error::ErrorKind::CannotFindField { name: #path_to_scale_decode::ToString::to_string(#field_name) }))?;
                 val.decode_as_type().map_err(|e| e.at_field(#field_name))?
             }),
             // For turning named fields in scale typeinfo into unnamed fields on tuple like type:
             quote!(#field_ident: {
-                let val = vals.next().expect("field count should have been checked already on tuple type; please file a bug report")?;
-                val.decode_as_type().map_err(|e| e.at_field(#field_name))?
+                let val = ::core::iter::Iterator::next(vals).expect("field count should have been checked already on tuple type; please file a bug report")?;
+                (&val).decode_as_type().map_err(|e| e.at_field(#field_name))?
             })
         )
     });
@@ -403,8 +402,8 @@ fn unnamed_field_vals<'f>(
             true,
             // For turning unnamed fields in scale typeinfo into unnamed fields on tuple like type:
             quote!({
-                let val = vals.next().expect("field count should have been checked already on tuple type; please file a bug report")?;
-                val.decode_as_type().map_err(|e| e.at_idx(#idx))?
+                let val = ::core::iter::Iterator::next(vals).expect("field count should have been checked already on tuple type; please file a bug report")?;
+                (&val).decode_as_type().map_err(|e| e.at_idx(#idx))?
             }),
         )
     });
-- 
2.43.0

