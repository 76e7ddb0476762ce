From ab449dcd134eb3df05a2d29f4b43b1fef945e731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 01/19] fix: decode I256 values as signed, not as U256

---
 src/scale_impls/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index fa3d533..f9102c7 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -287,7 +287,7 @@ where
         type_id: R::TypeId,
     ) -> Result<Self::Value<'_, 'info>, Self::Error> {
         Ok(Value {
-            value: ValueDef::Primitive(Primitive::U256(*value)),
+            value: ValueDef::Primitive(Primitive::I256(*value)),
             context: F::context_from_type_id(&type_id),
         })
     }
-- 
2.43.0


From 022fc60ea53b40485c14d5dd072422e7cc639d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 02/19] fix: wind forward by bytes, not chars, after a custom
 parser accepts

---
 src/string_impls/from_string.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 77f89e6..acb5b0c 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -236,9 +236,8 @@ fn parse_value(
                         // Wind our StrTokens forward to take into account anything that
                         // was consumed. We do this rather than replacing it because we want
                         // to preserve the full string and offsets.
-                        for _ in cursor.len()..s.len() {
-                            t.next();
-                        }
+                        let end_offset = start_offset + s.len().saturating_sub(cursor.len());
+                        while t.offset() < end_offset && t.next().is_some() {}
                         return Ok(value);
                     }
                     Err(e) => {
-- 
2.43.0


From d6d589a60c39ed47c6fd3b32c3d4ffb41ec116e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 03/19] fix: quote variant names which would otherwise be
 parsed as a bool

---
 src/string_impls/to_string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/string_impls/to_string.rs b/src/string_impls/to_string.rs
index 060afba..a0ed82a 100644
--- a/src/string_impls/to_string.rs
+++ b/src/string_impls/to_string.rs
@@ -431,7 +431,7 @@ fn fmt_variant<T, W: core::fmt::Write>(
     v: &Variant<T>,
     f: &mut Formatter<T, W>,
 ) -> core::fmt::Result {
-    if is_ident(&v.name) {
+    if is_ident(&v.name) && !starts_with_bool(&v.name) {
         f.write_str(&v.name)?;
     } else {
         // If the variant name isn't a valid ident, we parse it into
@@ -556,6 +556,11 @@ fn fmt_bitsequence<T, W: core::fmt::Write>(
     f.write_char('>')
 }
 
+/// Would the start of this string be parsed into a bool (as per from_string::parse_bool)?
+fn starts_with_bool(s: &str) -> bool {
+    s.starts_with("true") || s.starts_with("false")
+}
+
 /// Is the string provided a valid ident (as per from_string::parse_ident).
 fn is_ident(s: &str) -> bool {
     let mut chars = s.chars();
-- 
2.43.0


From 29f2bc3f76f14f6dd24313b1a21a16382bbaa475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 04/19] fix: do not allocate space for more items than there
 are bytes to decode

---
 src/scale_impls/decode.rs                  | 5 ++++-
 src/scale_impls/tracing_decoder/visitor.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index f9102c7..ceb1763 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -75,7 +75,10 @@ where
 // Sequences, Tuples and Arrays all have the same methods, so decode them in the same way:
 macro_rules! to_unnamed_composite {
     ($value:ident, $type_id:ident) => {{
-        let mut vals = Vec::with_capacity($value.remaining());
+        // Don't trust the number of items claimed to exist; allocate no more
+        // space up front than there are bytes left to decode items from.
+        let capacity = $value.remaining().min($value.bytes_from_undecoded().len());
+        let mut vals = Vec::with_capacity(capacity);
         while let Some(val) = $value.decode_item(DecodeValueVisitor::<R, F>::new()) {
             let val = val?;
             vals.push(val);
diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index e80e229..ee0aaf3 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -69,7 +69,10 @@ macro_rules! to_unnamed_composite {
                 return Err(err);
             }
 
-            let mut vals = Vec::with_capacity($value.remaining());
+            // Don't trust the number of items claimed to exist; allocate no more
+            // space up front than there are bytes left to decode items from.
+            let capacity = $value.remaining().min($value.bytes_from_undecoded().len());
+            let mut vals = Vec::with_capacity(capacity);
             while let Some(val) = $value.decode_item($self.at_idx(idx)) {
                 match val {
                     Err(e) => {
-- 
2.43.0


From 2e2e24af3850c1d4c7e84b60476ad7889066a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 05/19] fix: include the variant in the path of tracing errors
 in its fields

---
 src/scale_impls/tracing_decoder/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index ee0aaf3..12c9d57 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -286,7 +286,7 @@ where
     ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
         let variant_name = value.name();
         let path = self.path.at_variant(variant_name.to_owned());
-        let values = visit_composite(&self, value.fields());
+        let values = visit_composite(&self.at_path(path.clone()), value.fields());
         match values {
             Err(e) => {
                 let merged_error = e.with_outer_context(
-- 
2.43.0


From 9059c33e70ae5339bc1a42c38e14ec10d941ae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 06/19] fix: serialize newtype structs to the value that they
 deserialize from

---
 src/serde_impls/serializer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_impls/serializer.rs b/src/serde_impls/serializer.rs
index 6bbdfbd..2b5d71a 100644
--- a/src/serde_impls/serializer.rs
+++ b/src/serde_impls/serializer.rs
@@ -143,8 +143,8 @@ impl Serializer for ValueSerializer {
     where
         T: serde::Serialize + ?Sized,
     {
-        let inner = value.serialize(ValueSerializer)?;
-        Ok(Value::unnamed_composite(vec![inner]))
+        // Newtype structs are deserialized from the value they wrap, so serialize to it too.
+        value.serialize(ValueSerializer)
     }
 
     fn serialize_newtype_variant<T>(
-- 
2.43.0


From 70b6d11ffb6ce74b0ccd24bd61f6442b65b83ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 07/19] fix: deserialize newtype variants from variants with
 one unnamed field

---
 src/serde_impls/deserialize.rs  | 6 +++---
 src/serde_impls/deserializer.rs | 9 ++++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/serde_impls/deserialize.rs b/src/serde_impls/deserialize.rs
index d6ad924..cf39324 100644
--- a/src/serde_impls/deserialize.rs
+++ b/src/serde_impls/deserialize.rs
@@ -227,9 +227,9 @@ impl<'de> Visitor<'de> for VariantVisitor {
             use serde::de::VariantAccess;
             // We have to ask for a particular enum type, but we don't know what type
             // of enum to expect (we support anything!). So, we just call the visitor method
-            // that doesn't require any extra fields, and we know that this will just give back
-            // whatever it can based on our impl (who knows about other impls though).
-            let values = variant_access.newtype_variant()?;
+            // for which our impl gives back all of the fields, named or not, without needing
+            // to know anything about them (who knows about other impls though).
+            let values = variant_access.struct_variant(&[], CompositeVisitor)?;
             Ok(Variant { name, values })
         })
     }
diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index d25c600..ebf5e57 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -570,7 +570,14 @@ impl<'de, T> VariantAccess<'de> for Composite<T> {
     where
         S: de::DeserializeSeed<'de>,
     {
-        seed.deserialize(self)
+        match self {
+            // Exactly one unnamed field is what a newtype variant is serialized to:
+            Composite::Unnamed(mut values) if values.len() == 1 => {
+                seed.deserialize(values.pop().expect("length checked"))
+            }
+            // Otherwise the fields stand in for the single thing in the variant.
+            composite => seed.deserialize(composite),
+        }
     }
 
     fn tuple_variant<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From a51d21cc639468f44dabbcb70fe94108025f6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 08/19] fix: encode chars and 256 bit numbers to the types they
 are decoded from

---
 src/scale_impls/encode.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 5dcebee..c0c4035 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -23,6 +23,7 @@ use scale_encode::{error::Kind, EncodeAsFields, EncodeAsType, Error};
 use scale_encode::{
     Composite as EncodeComposite, CompositeField, FieldIter, Variant as EncodeVariant,
 };
+use scale_type_resolver::Primitive as TypePrimitive;
 
 impl<T> EncodeAsType for Value<T> {
     fn encode_as_type_to<R: TypeResolver>(
@@ -349,6 +350,23 @@ fn encode_primitive<R: TypeResolver>(
     types: &R,
     bytes: &mut Vec<u8>,
 ) -> Result<(), Error> {
+    // These can only be encoded to other types by `scale_encode`, so handle
+    // encoding them to the type that they actually represent here.
+    let (inner_type_id, _) = find_single_entry_with_same_repr::<R>(type_id.clone(), types);
+    let visitor = scale_type_resolver::visitor::new((), |_, _| None).visit_primitive(|_, p| Some(p));
+    match (value, types.resolve_type(inner_type_id, visitor).ok().flatten()) {
+        (Primitive::Char(val), Some(TypePrimitive::Char)) => {
+            u32::from(*val).encode_to(bytes);
+            return Ok(());
+        }
+        (Primitive::U256(val), Some(TypePrimitive::U256))
+        | (Primitive::I256(val), Some(TypePrimitive::I256)) => {
+            bytes.extend_from_slice(val);
+            return Ok(());
+        }
+        _ => {}
+    }
+
     match value {
         Primitive::Bool(val) => val.encode_as_type_to(type_id, types, bytes),
         Primitive::Char(val) => val.encode_as_type_to(type_id, types, bytes),
-- 
2.43.0


From 269f081ccb00e744b0a33b6a554e674177b0c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 09/19] fix: display tracing errors when a 256 bit number was
 decoded

---
 src/scale_impls/tracing_decoder/error.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/error.rs b/src/scale_impls/tracing_decoder/error.rs
index a7f784f..7349713 100644
--- a/src/scale_impls/tracing_decoder/error.rs
+++ b/src/scale_impls/tracing_decoder/error.rs
@@ -17,7 +17,7 @@ use super::path::Path;
 use crate::prelude::*;
 use crate::scale::DecodeError;
 use crate::string_impls::format_hex;
-use crate::Value;
+use crate::{Primitive, Value, ValueDef};
 use core::fmt::Write;
 
 /// An error encountered when decoding some bytes using the [`crate::scale::tracing`] module.
@@ -133,5 +133,17 @@ fn display_value_with_typeid<Id: core::fmt::Debug>(
             write!(writer, "{type_id:?}")
         })
         .add_custom_formatter(|value, writer| format_hex(value, writer))
+        .add_custom_formatter(|value, writer| format_256_bit_number(value, writer))
         .write(value, f)
 }
+
+/// 256 bit numbers have no standard format and lead to an error if we try to write one,
+/// so write out the bytes as hex, as we would for a composite of those bytes.
+fn format_256_bit_number<T, W: Write>(value: &Value<T>, writer: W) -> Option<core::fmt::Result> {
+    match &value.value {
+        ValueDef::Primitive(Primitive::U256(bytes) | Primitive::I256(bytes)) => {
+            format_hex(&Value::from_bytes(bytes), writer)
+        }
+        _ => None,
+    }
+}
-- 
2.43.0


From a95c51b080f5b89db6e56524c46148065345bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 10/19] fix: encode single values to the field that they line
 up with

Encoding a composite of one value against a type with several newtype
wrappers around a sequence skipped all of the wrappers in the type but
only one in the value, so ((())) as a newtype of a newtype of a
Vec<Vec<T>> was encoded as a Vec holding an empty Vec, and not as an
empty Vec.
---
 src/scale_impls/encode.rs | 60 +++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index c0c4035..5c3f75c 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -23,7 +23,7 @@ use scale_encode::{error::Kind, EncodeAsFields, EncodeAsType, Error};
 use scale_encode::{
     Composite as EncodeComposite, CompositeField, FieldIter, Variant as EncodeVariant,
 };
-use scale_type_resolver::Primitive as TypePrimitive;
+use scale_type_resolver::{Field, Primitive as TypePrimitive};
 
 impl<T> EncodeAsType for Value<T> {
     fn encode_as_type_to<R: TypeResolver>(
@@ -97,21 +97,28 @@ fn encode_composite<T, R: TypeResolver>(
         // context to hand to visitor functions:
         let ctx = (type_id.clone(), out);
 
-        let visit_composite_or_tuple =
-            |(type_id, out): (R::TypeId, &mut Vec<u8>)| -> Result<(), Error> {
-                match value {
-                    Composite::Named(vals) => {
-                        let keyvals =
-                            vals.iter().map(|(key, val)| (Some(&**key), CompositeField::new(val)));
-                        EncodeComposite::new(keyvals)
-                            .encode_composite_as_type_to(type_id, types, out)
-                    }
-                    Composite::Unnamed(vals) => {
-                        let vals = vals.iter().map(|val| (None, CompositeField::new(val)));
-                        EncodeComposite::new(vals).encode_composite_as_type_to(type_id, types, out)
-                    }
+        let visit_composite_or_tuple = |(type_id, out): (R::TypeId, &mut Vec<u8>),
+                                        fields: &mut dyn FieldIter<'_, R::TypeId>|
+         -> Result<(), Error> {
+            // The helper below can skip past several newtype wrappers in the type while only skipping
+            // past one in the value, so encode one value to exactly the field it lines up with, unless
+            // it has a name which could line up with one further inside the type.
+            let is_named = matches!(value, Composite::Named(_));
+            if value.len() == 1 && !(is_named && has_named_fields(type_id.clone(), types)) {
+                return value.encode_as_fields_to(fields, types, out);
+            }
+            match value {
+                Composite::Named(vals) => {
+                    let keyvals =
+                        vals.iter().map(|(key, val)| (Some(&**key), CompositeField::new(val)));
+                    EncodeComposite::new(keyvals).encode_composite_as_type_to(type_id, types, out)
+                }
+                Composite::Unnamed(vals) => {
+                    let vals = vals.iter().map(|val| (None, CompositeField::new(val)));
+                    EncodeComposite::new(vals).encode_composite_as_type_to(type_id, types, out)
                 }
-            };
+            }
+        };
 
         let visitor = scale_type_resolver::visitor::new::<
             '_,
@@ -131,8 +138,8 @@ fn encode_composite<T, R: TypeResolver>(
                 })),
             }
         })
-        .visit_composite(|ctx, _, _| visit_composite_or_tuple(ctx))
-        .visit_tuple(|ctx, _| visit_composite_or_tuple(ctx))
+        .visit_composite(|ctx, _, mut fields| visit_composite_or_tuple(ctx, &mut fields))
+        .visit_tuple(|ctx, ids| visit_composite_or_tuple(ctx, &mut ids.map(Field::unnamed)))
         .visit_sequence(|(_, out), _path, type_id| {
             // sequences start with compact encoded length:
             Compact(value.len() as u32).encode_to(out);
@@ -270,6 +277,22 @@ fn find_single_entry_with_same_repr<R: TypeResolver>(
     do_find(type_id, types, false)
 }
 
+/// Is the target type, ignoring any unnamed newtype wrappers, a composite type with named fields?
+fn has_named_fields<R: TypeResolver>(type_id: R::TypeId, types: &R) -> bool {
+    let visitor = scale_type_resolver::visitor::new((), |_, _| false)
+        .visit_tuple(|_, fields| match (fields.next(), fields.next()) {
+            (Some(ty), None) => has_named_fields(ty, types),
+            _ => false,
+        })
+        .visit_composite(|_, _, fields| match (fields.next(), fields.next()) {
+            (Some(field), None) => field.name.is_some() || has_named_fields(field.id, types),
+            (first, second) => {
+                first.into_iter().chain(second).chain(fields).any(|f| f.name.is_some())
+            }
+        });
+    types.resolve_type(type_id, visitor).unwrap_or(false)
+}
+
 // if the composite type has exactly one value, return that Value, else return None.
 fn get_only_value_from_composite<T>(value: &'_ Composite<T>) -> Option<&'_ Value<T>> {
     let mut values = value.values();
@@ -353,7 +376,8 @@ fn encode_primitive<R: TypeResolver>(
     // These can only be encoded to other types by `scale_encode`, so handle
     // encoding them to the type that they actually represent here.
     let (inner_type_id, _) = find_single_entry_with_same_repr::<R>(type_id.clone(), types);
-    let visitor = scale_type_resolver::visitor::new((), |_, _| None).visit_primitive(|_, p| Some(p));
+    let visitor =
+        scale_type_resolver::visitor::new((), |_, _| None).visit_primitive(|_, p| Some(p));
     match (value, types.resolve_type(inner_type_id, visitor).ok().flatten()) {
         (Primitive::Char(val), Some(TypePrimitive::Char)) => {
             u32::from(*val).encode_to(bytes);
-- 
2.43.0


From 34d0d1c34db69e6b9f5046e15cef43e2152d7061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 11/19] fix: convert Some and None variants into options inside
 newtype structs

---
 src/serde_impls/deserializer.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index ebf5e57..a18fe82 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -376,20 +376,10 @@ impl<'de, T> Deserializer<'de> for ValueDef<T> {
     where
         V: de::Visitor<'de>,
     {
-        // Special handling to turn a variant value of "Some" or "None" into an option.
-        if let ValueDef::Variant(Variant { name, values: Composite::Unnamed(mut vs) }) = self {
-            if name == "Some" && vs.len() == 1 {
-                visitor.visit_some(vs.pop().expect("length checked"))
-            } else if name == "None" && vs.is_empty() {
-                visitor.visit_none()
-            } else {
-                // Reconstruct the variant and try to deserialize without the option hint:
-                ValueDef::Variant(Variant { name, values: Composite::Unnamed(vs) })
-                    .deserialize_any(visitor)
-            }
-        } else {
+        match self {
+            ValueDef::Variant(variant) => variant.deserialize_option(visitor),
             // fall back to deserializing based on the value type if it doesn't look like an Option:
-            self.deserialize_any(visitor)
+            other => other.deserialize_any(visitor),
         }
     }
 
@@ -632,6 +622,21 @@ impl<'de, T> Deserializer<'de> for Variant<T> {
         visitor.visit_seq(de::value::SeqDeserializer::new(Some(self).into_iter()))
     }
 
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        // Special handling to turn a variant value of "Some" or "None" into an option.
+        match self.values {
+            Composite::Unnamed(mut vs) if self.name == "Some" && vs.len() == 1 => {
+                visitor.visit_some(vs.pop().expect("length checked"))
+            }
+            Composite::Unnamed(vs) if self.name == "None" && vs.is_empty() => visitor.visit_none(),
+            // Try to deserialize without the option hint:
+            values => Variant { name: self.name, values }.deserialize_any(visitor),
+        }
+    }
+
     // All of the below functions delegate to the Composite deserializing methods using the enum values.
 
     fn deserialize_tuple<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
@@ -699,7 +704,7 @@ impl<'de, T> Deserializer<'de> for Variant<T> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option identifier ignored_any
+        bytes byte_buf identifier ignored_any
     }
 }
 
-- 
2.43.0


From c2d66f346a11042ea70ae2b874eac13a3e5cf71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 12/19] fix: allow bit sequences to be converted into newtype
 structs

---
 src/serde_impls/deserializer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index a18fe82..c4c8a13 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -253,8 +253,8 @@ impl<'de, T> Deserializer<'de> for ValueDef<T> {
         V: de::Visitor<'de>,
     {
         delegate_except_bitseq! { deserialize_newtype_struct(self, name, visitor),
-            _ => {
-                Err(DeserializerError::from_str("Cannot deserialize BitSequence into a newtype struct"))
+            seq => {
+                visitor.visit_newtype_struct(ValueDef::<T>::BitSequence(seq))
             }
         }
     }
-- 
2.43.0


From d81890e9954180cb6953cd9965dc568c571776d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:23 +0000
Subject: [PATCH 13/19] fix: do not reserve memory for as many entries as serde
 input claims to have

The size hint of a sequence or map can come straight from the input, so
a few bytes of a length-prefixed format could make deserializing a Value
panic (capacity overflow) or abort (out of memory).
---
 src/serde_impls/bitvec_helpers.rs |  3 ++-
 src/serde_impls/deserialize.rs    | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/serde_impls/bitvec_helpers.rs b/src/serde_impls/bitvec_helpers.rs
index f3bec60..e45a7f5 100644
--- a/src/serde_impls/bitvec_helpers.rs
+++ b/src/serde_impls/bitvec_helpers.rs
@@ -22,6 +22,7 @@
 //! it's up to the visitor to do its best to accept what it's handed, or reject it if it's simply
 //! not going to work out.
 
+use super::deserialize::cautious_capacity;
 use super::deserializer::DeserializerError;
 use crate::prelude::*;
 use crate::{BitSequence, Composite, ValueDef};
@@ -88,7 +89,7 @@ impl<'de> Visitor<'de> for MapOrBitSeqVisitor {
         }
 
         // That didn't work, so decode the first value as a Value<()> instead:
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(cautious_capacity(map.size_hint()));
         values.push((first_key, map.next_value()?));
 
         // .. and then decode all of the other key-value pairs and add them too:
diff --git a/src/serde_impls/deserialize.rs b/src/serde_impls/deserialize.rs
index cf39324..feffe70 100644
--- a/src/serde_impls/deserialize.rs
+++ b/src/serde_impls/deserialize.rs
@@ -83,6 +83,13 @@ impl<'de> Deserialize<'de> for Variant<()> {
     }
 }
 
+/// The capacity to reserve up front for a collection that claims to have some number of entries.
+/// The claim can come straight from untrusted input, so don't reserve more than a little.
+pub(super) fn cautious_capacity(size_hint: Option<usize>) -> usize {
+    const MAX_RESERVED_ENTRIES: usize = 1024;
+    size_hint.unwrap_or(0).min(MAX_RESERVED_ENTRIES)
+}
+
 struct PrimitiveVisitor;
 
 macro_rules! visit_prim {
@@ -191,7 +198,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut values = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(cautious_capacity(seq.size_hint()));
         while let Some(value) = seq.next_element()? {
             values.push(value);
         }
@@ -202,7 +209,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::MapAccess<'de>,
     {
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(cautious_capacity(map.size_hint()));
         while let Some(key_val) = map.next_entry()? {
             values.push(key_val);
         }
-- 
2.43.0


From fc61f9896dc385a1e6c0720c396745d57c86eda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 14/19] fix: do not take exponential time to fail to encode
 nested composites

Encoding a composite of one value to a primitive, compact or variant type
encoded the inner value twice if that failed, and so did each composite
inside it: 40 brackets around a string took days to be refused as a u8.
---
 src/scale_impls/encode.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 5c3f75c..6e55aa6 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -220,8 +220,11 @@ fn encode_composite<T, R: TypeResolver>(
     // ie contains just one value) to see if, after doing so, the thing can be successfully
     // encoded. The inner `.encode_as_type_to` will loop around and peel off another layer
     // etc if no luck. Ultimately we'll just return the original error below if this all
-    // fails.
-    if let Some(value) = get_only_value_from_composite(value) {
+    // fails. If the type isn't composite-like then `do_encode_composite` has already peeled off
+    // a layer, so doing it again here would only double the work for each layer in the value.
+    if let Some(value) =
+        get_only_value_from_composite(value).filter(|_| is_composite_like(type_id.clone(), types))
+    {
         let mut temp_out = Vec::new();
         if let Ok(()) = value.encode_as_type_to(type_id.clone(), types, &mut temp_out) {
             out.extend_from_slice(&temp_out);
@@ -293,6 +296,17 @@ fn has_named_fields<R: TypeResolver>(type_id: R::TypeId, types: &R) -> bool {
     types.resolve_type(type_id, visitor).unwrap_or(false)
 }
 
+/// Can the values in a composite be encoded one by one to parts of the target type?
+fn is_composite_like<R: TypeResolver>(type_id: R::TypeId, types: &R) -> bool {
+    let visitor = scale_type_resolver::visitor::new((), |_, _| false)
+        .visit_composite(|_, _, _| true)
+        .visit_tuple(|_, _| true)
+        .visit_sequence(|_, _, _| true)
+        .visit_array(|_, _, _| true)
+        .visit_bit_sequence(|_, _, _| true);
+    types.resolve_type(type_id, visitor).unwrap_or(false)
+}
+
 // if the composite type has exactly one value, return that Value, else return None.
 fn get_only_value_from_composite<T>(value: &'_ Composite<T>) -> Option<&'_ Value<T>> {
     let mut values = value.values();
-- 
2.43.0


From bc236591ca455eb22607aa8b94c66d7a18377054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 15/19] fix: do not take the beginning of a variant name for an
 ss58 address

---
 src/string_impls/custom_parsers/ss58.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/string_impls/custom_parsers/ss58.rs b/src/string_impls/custom_parsers/ss58.rs
index b373604..1c5bbee 100644
--- a/src/string_impls/custom_parsers/ss58.rs
+++ b/src/string_impls/custom_parsers/ss58.rs
@@ -52,8 +52,10 @@ fn parse_ss58_bytes(s: &mut &str) -> Option<Vec<u8>> {
 
     // If what we are parsing is a variant ident, a `{` or `(` will follow
     // (eg `Foo { hi: 1 }` or `Foo (1)`). In this case, don't try to parse
-    // as an ss58 address, since it would definitely be wrong to do so.
-    if rest.trim_start().starts_with(['(', '{']) {
+    // as an ss58 address, since it would definitely be wrong to do so. Idents
+    // may go on with chars that ss58 addresses do not contain (eg `Foo_bar (1)`).
+    let after_ident = rest.trim_start_matches(|c: char| c.is_alphanumeric() || c == '_');
+    if after_ident.trim_start().starts_with(['(', '{']) {
         return None;
     }
 
-- 
2.43.0


From 2ffa4838821c8ce3b5a3d7c095d814e4a3480b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 16/19] fix: hand 64 bit numbers to serde so that its buffering
 of content can hold them

---
 src/serde_impls/deserializer.rs | 36 +++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index c4c8a13..b7cecbf 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -754,6 +754,23 @@ macro_rules! deserialize_number {
     };
 }
 
+// Visitors that want these may take a 64 bit number for one (rounding it to a float, say, or using
+// it as the index of a field), so hand over numbers as they are, which such visitors refuse.
+macro_rules! deserialize_non_number {
+    ($name:ident) => {
+        fn $name<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+        where
+            V: de::Visitor<'de>,
+        {
+            match self {
+                Primitive::U128(n) => visitor.visit_u128(n),
+                Primitive::I128(n) => visitor.visit_i128(n),
+                _ => self.deserialize_any(visitor),
+            }
+        }
+    };
+}
+
 impl<'de> Deserializer<'de> for Primitive {
     type Error = DeserializerError;
 
@@ -765,9 +782,17 @@ impl<'de> Deserializer<'de> for Primitive {
             Primitive::Bool(v) => visitor.visit_bool(v),
             Primitive::Char(v) => visitor.visit_char(v),
             Primitive::String(v) => visitor.visit_string(v),
-            Primitive::U128(v) => visitor.visit_u128(v),
+            // Hand over 64 bit numbers where possible; serde's own buffering of content (which is
+            // used for untagged and internally tagged enums and flattened structs) can't hold others.
+            Primitive::U128(v) => match v.try_into() {
+                Ok(v) => visitor.visit_u64(v),
+                Err(_) => visitor.visit_u128(v),
+            },
             Primitive::U256(v) => visitor.visit_bytes(&v),
-            Primitive::I128(v) => visitor.visit_i128(v),
+            Primitive::I128(v) => match v.try_into() {
+                Ok(v) => visitor.visit_i64(v),
+                Err(_) => visitor.visit_i128(v),
+            },
             Primitive::I256(v) => visitor.visit_bytes(&v),
         }
     }
@@ -786,6 +811,9 @@ impl<'de> Deserializer<'de> for Primitive {
     deserialize_number!(deserialize_i32 visit_i32);
     deserialize_number!(deserialize_i64 visit_i64);
     deserialize_number!(deserialize_i128 visit_i128);
+    deserialize_non_number!(deserialize_f32);
+    deserialize_non_number!(deserialize_f64);
+    deserialize_non_number!(deserialize_identifier);
 
     fn deserialize_newtype_struct<V>(
         self,
@@ -799,9 +827,9 @@ impl<'de> Deserializer<'de> for Primitive {
     }
 
     forward_to_deserialize_any! {
-        bool f32 f64 char str string
+        bool char str string
         bytes byte_buf option unit unit_struct seq tuple
-        tuple_struct map struct enum identifier ignored_any
+        tuple_struct map struct enum ignored_any
     }
 }
 
-- 
2.43.0


From 85da88354a5673db2d6b655e1ffcf7b5ecdf35d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 17/19] fix: read field names back into map keys which are
 newtype structs

---
 src/serde_impls/deserializer.rs | 56 +++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index b7cecbf..27e6e41 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -405,9 +405,9 @@ impl<'de, T> Deserializer<'de> for Composite<T> {
         V: serde::de::Visitor<'de>,
     {
         match self {
-            Composite::Named(values) => {
-                visitor.visit_map(de::value::MapDeserializer::new(values.into_iter()))
-            }
+            Composite::Named(values) => visitor.visit_map(de::value::MapDeserializer::new(
+                values.into_iter().map(|(name, value)| (FieldName(name), value)),
+            )),
             Composite::Unnamed(values) => {
                 visitor.visit_seq(de::value::SeqDeserializer::new(values.into_iter()))
             }
@@ -547,6 +547,56 @@ impl<'de, T> IntoDeserializer<'de, DeserializerError> for Composite<T> {
     }
 }
 
+// The name of a field when it's the key of a map, which may be read as a newtype struct around a string.
+struct FieldName(String);
+
+impl<'de> Deserializer<'de> for FieldName {
+    type Error = DeserializerError;
+
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_string(self.0)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        self.0.into_deserializer().deserialize_enum(name, variants, visitor)
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    forward_to_deserialize_any! {
+        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
+        bytes byte_buf option unit unit_struct seq tuple
+        tuple_struct map struct identifier ignored_any
+    }
+}
+
+impl<'de> IntoDeserializer<'de, DeserializerError> for FieldName {
+    type Deserializer = FieldName;
+    fn into_deserializer(self) -> Self::Deserializer {
+        self
+    }
+}
+
 // Because composite types are used to represent variant fields, we allow
 // variant accesses to be called on it, which just delegate to methods defined above.
 impl<'de, T> VariantAccess<'de> for Composite<T> {
-- 
2.43.0


From ec100ba4160f3b277e4045d3463c0a9be66b3e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:02 +0000
Subject: [PATCH 18/19] fix: offer every custom parser the same text, whatever
 the ones before it did

A custom parser which declines after having moved the string it was given forwards
had the parsers after it start from there rather than from the value's beginning.
---
 src/string_impls/from_string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index acb5b0c..1e2c83a 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -227,9 +227,10 @@ fn parse_value(
     if !custom_parsers.is_empty() {
         let s = t.remaining();
         let start_offset = t.offset();
-        let cursor = &mut &*s;
 
         for parser in custom_parsers {
+            // Start afresh, because a parser may have moved this before declining.
+            let cursor = &mut &*s;
             if let Some(res) = parser(cursor) {
                 match res {
                     Ok(value) => {
-- 
2.43.0


From 2bd339cf4efb20ea57d53897de877b7c59b2947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:34 +0000
Subject: [PATCH 19/19] fix: do not panic on ss58-like text starting with many
 1s

---
 src/string_impls/custom_parsers/ss58.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/string_impls/custom_parsers/ss58.rs b/src/string_impls/custom_parsers/ss58.rs
index 1c5bbee..619c62b 100644
--- a/src/string_impls/custom_parsers/ss58.rs
+++ b/src/string_impls/custom_parsers/ss58.rs
@@ -59,9 +59,12 @@ fn parse_ss58_bytes(s: &mut &str) -> Option<Vec<u8>> {
         return None;
     }
 
-    // Attempt to base58-decode these chars.
+    // Attempt to base58-decode these chars. Each leading '1' stands for a zero byte; handle these
+    // here, because `from_base58` panics when there are more of them than it has room left for.
     use base58::FromBase58;
-    let Ok(bytes) = maybe_ss58.from_base58() else { return None };
+    let digits = maybe_ss58.trim_start_matches('1');
+    let mut bytes = vec![0u8; maybe_ss58.len() - digits.len()];
+    bytes.extend(digits.from_base58().ok()?);
 
     // decode length of address prefix.
     let prefix_len = match bytes.first() {
-- 
2.43.0

