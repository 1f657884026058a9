From 19343a9ac10d7284d99f414edec9ef37c58a951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 01/40] fix: zero-pad percent-encoded bytes in $ref fragments

Bytes below 0x10 (e.g. a newline in a schema name) were encoded as `% A`,
which does not decode to the definition's name.
---
 schemars/src/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index e7932d2..0bd82fc 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -27,7 +27,7 @@ pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
             } else if byte == b'/' {
                 buf.push_str("~1");
             } else if needs_encoding(byte) {
-                write!(buf, "%{byte:2X}").unwrap();
+                write!(buf, "%{byte:02X}").unwrap();
             } else {
                 buf.push(byte as char);
             }
-- 
2.43.0


From faa71c353b491b65db0489d9efb9fc3d0b6d2ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 02/40] fix: only percent-decode two hex digits

`u8::from_str_radix` also accepts a leading `+`, so `%+A` was decoded as a byte
instead of being kept as a literal `%`.
---
 schemars/src/encoding.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index 0bd82fc..ac5bac6 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -52,6 +52,7 @@ pub fn percent_decode(s: &str) -> Option<Cow<'_, str>> {
         for segment in segments {
             if let Some(decoded_byte) = segment
                 .get(0..2)
+                .filter(|p| p.bytes().all(|b| b.is_ascii_hexdigit()))
                 .and_then(|p| u8::from_str_radix(p, 16).ok())
             {
                 buf.push(decoded_byte);
-- 
2.43.0


From 94513d4f35940f0c1116b4fa1e4fe0f15e20e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 03/40] fix: give ArrayVec a schema_id based on its item's
 schema_id

Without it, arrays of different types with the same schema name had the same id,
so generic types containing them were conflated.
---
 schemars/src/json_schema_impls/arrayvec07.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schemars/src/json_schema_impls/arrayvec07.rs b/schemars/src/json_schema_impls/arrayvec07.rs
index fc72777..a214e78 100644
--- a/schemars/src/json_schema_impls/arrayvec07.rs
+++ b/schemars/src/json_schema_impls/arrayvec07.rs
@@ -17,6 +17,10 @@ where
         format!("Array_up_to_size_{}_of_{}", CAP, T::schema_name()).into()
     }
 
+    fn schema_id() -> alloc::borrow::Cow<'static, str> {
+        format!("ArrayVec<{}, {}>", T::schema_id(), CAP).into()
+    }
+
     fn json_schema(generator: &mut SchemaGenerator) -> Schema {
         json_schema!({
             "type": "array",
-- 
2.43.0


From 45d5c7de17334ef6e5a64db22b577c4a561372ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 04/40] fix: separate generic arguments in derived schema_id

The ids of e.g. `Foo<1, 11>` and `Foo<11, 1>` were identical.
---
 schemars_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index a61d4b5..3b0f22e 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -124,7 +124,7 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
         }
     } else {
         let relevant_type_params = &cont.relevant_type_params;
-        let format_string_braces = vec!["{}"; const_params.len() + relevant_type_params.len()];
+        let format_string_braces = vec!["{},"; const_params.len() + relevant_type_params.len()];
 
         quote! {
             schemars::_private::alloc::borrow::Cow::Owned(
-- 
2.43.0


From d875420f6b2c4c153523978023a6a409e55b90a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 05/40] fix: keep name allocations when cloning a
 SchemaGenerator

A clone kept the definitions but forgot which types they belong to, so a
different type with an already used name was given a reference to the wrong
definition.
---
 schemars/src/generate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 35dc261..a556be8 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -254,8 +254,8 @@ impl Clone for SchemaGenerator {
             settings: self.settings.clone(),
             definitions: self.definitions.clone(),
             pending_schema_ids: BTreeSet::new(),
-            schema_id_to_name: BTreeMap::new(),
-            used_schema_names: BTreeSet::new(),
+            schema_id_to_name: self.schema_id_to_name.clone(),
+            used_schema_names: self.used_schema_names.clone(),
             root_schema_id_stack: Vec::new(),
         }
     }
-- 
2.43.0


From 50ab6ff8ed93b181f4d420363f138bcd4690e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 06/40] fix: keep formats when RestrictFormats cannot infer the
 meta-schema

As documented on `infer_from_meta_schema`, a missing `$schema` must not cause any
`format` to be removed.
---
 schemars/src/transform.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index eb3e8ca..0f1ce53 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -689,11 +689,14 @@ impl Transform for RestrictFormatsImpl<'_> {
         }
 
         if let Some(format) = obj.get("format").and_then(Value::as_str) {
-            if !self.allowed_formats.contains(format)
-                && !self
-                    .inferred_formats
-                    .is_some_and(|formats| formats.contains(&format))
-            {
+            let is_allowed = self.allowed_formats.contains(format)
+                || match self.inferred_formats {
+                    Some(formats) => formats.contains(&format),
+                    // If the JSON Schema version is unknown, then don't remove any formats
+                    None => self.infer_from_meta_schema,
+                };
+
+            if !is_allowed {
                 obj.remove("format");
             }
         }
-- 
2.43.0


From 0de144fdeec4815151182ef3633f1a82339a435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 07/40] fix: make ReplaceBoolSchemas visit non-boolean
 additionalProperties

`skip_additional_properties` is documented to keep only boolean values, but it
also skipped any boolean schemas nested inside an `additionalProperties` schema.
---
 schemars/src/transform.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index 0f1ce53..eecc68b 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -290,7 +290,11 @@ pub struct ReplaceBoolSchemas {
 impl Transform for ReplaceBoolSchemas {
     fn transform(&mut self, schema: &mut Schema) {
         if let Some(obj) = schema.as_object_mut() {
-            if self.skip_additional_properties {
+            if self.skip_additional_properties
+                && obj
+                    .get("additionalProperties")
+                    .is_some_and(Value::is_boolean)
+            {
                 if let Some((ap_key, ap_value)) = obj.remove_entry("additionalProperties") {
                     transform_subschemas(self, schema);
 
-- 
2.43.0


From 26691db93ef601dffcda65ad6cd2971fc21ff7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 08/40] fix: apply transforms to subschemas under all
 applicator keywords

`transform_subschemas` ignored `unevaluatedProperties`, `unevaluatedItems`,
`contentSchema`, `dependentSchemas` and `dependencies`. `unevaluatedProperties` is
emitted for flattened maps, so e.g. draft 2019-09 schemas could be left
containing `prefixItems`.
---
 schemars/src/transform.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index eecc68b..5c4dec7 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -156,7 +156,10 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
             | "contains"
             | "additionalProperties"
             | "propertyNames"
-            | "additionalItems" => {
+            | "additionalItems"
+            | "unevaluatedItems"
+            | "unevaluatedProperties"
+            | "contentSchema" => {
                 if let Ok(subschema) = value.try_into() {
                     t.transform(subschema);
                 }
@@ -183,7 +186,10 @@ pub fn transform_subschemas<T: Transform + ?Sized>(t: &mut T, schema: &mut Schem
                     t.transform(subschema);
                 }
             }
-            "properties" | "patternProperties" | "$defs" | "definitions" => {
+            // `dependencies` (dropped in draft 2019-09) may also contain arrays of property names,
+            // which are not schemas so are ignored.
+            "properties" | "patternProperties" | "$defs" | "definitions" | "dependentSchemas"
+            | "dependencies" => {
                 if let Some(obj) = value.as_object_mut() {
                     for value in obj.values_mut() {
                         if let Ok(subschema) = value.try_into() {
-- 
2.43.0


From 9750b8912c73c4050c2d8b308e3d91d764078347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 09/40] fix: don't emit an empty prefixItems for empty tuples

The meta-schema requires `prefixItems` (and array `items`) to be non-empty.
---
 schemars/src/ser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index 81457c7..fd4d74e 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -346,11 +346,15 @@ impl serde::ser::SerializeTuple for SerializeTuple<'_> {
         let len = self.items.len();
         let mut schema = json_schema!({
             "type": "array",
-            "prefixItems": self.items,
             "maxItems": len,
             "minItems": len,
         });
 
+        // `prefixItems` must not be empty
+        if len > 0 {
+            schema.insert("prefixItems".to_owned(), self.items.into());
+        }
+
         if !self.title.is_empty() {
             schema
                 .ensure_object()
-- 
2.43.0


From 56f57d8b83614865e5d8091714270b4b980517e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 10/40] fix: unescape map keys when inferring a schema from a
 value

Keys containing quotes, backslashes or control characters were listed in
`properties` under a name that does not occur in the JSON.
---
 schemars/src/ser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/schemars/src/ser.rs b/schemars/src/ser.rs
index fd4d74e..285aa6a 100644
--- a/schemars/src/ser.rs
+++ b/schemars/src/ser.rs
@@ -393,9 +393,8 @@ impl serde::ser::SerializeMap for SerializeMap<'_> {
         // doesn't allow T to be a key of a map.
         let json = serde_json::to_string(key)?;
         self.current_key = Some(
-            json.trim_start_matches('"')
-                .trim_end_matches('"')
-                .to_string(),
+            // Strings need to be unquoted/unescaped, other values (e.g. numbers) are used as-is
+            serde_json::from_str(&json).unwrap_or(json),
         );
 
         Ok(())
-- 
2.43.0


From 6d186d4c4b035600f2280d3bb5eea3b451045813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:06 +0000
Subject: [PATCH 11/40] fix: don't emit an empty oneOf/anyOf when all variants
 are skipped

The meta-schema requires these to be non-empty; an enum whose variants are all
skipped now has the same schema as an enum without variants.
---
 schemars_derive/src/schema_exprs.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 384affb..d3186ff 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -491,16 +491,20 @@ fn variant_subschemas(
         }
     });
     quote!({
-        let mut map = schemars::_private::serde_json::Map::new();
-        map.insert(
-            #keyword.into(),
-            schemars::_private::serde_json::Value::Array({
-                let mut enum_values = schemars::_private::alloc::vec::Vec::new();
-                #(#add_schemas)*
-                enum_values
-            }),
-        );
-        schemars::Schema::from(map)
+        let mut enum_values = schemars::_private::alloc::vec::Vec::new();
+        #(#add_schemas)*
+
+        if enum_values.is_empty() {
+            // All variants are skipped, and `oneOf`/`anyOf` must not be empty
+            schemars::Schema::from(false)
+        } else {
+            let mut map = schemars::_private::serde_json::Map::new();
+            map.insert(
+                #keyword.into(),
+                schemars::_private::serde_json::Value::Array(enum_values),
+            );
+            schemars::Schema::from(map)
+        }
     })
     .into()
 }
-- 
2.43.0


From c5c72d146c32ecf7a9469efd9ef5cbecd2769273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:06 +0000
Subject: [PATCH 12/40] fix: support a definitions path that refers to the root
 schema

With an empty definitions path (or just `#`/`/`), references pointed to the root
object but the definitions were silently dropped.
---
 schemars/src/generate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index a556be8..25e3202 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -629,11 +629,12 @@ fn json_pointer_mut<'a>(
 ) -> Option<&'a mut JsonMap<String, Value>> {
     use serde_json::map::Entry;
 
-    let pointer = pointer.strip_prefix('/')?;
     if pointer.is_empty() {
         return Some(object);
     }
 
+    let pointer = pointer.strip_prefix('/')?;
+
     for mut segment in pointer.split('/') {
         let replaced: String;
         if segment.contains('~') {
-- 
2.43.0


From 3a7ded65535104b9d847f5355c085f5cc7f594f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:06 +0000
Subject: [PATCH 13/40] fix: resolve map key references to definitions with
 encoded names

The key type's definition was looked up by its percent-encoded name, so it was not
found (or a different definition was found), and the keys were not restricted.
---
 schemars/src/encoding.rs               | 12 ++++++++++++
 schemars/src/json_schema_impls/maps.rs |  3 ++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index ac5bac6..1a708bc 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -39,6 +39,18 @@ pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
     }
 }
 
+/// Decodes a string that was encoded by [`encode_ref_name`], returning `None` if it's invalid.
+#[must_use]
+pub fn decode_ref_name(encoded: &str) -> Option<Cow<'_, str>> {
+    let decoded = percent_decode(encoded)?;
+
+    Some(if decoded.contains('~') {
+        Cow::Owned(decoded.replace("~1", "/").replace("~0", "~"))
+    } else {
+        decoded
+    })
+}
+
 /// Percent-decodes the given string, returning `None` if it results in invalid UTF-8.
 /// A `%` that is not followed by two hex digits is treated as a literal `%`.
 #[must_use]
diff --git a/schemars/src/json_schema_impls/maps.rs b/schemars/src/json_schema_impls/maps.rs
index da5a847..466cab5 100644
--- a/schemars/src/json_schema_impls/maps.rs
+++ b/schemars/src/json_schema_impls/maps.rs
@@ -61,7 +61,8 @@ where
                 .get("$ref")
                 .and_then(Value::as_str)
                 .and_then(|r| r.strip_prefix(&prefix))
-                .and_then(|r| generator.definitions().get(r))
+                .and_then(crate::encoding::decode_ref_name)
+                .and_then(|r| generator.definitions().get(r.as_ref()))
                 .and_then(Value::as_object)
             {
                 *option = d;
-- 
2.43.0


From 4a92e7fd00a0e581cf0e47bba32e1519dbfb2e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 14/40] fix: allow null in the schema of weak pointers

serde (de)serializes `Weak<T>` like `Option<T>`, and a dropped value is always
serialized as null.
---
 schemars/src/json_schema_impls/wrapper.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schemars/src/json_schema_impls/wrapper.rs b/schemars/src/json_schema_impls/wrapper.rs
index ea09504..c01daa3 100644
--- a/schemars/src/json_schema_impls/wrapper.rs
+++ b/schemars/src/json_schema_impls/wrapper.rs
@@ -11,9 +11,7 @@ wrapper_impl!(<'a, T: ?Sized> JsonSchema for &'a T);
 wrapper_impl!(<'a, T: ?Sized> JsonSchema for &'a mut T);
 wrapper_impl!(<T: ?Sized> JsonSchema for Box<T>);
 wrapper_impl!(<T: ?Sized> JsonSchema for alloc::rc::Rc<T>);
-wrapper_impl!(<T: ?Sized> JsonSchema for alloc::rc::Weak<T>);
 wrapper_impl!(<T: ?Sized> JsonSchema for alloc::sync::Arc<T>);
-wrapper_impl!(<T: ?Sized> JsonSchema for alloc::sync::Weak<T>);
 #[cfg(feature = "std")]
 wrapper_impl!(<T: ?Sized> JsonSchema for std::sync::Mutex<T>);
 #[cfg(feature = "std")]
@@ -23,3 +21,8 @@ wrapper_impl!(<T: ?Sized> JsonSchema for core::cell::RefCell<T>);
 wrapper_impl!(<'a, T: ?Sized + ToOwned> JsonSchema for alloc::borrow::Cow<'a, T>);
 wrapper_impl!(<T> JsonSchema for core::num::Wrapping<T>);
 wrapper_impl!(<T> JsonSchema for core::cmp::Reverse<T>);
+
+// serde treats weak pointers like an `Option`: they're serialized as null if the value has been
+// dropped, and may be deserialized from null.
+forward_impl!((<T: ?Sized> JsonSchema for alloc::rc::Weak<T> where T: JsonSchema) => Option<Box<T>>);
+forward_impl!((<T: ?Sized> JsonSchema for alloc::sync::Weak<T> where T: JsonSchema) => Option<Box<T>>);
-- 
2.43.0


From ff1dd86b1ca4e90f6caf7b0a26bfcaae4fe1c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 15/40] fix: don't reuse definitions that refer to a previous
 root schema as `#`

When a recursive type was the root, definitions containing `"$ref": "#"` were kept
in the generator, so a later root schema reusing them referred to the wrong type.
---
 schemars/src/generate.rs | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 25e3202..1d69c95 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -239,7 +239,14 @@ pub struct SchemaGenerator {
     used_schema_names: BTreeSet<CowStr>,
     // It's unlikely that `root_schema_id_stack` will ever contain more than one item, but it is
     // possible, e.g. if a `json_schema()` implementation calls `generator.root_schema_for<...>()`
-    root_schema_id_stack: Vec<SchemaUid>,
+    root_schema_id_stack: Vec<RootSchemaUid>,
+}
+
+#[derive(Debug)]
+struct RootSchemaUid {
+    uid: SchemaUid,
+    // Whether a `"$ref": "#"` schema has been created for this type
+    is_referenced: bool,
 }
 
 impl Default for SchemaGenerator {
@@ -326,7 +333,12 @@ impl SchemaGenerator {
                 return None;
             }
 
-            if this.root_schema_id_stack.last() == Some(uid) {
+            if let Some(root) = this
+                .root_schema_id_stack
+                .last_mut()
+                .filter(|root| root.uid == *uid)
+            {
+                root.is_referenced = true;
                 return Some(FindRef {
                     schema: Schema::new_ref("#".to_owned()),
                     name_to_be_inserted: None,
@@ -449,7 +461,8 @@ impl SchemaGenerator {
     /// path](SchemaSettings::definitions_path) (by default `"$defs"`).
     pub fn root_schema_for<T: ?Sized + JsonSchema>(&mut self) -> Schema {
         let schema_uid = self.schema_uid::<T>();
-        self.root_schema_id_stack.push(schema_uid.clone());
+        let previous_definition_names = BTreeSet::from_iter(self.definitions.keys().cloned());
+        self.push_root_schema_id(&schema_uid);
 
         let mut schema = self.json_schema_internal::<T>(&schema_uid);
 
@@ -466,7 +479,16 @@ impl SchemaGenerator {
         self.add_definitions(object, self.definitions.clone());
         self.apply_transforms(&mut schema);
 
-        self.root_schema_id_stack.pop();
+        let root = self.root_schema_id_stack.pop();
+
+        if root.is_some_and(|root| root.is_referenced) {
+            // Definitions that were added for this schema may refer to it as `#`, so they would be
+            // wrong in any other schema. They will be generated again if they're needed.
+            self.definitions = core::mem::take(&mut self.definitions)
+                .into_iter()
+                .filter(|(name, _)| previous_definition_names.contains(name))
+                .collect();
+        }
 
         schema
     }
@@ -479,7 +501,7 @@ impl SchemaGenerator {
     #[must_use]
     pub fn into_root_schema_for<T: ?Sized + JsonSchema>(mut self) -> Schema {
         let schema_uid = self.schema_uid::<T>();
-        self.root_schema_id_stack.push(schema_uid.clone());
+        self.push_root_schema_id(&schema_uid);
 
         let mut schema = self.json_schema_internal::<T>(&schema_uid);
 
@@ -574,6 +596,13 @@ impl SchemaGenerator {
         &self.settings.contract
     }
 
+    fn push_root_schema_id(&mut self, uid: &SchemaUid) {
+        self.root_schema_id_stack.push(RootSchemaUid {
+            uid: uid.clone(),
+            is_referenced: false,
+        });
+    }
+
     fn json_schema_internal<T: ?Sized + JsonSchema>(&mut self, uid: &SchemaUid) -> Schema {
         let did_add = self.pending_schema_ids.insert(uid.clone());
 
-- 
2.43.0


From 7da696d7c7f4c2cac838a65c93d3d09fd3c2d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 16/40] fix: avoid infinite recursion for required/flattened
 recursive fields

Generating the schema of e.g. `enum E { Leaf, Node { #[schemars(required)] next:
Option<Box<E>> } }` overflowed the stack, because the type inside a required or
flattened `Option` was always generated inline.
---
 schemars/src/generate.rs | 20 ++++++++++++++++++++
 schemars/src/lib.rs      |  2 +-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 1d69c95..52165cf 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -235,6 +235,7 @@ pub struct SchemaGenerator {
     settings: SchemaSettings,
     definitions: JsonMap<String, Value>,
     pending_schema_ids: BTreeSet<SchemaUid>,
+    pending_non_optional_schema_ids: BTreeSet<SchemaUid>,
     schema_id_to_name: BTreeMap<SchemaUid, CowStr>,
     used_schema_names: BTreeSet<CowStr>,
     // It's unlikely that `root_schema_id_stack` will ever contain more than one item, but it is
@@ -261,6 +262,7 @@ impl Clone for SchemaGenerator {
             settings: self.settings.clone(),
             definitions: self.definitions.clone(),
             pending_schema_ids: BTreeSet::new(),
+            pending_non_optional_schema_ids: BTreeSet::new(),
             schema_id_to_name: self.schema_id_to_name.clone(),
             used_schema_names: self.used_schema_names.clone(),
             root_schema_id_stack: Vec::new(),
@@ -282,6 +284,7 @@ impl SchemaGenerator {
             settings,
             definitions: JsonMap::new(),
             pending_schema_ids: BTreeSet::new(),
+            pending_non_optional_schema_ids: BTreeSet::new(),
             schema_id_to_name: BTreeMap::new(),
             used_schema_names: BTreeSet::new(),
             root_schema_id_stack: Vec::new(),
@@ -603,6 +606,23 @@ impl SchemaGenerator {
         });
     }
 
+    /// Used for `Option` fields that are flattened or required, where `T` is the type inside the
+    /// `Option`. This doesn't usually return a `$ref`, unless that is needed to avoid infinite
+    /// recursion.
+    pub(crate) fn non_optional_json_schema<T: ?Sized + JsonSchema>(&mut self) -> Schema {
+        let uid = self.schema_uid::<T>();
+
+        if !self.pending_non_optional_schema_ids.insert(uid.clone()) {
+            return self.subschema_for::<T>();
+        }
+
+        let schema = T::json_schema(self);
+
+        self.pending_non_optional_schema_ids.remove(&uid);
+
+        schema
+    }
+
     fn json_schema_internal<T: ?Sized + JsonSchema>(&mut self, uid: &SchemaUid) -> Schema {
         let did_add = self.pending_schema_ids.insert(uid.clone());
 
diff --git a/schemars/src/lib.rs b/schemars/src/lib.rs
index bbacfea..9aa1175 100644
--- a/schemars/src/lib.rs
+++ b/schemars/src/lib.rs
@@ -178,7 +178,7 @@ pub trait JsonSchema {
     // TODO document and bring into public API?
     #[doc(hidden)]
     fn _schemars_private_non_optional_json_schema(generator: &mut SchemaGenerator) -> Schema {
-        Self::json_schema(generator)
+        generator.non_optional_json_schema::<Self>()
     }
 
     // TODO document and bring into public API?
-- 
2.43.0


From 004fec3e2541188331fd509f0db36b1404061759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 17/40] fix: allow missing fields whose type is deserialized as
 an Option

A transparent struct wrapping an `Option` was only treated as optional if it had no
title/description etc, and types using `from`/`try_from`/`with` an `Option` never
were, so the schema required fields that serde allows to be missing.
---
 schemars_derive/src/lib.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index 3b0f22e..c09a281 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -151,6 +151,15 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
 
     let inline = cont.attrs.inline;
 
+    // If this is (de)serialized as an `Option`, then serde allows a field of this type to be missing
+    let is_option_fn = get_deserialized_as_type(&cont).map(|ty| {
+        quote! {
+            fn _schemars_private_is_option() -> bool {
+                <#ty as schemars::JsonSchema>::_schemars_private_is_option()
+            }
+        }
+    });
+
     Ok(quote! {
         const _: () = {
             #crate_alias
@@ -173,11 +182,35 @@ fn derive_json_schema(mut input: syn::DeriveInput, repr: bool) -> syn::Result<To
                 fn inline_schema() -> bool {
                     #inline
                 }
+
+                #is_option_fn
             };
         };
     })
 }
 
+/// Returns the type that serde actually deserializes instead of deserializing the container's own
+/// fields, if there is one.
+fn get_deserialized_as_type<'a>(cont: &'a Container) -> Option<&'a syn::Type> {
+    if let Some(with) = &cont.attrs.with {
+        return match with {
+            attr::WithAttr::Type(ty) => Some(ty),
+            attr::WithAttr::Function(_) => None,
+        };
+    }
+
+    if let Some(transparent_field) = cont.transparent_field() {
+        return match &transparent_field.attrs.with {
+            None => Some(transparent_field.ty),
+            Some(attr::WithAttr::Type(ty)) => Some(ty),
+            Some(attr::WithAttr::Function(_)) => None,
+        };
+    }
+
+    let serde_attrs = &cont.serde_attrs;
+    serde_attrs.type_from().or(serde_attrs.type_try_from())
+}
+
 fn get_transparent_type<'a>(cont: &'a Container) -> Option<&'a syn::Type> {
     // If any schemars attributes for setting metadata (e.g. description) are present, then
     // it's not fully transparent, so use the normal `schema_exprs::expr_for_container`
-- 
2.43.0


From 158fabf29a9bd90cc88ac992c247fd09b8faebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 18/40] fix: flatten unit variants that have their own
 attributes

---
 schemars/src/_private/mod.rs | 86 +++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 1f2173c..63b9e22 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -56,30 +56,7 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
         // Special handling for externally-tagged enums with unit variants.
         // Unit variants are normally serialized as strings, but when flattened, are serialized
         // as objects like `{ "VariantName": null }`
-        if let Some(unit_variants) = remove_unit_variants(&mut schema) {
-            if let Value::Array(one_of) = schema
-                .ensure_object()
-                .entry("oneOf")
-                .or_insert(Value::Array(Vec::new()))
-            {
-                one_of.extend(
-                    unit_variants
-                        .iter()
-                        .filter_map(Value::as_str)
-                        .map(|variant| {
-                            json!({
-                                "type": "object",
-                                "properties": {
-                                    variant: {
-                                        "type": "null"
-                                    }
-                                },
-                                "required": [variant],
-                            })
-                        }),
-                );
-            }
-        }
+        replace_unit_variants(&mut schema);
 
         if is_optional {
             schema.remove("required");
@@ -115,28 +92,67 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
         schema
     }
 
-    fn remove_unit_variants(schema: &mut Schema) -> Option<Vec<Value>> {
+    fn flattened_unit_variant(variant: &Value) -> Option<Value> {
+        variant.as_str().map(|variant| {
+            json!({
+                "type": "object",
+                "properties": {
+                    variant: {
+                        "type": "null"
+                    }
+                },
+                "required": [variant],
+            })
+        })
+    }
+
+    fn replace_unit_variants(schema: &mut Schema) {
         // For enums that only have unit variants, all variants are in `enum`
         if schema.get("type").and_then(Value::as_str) == Some("string") {
             // Remove both `"enum": [...]`...
             if let Some(Value::Array(a)) = schema.remove("enum") {
                 // ...and `"type": "string"`, since the variants are not serialized as strings
                 schema.remove("type");
-                return Some(a);
+
+                if let Value::Array(one_of) = schema
+                    .ensure_object()
+                    .entry("oneOf")
+                    .or_insert(Value::Array(Vec::new()))
+                {
+                    one_of.extend(a.iter().filter_map(flattened_unit_variant));
+                }
+                return;
             }
         }
 
-        // For enums that have unit and other variants, unit variants are in the first `oneOf` item
-        let one_of = schema.get_mut("oneOf")?.as_array_mut()?;
-        let first = <&mut Schema>::try_from(one_of.get_mut(0)?).ok()?;
-        if first.get("type").and_then(Value::as_str) == Some("string") {
-            if let Some(Value::Array(a)) = first.remove("enum") {
-                one_of.remove(0);
-                return Some(a);
+        // For enums that have unit and other variants, unit variants are in the first item...
+        for keyword in ["oneOf", "anyOf"] {
+            let Some(Value::Array(items)) = schema.get_mut(keyword) else {
+                continue;
+            };
+
+            let is_string =
+                |item: &Value| item.get("type").and_then(Value::as_str) == Some("string");
+
+            if items.first().is_some_and(is_string) {
+                if let Some(Value::Array(a)) = items[0].get_mut("enum").map(Value::take) {
+                    items.remove(0);
+                    items.extend(a.iter().filter_map(flattened_unit_variant));
+                }
             }
-        }
 
-        None
+            // ...except for unit variants that have their own attributes, which use `const`
+            for item in items.iter_mut().filter(|i| is_string(i)) {
+                if let Value::Object(item) = item {
+                    if let Some(Value::Object(variant)) =
+                        item.get("const").and_then(flattened_unit_variant)
+                    {
+                        item.remove("const");
+                        item.extend(variant);
+                    }
+                }
+            }
+        }
     }
 
     inner(
-- 
2.43.0


From 587c2448312a70b43580b133c3e5ce5b7147619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:23 +0000
Subject: [PATCH 19/40] fix: allow trailing tuple items that have a default to
 be omitted

---
 schemars_derive/src/schema_exprs.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index d3186ff..d2e63dc 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -647,8 +647,23 @@ fn expr_for_tuple_struct(cont: &Container, fields: &[Field]) -> SchemaExpr {
         .iter()
         .map(|f| {
             let field_expr = expr_for_field(cont, f, false);
+            let has_default =
+                !cont.serde_attrs.default().is_none() || !f.serde_attrs.default().is_none();
+            // Trailing items that have a default can be omitted when deserializing
+            let set_min_len = if has_default {
+                quote! {
+                    if #GENERATOR.contract().is_serialize() {
+                        min_len = prefix_items.len();
+                    }
+                }
+            } else {
+                quote! {
+                    min_len = prefix_items.len();
+                }
+            };
             f.with_contract_check(quote! {
                 prefix_items.push((#field_expr).to_value());
+                #set_min_len
             })
         })
         .collect();
@@ -659,6 +674,7 @@ fn expr_for_tuple_struct(cont: &Container, fields: &[Field]) -> SchemaExpr {
     // items have `skip_serializing` or `skip_deserializing` attributes.
     quote!({
         let mut prefix_items = schemars::_private::alloc::vec::Vec::<schemars::_private::serde_json::Value>::with_capacity(#max_len);
+        let mut min_len = 0_usize;
         #(#fields)*
         let len = prefix_items.len();
 
@@ -666,7 +682,9 @@ fn expr_for_tuple_struct(cont: &Container, fields: &[Field]) -> SchemaExpr {
         map.insert("type".into(), "array".into());
         if !prefix_items.is_empty() {
             map.insert("prefixItems".into(), prefix_items.into());
-            map.insert("minItems".into(), len.into());
+        }
+        if min_len > 0 {
+            map.insert("minItems".into(), min_len.into());
         }
         map.insert("maxItems".into(), len.into());
 
-- 
2.43.0


From 2c701fa7574e314b29917d180bc0a8b6129af3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 20/40] fix: don't require the content of adjacently tagged
 newtype variants of an Option

---
 schemars_derive/src/schema_exprs.rs | 37 +++++++++++++++++++----------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index d2e63dc..02eac5d 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -413,14 +413,30 @@ fn expr_for_adjacent_tagged_enum<'a>(
                 ))
             };
 
-            let (add_content_to_props, add_content_to_required) = content_schema
-                .map(|content_schema| {
-                    (
-                        quote!(#content_name: (#content_schema),),
-                        quote!(#content_name,),
-                    )
-                })
-                .unwrap_or_default();
+            let (add_content_to_props, mut required) = match content_schema {
+                Some(content_schema) => (
+                    quote!(#content_name: (#content_schema),),
+                    quote!([#tag_name, #content_name]),
+                ),
+                None => (TokenStream::new(), quote!([#tag_name])),
+            };
+
+            // A missing content field is deserialized as `None` in a newtype variant of an `Option`
+            if let (Style::Newtype, None) = (variant.style, &variant.attrs.with) {
+                let field = &variant.fields[0];
+                if field.attrs.with.is_none() && !field.attrs.validation.required {
+                    let ty = field.ty;
+                    required = quote!((
+                        if #GENERATOR.contract().is_deserialize()
+                            && <#ty as schemars::JsonSchema>::_schemars_private_is_option()
+                        {
+                            schemars::_private::serde_json::json!([#tag_name])
+                        } else {
+                            schemars::_private::serde_json::json!(#required)
+                        }
+                    ));
+                }
+            }
 
             let name = variant.name();
             let tag_schema = quote! {
@@ -444,10 +460,7 @@ fn expr_for_adjacent_tagged_enum<'a>(
                     #tag_name: (#tag_schema),
                     #add_content_to_props
                 },
-                "required": [
-                    #tag_name,
-                    #add_content_to_required
-                ],
+                "required": #required,
                 // As we're creating a "wrapper" object, we can honor the
                 // disposition of deny_unknown_fields.
                 #set_additional_properties
-- 
2.43.0


From f2e55add75fc9ad99b3d967d4ace1815fd7a2d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 21/40] fix: inline internally tagged newtype variants that
 restrict other properties

A referenced struct whose `additionalProperties` is a schema (e.g. from a
flattened map) rejected the tag property of the enum.
---
 schemars/src/_private/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index 63b9e22..c082b74 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -23,8 +23,8 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
     // - The generator settings specify that all schemas should be inlined
     // - The inner type is a unit struct, which would cause an unsatisfiable schema due to mismatched `type`.
     //    In this case, we replace its type with "object" in `apply_internal_enum_variant_tag`
-    // - The inner schema specified `"additionalProperties": false` or `"unevaluatedProperties": false`,
-    //    since that would disallow the variant tag. If additional/unevaluatedProperties is in the top-level
+    // - The inner schema restricts additional/unevaluated properties (e.g. `"additionalProperties": false`),
+    //    since that could disallow the variant tag. If additional/unevaluatedProperties is in the top-level
     //    schema, then we can leave it there, because it will "see" the variant tag property. But if it is
     //    nested e.g. in an `allOf`, then it must be removed, which is why we run `AllowUnknownProperties`
     //    but only on immediate subschemas.
@@ -35,8 +35,7 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
     if T::inline_schema()
         || generator.settings().inline_subschemas
         || schema.get("type").and_then(Value::as_str) == Some("null")
-        || schema.get("additionalProperties").and_then(Value::as_bool) == Some(false)
-        || schema.get("unevaluatedProperties").and_then(Value::as_bool) == Some(false)
+        || restricts_unknown_properties(&schema)
         || transform.did_modify
     {
         return schema;
@@ -46,6 +45,12 @@ pub fn json_schema_for_internally_tagged_enum_newtype_variant<T: ?Sized + JsonSc
     generator.subschema_for::<T>()
 }
 
+fn restricts_unknown_properties(schema: &Schema) -> bool {
+    ["additionalProperties", "unevaluatedProperties"]
+        .iter()
+        .any(|k| schema.get(*k).is_some_and(|v| *v != Value::Bool(true)))
+}
+
 // Helper for generating schemas for flattened enums and `Option` fields.
 pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
     generator: &mut SchemaGenerator,
-- 
2.43.0


From fca4a999f61e0c0fab3a5b52fa6c0e4a5d45965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:37 +0000
Subject: [PATCH 22/40] fix: keep existing enum values restrictive in
 ReplaceConstValue

A schema with both `const` and `enum` lost its `enum`, which e.g. made
`{"type": "null", "enum": [1]}` accept null in the OpenAPI 3.0 settings.
---
 schemars/src/transform.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index 5c4dec7..999ec68 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -383,7 +383,13 @@ impl Transform for ReplaceConstValue {
         transform_subschemas(self, schema);
 
         if let Some(value) = schema.remove("const") {
-            schema.insert("enum".into(), Value::Array(vec![value]));
+            match schema.get_mut("enum") {
+                // Both keywords apply, so only a value allowed by both remains valid
+                Some(Value::Array(values)) => values.retain(|v| *v == value),
+                _ => {
+                    schema.insert("enum".into(), Value::Array(vec![value]));
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 120bb9d3429dad8c583a42b1f676bdb8bef9e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:37 +0000
Subject: [PATCH 23/40] fix: keep additionalProperties in
 ReplaceUnevaluatedProperties

`additionalProperties` evaluates every property, so `unevaluatedProperties`
in the same schema has no effect and must not replace it.
---
 schemars/src/transform.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schemars/src/transform.rs b/schemars/src/transform.rs
index 999ec68..8d01b3d 100644
--- a/schemars/src/transform.rs
+++ b/schemars/src/transform.rs
@@ -500,6 +500,11 @@ impl Transform for ReplaceUnevaluatedProperties {
             return;
         };
 
+        if schema.get("additionalProperties").is_some() {
+            // Every property is already evaluated, so `unevaluatedProperties` had no effect
+            return;
+        }
+
         schema.insert("additionalProperties".to_owned(), up);
 
         let mut gather_property_names = GatherPropertyNames::default();
-- 
2.43.0


From b70135dda305a790c79f49f8898d9b1183034d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 24/40] fix: allow unsetting serde's with and serialize_with
 attributes

`#[schemars(!with)]` was rejected as a malformed `with` attribute, and `!serialize_with`
as an unknown attribute.
---
 schemars_derive/src/attr/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/attr/mod.rs b/schemars_derive/src/attr/mod.rs
index d570de1..9b26d8d 100644
--- a/schemars_derive/src/attr/mod.rs
+++ b/schemars_derive/src/attr/mod.rs
@@ -480,7 +480,11 @@ impl<'a> AttrCtxt<'a> {
         Self {
             inner,
             attr_type,
-            metas: get_meta_items(attrs, attr_type, inner),
+            metas: get_meta_items(attrs, attr_type, inner)
+                .into_iter()
+                // Unset serde attributes were already handled by `process_serde_attrs`
+                .filter(|meta| !is_unset_serde_keyword(meta))
+                .collect(),
         }
     }
 
@@ -558,3 +562,10 @@ fn is_schemars_serde_keyword(meta: &CustomMeta) -> bool {
         .get_ident()
         .is_some_and(|i| known_keywords.contains(&i.to_string().as_str()))
 }
+
+fn is_unset_serde_keyword(meta: &CustomMeta) -> bool {
+    matches!(meta, CustomMeta::Not(..))
+        && meta.path().get_ident().is_some_and(|i| {
+            schemars_to_serde::SERDE_KEYWORDS.contains(&i.to_string().as_str())
+        })
+}
-- 
2.43.0


From 4490021fccb3a10154ee13244c89a37db4172ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:48 +0000
Subject: [PATCH 25/40] fix: distinguish generic types whose schema depends on
 a param only via schema_with

Type params mentioned only in a `schema_with` function (or a variant's/container's
`with` type) were left out of the derived `schema_id`, so different instantiations
shared a single definition.
---
 schemars_derive/src/bound.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/bound.rs b/schemars_derive/src/bound.rs
index 77dc951..c2ad216 100644
--- a/schemars_derive/src/bound.rs
+++ b/schemars_derive/src/bound.rs
@@ -2,6 +2,8 @@ use crate::{
     ast::{Container, Data, Field, Variant},
     attr::WithAttr,
 };
+use proc_macro2::{TokenStream, TokenTree};
+use quote::ToTokens;
 use std::collections::BTreeSet;
 use syn::{punctuated::Punctuated, Ident};
 
@@ -32,6 +34,8 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
         match &cont.data {
             Data::Enum(variants) => {
                 for variant in variants {
+                    visitor.visit_with_tokens(variant.attrs.with.as_ref());
+
                     let relevant_fields = variant
                         .fields
                         .iter()
@@ -56,6 +60,8 @@ pub fn find_trait_bounds<'a>(orig_generics: &'a syn::Generics, cont: &mut Contai
         }
     }
 
+    visitor.visit_with_tokens(cont.attrs.with.as_ref());
+
     cont.relevant_type_params = visitor.relevant_type_params;
 
     let where_clause = cont.generics.make_where_clause();
@@ -120,12 +126,37 @@ impl FindTyParams<'_> {
         match &field.attrs.with {
             Some(WithAttr::Type(ty)) => self.visit_type(field, ty),
             Some(WithAttr::Function(_)) => {
-                // `schema_with` function type params may or may not implement `JsonSchema`
+                // `schema_with` function type params may or may not implement `JsonSchema`, but
+                // the schema still depends on them
+                self.visit_with_tokens(field.attrs.with.as_ref());
             }
             None => self.visit_type(field, &field.original.ty),
         }
     }
 
+    // Marks any type params mentioned in the type/function as relevant without adding any bounds
+    fn visit_with_tokens(&mut self, with: Option<&WithAttr>) {
+        match with {
+            Some(WithAttr::Type(ty)) => self.visit_tokens(ty.to_token_stream()),
+            Some(WithAttr::Function(path)) => self.visit_tokens(path.to_token_stream()),
+            None => {}
+        }
+    }
+
+    fn visit_tokens(&mut self, tokens: TokenStream) {
+        for token in tokens {
+            match token {
+                TokenTree::Ident(id) => {
+                    if let Some(id) = self.all_type_params.get(&id) {
+                        self.relevant_type_params.insert(id);
+                    }
+                }
+                TokenTree::Group(group) => self.visit_tokens(group.stream()),
+                _ => {}
+            }
+        }
+    }
+
     fn visit_path(&mut self, field: &Field, path: &syn::Path) {
         if let Some(seg) = path.segments.last() {
             if seg.ident == "PhantomData" {
-- 
2.43.0


From 604d0effc07d923261819d1ec98ab3a0e68ecdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:39 +0000
Subject: [PATCH 26/40] fix: find JsonSchema_repr's integer type among other
 repr hints

---
 schemars_derive/src/attr/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/schemars_derive/src/attr/mod.rs b/schemars_derive/src/attr/mod.rs
index 9b26d8d..90590f7 100644
--- a/schemars_derive/src/attr/mod.rs
+++ b/schemars_derive/src/attr/mod.rs
@@ -13,7 +13,7 @@ use quote::ToTokens;
 use serde_derive_internals::Ctxt;
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
-use syn::{Attribute, Expr, ExprLit, Ident, Lit, LitStr, Path, Type};
+use syn::{parse_quote, Attribute, Expr, ExprLit, Ident, Lit, LitStr, Meta, Path, Token, Type};
 use validation::ValidationAttrs;
 
 use crate::ast::Data;
@@ -315,10 +315,19 @@ impl ContainerAttrs {
         self.process_attr(data, schemars_cx);
         self.process_attr(data, serde_cx);
 
+        // Ignore any hints that don't specify the integer type, e.g. `align(8)`
         self.repr = attrs
             .iter()
-            .find(|a| a.path().is_ident("repr"))
-            .and_then(|a| a.parse_args().ok());
+            .filter(|a| a.path().is_ident("repr"))
+            .filter_map(|a| {
+                a.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)
+                    .ok()
+            })
+            .flatten()
+            .find_map(|meta| match meta {
+                Meta::Path(path) if !path.is_ident("C") => Some(parse_quote!(#path)),
+                _ => None,
+            });
     }
 
     fn process_attr(&mut self, data: &Data, cx: &mut AttrCtxt) {
-- 
2.43.0


From 80b31776a2a4433e8bd7928d8d57eafb0eddd0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:39 +0000
Subject: [PATCH 27/40] fix: allow JsonSchema_repr on 128-bit enums

---
 schemars_derive/src/schema_exprs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 02eac5d..f50b3cb 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -145,7 +145,7 @@ pub fn expr_for_repr(cont: &Container) -> Result<SchemaExpr, syn::Error> {
             "enum".into(),
             schemars::_private::serde_json::Value::Array({
                 let mut enum_values = schemars::_private::alloc::vec::Vec::new();
-                #(enum_values.push((#enum_ident::#variant_idents as #repr_type).into());)*
+                #(enum_values.push(schemars::_private::serde_json::json!(#enum_ident::#variant_idents as #repr_type));)*
                 enum_values
             }),
         );
-- 
2.43.0


From e08b0728f14927353f47a117332a01870ac99067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:24 +0000
Subject: [PATCH 28/40] fix: allow absent optional flattened structs that
 flatten multiple enums

---
 schemars/src/_private/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index c082b74..fff13e9 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -88,6 +88,15 @@ pub fn json_schema_for_flatten<T: ?Sized + JsonSchema>(
                     any_of.push(empty_object);
                 }
             }
+
+            // Handle `Option<>` of structs which themselves have multiple flattened enums
+            if let Some(Value::Array(all_of)) = schema.get_mut("allOf") {
+                for item in all_of {
+                    if let Ok(item) = <&mut Schema>::try_from(item) {
+                        *item = inner(core::mem::take(item), true);
+                    }
+                }
+            }
         }
 
         // Always allow aditional/unevaluated properties, because the outer struct determines
-- 
2.43.0


From cd5d61f783da17c489ab27f6eae933f5572f5277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:33 +0000
Subject: [PATCH 29/40] fix: don't escape characters that have no meaning in
 ECMA-262 regexes

---
 schemars/src/_private/regex_syntax.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schemars/src/_private/regex_syntax.rs b/schemars/src/_private/regex_syntax.rs
index 23b67ca..5d28998 100644
--- a/schemars/src/_private/regex_syntax.rs
+++ b/schemars/src/_private/regex_syntax.rs
@@ -47,8 +47,9 @@ fn escape_into(text: &str, buf: &mut String) {
 
 fn is_meta_character(c: char) -> bool {
     match c {
-        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$'
-        | '#' | '&' | '-' | '~' => true,
+        // Unlike in regex_syntax, `#`/`&`/`-`/`~` must not be escaped because that is a syntax error in
+        // the ECMA-262 (unicode) regexes used by JSON Schema, where they are not special characters
+        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' => true,
         _ => false,
     }
 }
-- 
2.43.0


From fbaf2bacf298ada7140d70f5e0c82e5f9a3e305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:56 +0000
Subject: [PATCH 30/40] fix: keep stricter existing limits when adding
 validation limits

---
 schemars/src/_private/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index fff13e9..bd3c283 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -369,10 +369,24 @@ pub fn insert_validation_property(
     value: impl Into<Value>,
 ) {
     if schema.has_type(required_type) || (required_type == "number" && schema.has_type("integer")) {
-        schema.insert(key.to_owned(), value.into());
+        let value = value.into();
+        if !is_looser_limit(schema, key, &value) {
+            schema.insert(key.to_owned(), value);
+        }
     }
 }
 
+/// Whether the schema already has a limit which is stricter than the given value,
+/// e.g. `minItems` of the array `[T; 4]` compared to `length(min = 1)`
+fn is_looser_limit(schema: &Schema, key: &str, value: &Value) -> bool {
+    let (Some(current), Some(value)) = (schema.get(key).and_then(Value::as_f64), value.as_f64())
+    else {
+        return false;
+    };
+
+    (key.starts_with("min") && value < current) || (key.starts_with("max") && value > current)
+}
+
 pub fn must_contain(schema: &mut Schema, substring: &str) {
     let escaped = regex_syntax::escape(substring);
     insert_validation_property(schema, "string", "pattern", escaped);
-- 
2.43.0


From cdbc18787299333be2286a0260fd5b3a7ddd8c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:09 +0000
Subject: [PATCH 31/40] fix: allow validator's required attribute to have items

---
 schemars_derive/src/attr/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/attr/validation.rs b/schemars_derive/src/attr/validation.rs
index d836e00..7c10386 100644
--- a/schemars_derive/src/attr/validation.rs
+++ b/schemars_derive/src/attr/validation.rs
@@ -172,7 +172,8 @@ impl ValidationAttrs {
             "required" => {
                 if self.required {
                     cx.duplicate_error(&meta);
-                } else if require_path_only(&meta, cx).is_ok() {
+                } else if cx.attr_type == "validate" || require_path_only(&meta, cx).is_ok() {
+                    // Allow a MetaList in validator attr (e.g. with message/code items)
                     self.required = true;
                 }
             }
-- 
2.43.0


From a95b02c25cec149b12d568f38f87451ab2fd9b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:10 +0000
Subject: [PATCH 32/40] fix: allow any expression in the contains attribute

---
 schemars_derive/src/attr/validation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemars_derive/src/attr/validation.rs b/schemars_derive/src/attr/validation.rs
index 7c10386..d1171e6 100644
--- a/schemars_derive/src/attr/validation.rs
+++ b/schemars_derive/src/attr/validation.rs
@@ -88,7 +88,7 @@ impl ValidationAttrs {
 
         if let Some(contains) = &self.contains {
             mutators.push(quote! {
-                schemars::_private::must_contain(#mut_ref_schema, &#contains.to_string());
+                schemars::_private::must_contain(#mut_ref_schema, &(#contains).to_string());
             });
         }
 
-- 
2.43.0


From 5599e50dcdf44b91faa83d0c4a4f5b79330017b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:51 +0000
Subject: [PATCH 33/40] fix: don't allow missing fields of a transparent type
 with a required Option

---
 schemars_derive/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/schemars_derive/src/lib.rs b/schemars_derive/src/lib.rs
index c09a281..309dca7 100644
--- a/schemars_derive/src/lib.rs
+++ b/schemars_derive/src/lib.rs
@@ -201,6 +201,7 @@ fn get_deserialized_as_type<'a>(cont: &'a Container) -> Option<&'a syn::Type> {
 
     if let Some(transparent_field) = cont.transparent_field() {
         return match &transparent_field.attrs.with {
+            _ if transparent_field.attrs.validation.required => None,
             None => Some(transparent_field.ty),
             Some(attr::WithAttr::Type(ty)) => Some(ty),
             Some(attr::WithAttr::Function(_)) => None,
-- 
2.43.0


From 8e4ddd7c6d49956449989e10bf968ee4ff896adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:10 +0000
Subject: [PATCH 34/40] fix: state the type of values returned by default
 functions, which may be generic

---
 schemars_derive/src/schema_exprs.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index f50b3cb..25bb2f6 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -715,7 +715,11 @@ fn expr_for_struct(
     let set_container_default = match default {
         SerdeDefault::None => None,
         SerdeDefault::Default => Some(quote!(let #STRUCT_DEFAULT = Self::default();)),
-        SerdeDefault::Path(path) => Some(quote!(let #STRUCT_DEFAULT = #path();)),
+        // The remote type may be given by just its name, so leave its generic arguments to inference
+        SerdeDefault::Path(path) if cont.serde_attrs.remote().is_some() => {
+            Some(quote!(let #STRUCT_DEFAULT = #path();))
+        }
+        SerdeDefault::Path(path) => Some(quote!(let #STRUCT_DEFAULT: Self = #path();)),
     };
 
     // a vec of mutators
@@ -811,7 +815,10 @@ fn field_default_expr(field: &Field, container_has_default: bool) -> Option<Toke
             quote!(#STRUCT_DEFAULT.#member)
         }
         SerdeDefault::Default => quote!(<#ty>::default()),
-        SerdeDefault::Path(path) => quote!(#path()),
+        SerdeDefault::Path(path) => quote!({
+            let default: #ty = #path();
+            default
+        }),
     };
 
     let default_expr = if let Some(skip_if) = field.serde_attrs.skip_serializing_if() {
-- 
2.43.0


From 8c91b9d4ca77f87a4228367669fd6b8ee64169e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:52 +0000
Subject: [PATCH 35/40] fix: treat newtype variants with a skipped field as
 unit variants, as serde does

---
 schemars_derive/src/schema_exprs.rs | 104 +++++++++++++++++++++++-----
 1 file changed, 85 insertions(+), 19 deletions(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 25bb2f6..5e4e833 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -318,17 +318,22 @@ fn expr_for_external_tagged_enum<'a>(
 
         let name = variant.name();
 
+        let unit_schema = quote! {
+            schemars::_private::new_unit_enum_variant(#name)
+        };
         let mut schema_expr =
             SchemaExpr::from(if variant.is_unit() && variant.attrs.with.is_none() {
-                quote! {
-                    schemars::_private::new_unit_enum_variant(#name)
-                }
+                unit_schema
             } else {
                 let sub_schema =
                     expr_for_untagged_enum_variant(cont, variant, deny_unknown_fields, false);
-                quote! {
-                    schemars::_private::new_externally_tagged_enum_variant(#name, #sub_schema)
-                }
+                with_skipped_newtype_check(
+                    variant,
+                    unit_schema,
+                    quote! {
+                        schemars::_private::new_externally_tagged_enum_variant(#name, #sub_schema)
+                    },
+                )
             });
 
         variant.add_mutators(&mut schema_expr.mutators);
@@ -454,17 +459,38 @@ fn expr_for_adjacent_tagged_enum<'a>(
                 TokenStream::new()
             };
 
-            let mut outer_schema = SchemaExpr::from(quote!(schemars::json_schema!({
-                "type": "object",
-                "properties": {
-                    #tag_name: (#tag_schema),
-                    #add_content_to_props
-                },
-                "required": #required,
-                // As we're creating a "wrapper" object, we can honor the
-                // disposition of deny_unknown_fields.
-                #set_additional_properties
-            })));
+            let outer_schema_expr = |content: &TokenStream, required: &TokenStream| {
+                quote!(schemars::json_schema!({
+                    "type": "object",
+                    "properties": {
+                        #tag_name: (#tag_schema),
+                        #content
+                    },
+                    "required": #required,
+                    // As we're creating a "wrapper" object, we can honor the
+                    // disposition of deny_unknown_fields.
+                    #set_additional_properties
+                }))
+            };
+
+            let mut outer_schema_creator = outer_schema_expr(&add_content_to_props, &required);
+            if let (Style::Newtype, None) = (variant.style, &variant.attrs.with) {
+                // A skipped field is not serialized, but its content (`null`) must be present when
+                // deserializing
+                if variant.fields[0].serde_attrs.skip_serializing() {
+                    let without_content =
+                        outer_schema_expr(&TokenStream::new(), &quote!([#tag_name]));
+                    outer_schema_creator = quote! {
+                        if #GENERATOR.contract().is_serialize() {
+                            #without_content
+                        } else {
+                            #outer_schema_creator
+                        }
+                    };
+                }
+            }
+
+            let mut outer_schema = SchemaExpr::from(outer_schema_creator);
 
             variant.add_mutators(&mut outer_schema.mutators);
 
@@ -588,7 +614,7 @@ fn expr_for_untagged_enum_variant(
     } else {
         match variant.style {
             Style::Unit => expr_for_unit_struct(),
-            Style::Newtype => expr_for_field(cont, &variant.fields[0], false),
+            Style::Newtype => expr_for_newtype_variant(cont, variant, false),
             Style::Tuple => expr_for_tuple_struct(cont, &variant.fields),
             Style::Struct => expr_for_struct(
                 cont,
@@ -633,7 +659,7 @@ fn expr_for_internal_tagged_enum_variant(
 
     match variant.style {
         Style::Unit => expr_for_unit_struct(),
-        Style::Newtype => expr_for_field(cont, &variant.fields[0], true),
+        Style::Newtype => expr_for_newtype_variant(cont, variant, true),
         Style::Tuple => expr_for_tuple_struct(cont, &variant.fields),
         Style::Struct => expr_for_struct(
             cont,
@@ -644,6 +670,46 @@ fn expr_for_internal_tagged_enum_variant(
     }
 }
 
+fn expr_for_newtype_variant(cont: &Container, variant: &Variant, is_internal: bool) -> SchemaExpr {
+    let field = &variant.fields[0];
+    if !field.serde_attrs.skip_serializing() && !field.serde_attrs.skip_deserializing() {
+        return expr_for_field(cont, field, is_internal);
+    }
+
+    with_skipped_newtype_check(
+        variant,
+        expr_for_unit_struct().to_token_stream(),
+        expr_for_field(cont, field, is_internal).to_token_stream(),
+    )
+    .into()
+}
+
+/// Serde treats a newtype variant as a unit variant when its only field is skipped.
+fn with_skipped_newtype_check(
+    variant: &Variant,
+    unit_schema: TokenStream,
+    schema: TokenStream,
+) -> TokenStream {
+    let (skip_deserializing, skip_serializing) = match (variant.style, &variant.attrs.with) {
+        (Style::Newtype, None) => {
+            let attrs = &variant.fields[0].serde_attrs;
+            (attrs.skip_deserializing(), attrs.skip_serializing())
+        }
+        _ => (false, false),
+    };
+
+    match (skip_deserializing, skip_serializing) {
+        (true, true) => unit_schema,
+        (true, false) => quote! {
+            if #GENERATOR.contract().is_serialize() { #schema } else { #unit_schema }
+        },
+        (false, true) => quote! {
+            if #GENERATOR.contract().is_serialize() { #unit_schema } else { #schema }
+        },
+        (false, false) => schema,
+    }
+}
+
 fn expr_for_unit_struct() -> SchemaExpr {
     quote! {
         #GENERATOR.subschema_for::<()>()
-- 
2.43.0


From 64b618ec8bc681214c7cd5840a327c002f5cb8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:06 +0000
Subject: [PATCH 36/40] fix: don't ignore transform attributes whose value is
 an arbitrary string

---
 schemars_derive/src/attr/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/schemars_derive/src/attr/mod.rs b/schemars_derive/src/attr/mod.rs
index 90590f7..826829d 100644
--- a/schemars_derive/src/attr/mod.rs
+++ b/schemars_derive/src/attr/mod.rs
@@ -143,15 +143,14 @@ impl CommonAttrs {
                         ..
                     }) = &expr
                     {
+                        let mut message = "Expected a `fn(&mut Schema)` or other value implementing `schemars::transform::Transform`, found `&str`.".to_owned();
                         if lit_str.parse::<Expr>().is_ok() {
-                            cx.error_spanned_by(
-                                &expr,
-                                format_args!(
-                                    "Expected a `fn(&mut Schema)` or other value implementing `schemars::transform::Transform`, found `&str`.\nDid you mean `#[schemars(transform = {})]`?",
-                                    lit_str.value()
-                                ),
+                            message += &format!(
+                                "\nDid you mean `#[schemars(transform = {})]`?",
+                                lit_str.value()
                             );
                         }
+                        cx.error_spanned_by(&expr, message);
                     } else {
                         self.transforms.push(expr);
                     }
-- 
2.43.0


From b66fb5ec8efc3d6bbd5072a03a88c406f3b5e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:31 +0000
Subject: [PATCH 37/40] fix: reject serde attributes inside inner(...), where
 they had no effect

---
 schemars_derive/src/attr/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/schemars_derive/src/attr/mod.rs b/schemars_derive/src/attr/mod.rs
index 826829d..6029a1f 100644
--- a/schemars_derive/src/attr/mod.rs
+++ b/schemars_derive/src/attr/mod.rs
@@ -481,6 +481,7 @@ pub struct AttrCtxt<'a> {
     inner: &'a Ctxt,
     attr_type: &'static str,
     metas: Vec<CustomMeta>,
+    is_nested: bool,
 }
 
 impl<'a> AttrCtxt<'a> {
@@ -493,11 +494,16 @@ impl<'a> AttrCtxt<'a> {
                 // Unset serde attributes were already handled by `process_serde_attrs`
                 .filter(|meta| !is_unset_serde_keyword(meta))
                 .collect(),
+            is_nested: false,
         }
     }
 
     pub fn new_nested_meta(&self, metas: Vec<CustomMeta>) -> Self {
-        Self { metas, ..*self }
+        Self {
+            metas,
+            is_nested: true,
+            ..*self
+        }
     }
 
     pub fn parse_meta(
@@ -551,7 +557,12 @@ impl<'a> AttrCtxt<'a> {
 impl Drop for AttrCtxt<'_> {
     fn drop(&mut self) {
         if self.attr_type == "schemars" {
-            for unhandled_meta in self.metas.iter().filter(|m| !is_schemars_serde_keyword(m)) {
+            for unhandled_meta in self
+                .metas
+                .iter()
+                // Serde attributes are handled by serde, but only outside of other attributes
+                .filter(|m| self.is_nested || !is_schemars_serde_keyword(m))
+            {
                 self.error_spanned_by(
                     unhandled_meta.path(),
                     format_args!(
-- 
2.43.0


From 4892b6fbc7798b1b2bf2f106c97167eeb2ecf98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:50 +0000
Subject: [PATCH 38/40] fix: percent-encode the definitions path in references

---
 schemars/src/encoding.rs               | 13 +++++++++++++
 schemars/src/generate.rs               |  2 +-
 schemars/src/json_schema_impls/maps.rs |  5 ++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/schemars/src/encoding.rs b/schemars/src/encoding.rs
index 1a708bc..c1f902b 100644
--- a/schemars/src/encoding.rs
+++ b/schemars/src/encoding.rs
@@ -39,6 +39,19 @@ pub fn encode_ref_name(name: &str) -> Cow<'_, str> {
     }
 }
 
+/// Encodes a JSON Pointer for use as a URI fragment.
+#[must_use]
+pub fn encode_pointer(pointer: &str) -> String {
+    pointer
+        .split('/')
+        .map(|segment| {
+            let segments = segment.split('~').map(encode_ref_name);
+            segments.collect::<Vec<_>>().join("~")
+        })
+        .collect::<Vec<_>>()
+        .join("/")
+}
+
 /// Decodes a string that was encoded by [`encode_ref_name`], returning `None` if it's invalid.
 #[must_use]
 pub fn decode_ref_name(encoded: &str) -> Option<Cow<'_, str>> {
diff --git a/schemars/src/generate.rs b/schemars/src/generate.rs
index 52165cf..8162b0d 100644
--- a/schemars/src/generate.rs
+++ b/schemars/src/generate.rs
@@ -370,7 +370,7 @@ impl SchemaGenerator {
 
             let reference = format!(
                 "#{}/{}",
-                this.definitions_path_stripped(),
+                crate::encoding::encode_pointer(this.definitions_path_stripped()),
                 crate::encoding::encode_ref_name(&name)
             );
 
diff --git a/schemars/src/json_schema_impls/maps.rs b/schemars/src/json_schema_impls/maps.rs
index 466cab5..a5a29b9 100644
--- a/schemars/src/json_schema_impls/maps.rs
+++ b/schemars/src/json_schema_impls/maps.rs
@@ -55,7 +55,10 @@ where
         };
 
         // Handle refs
-        let prefix = format!("#{}/", generator.definitions_path_stripped());
+        let prefix = format!(
+            "#{}/",
+            crate::encoding::encode_pointer(generator.definitions_path_stripped())
+        );
         for option in &mut options {
             if let Some(d) = option
                 .get("$ref")
-- 
2.43.0


From 872143d39897197aaaeca419db9a0ac870ef44da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:05 +0000
Subject: [PATCH 39/40] fix: do not require JsonSchema for the skipped field of
 an adjacently tagged newtype variant

---
 schemars_derive/src/schema_exprs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/schemars_derive/src/schema_exprs.rs b/schemars_derive/src/schema_exprs.rs
index 5e4e833..0d26e3f 100644
--- a/schemars_derive/src/schema_exprs.rs
+++ b/schemars_derive/src/schema_exprs.rs
@@ -429,7 +429,10 @@ fn expr_for_adjacent_tagged_enum<'a>(
             // A missing content field is deserialized as `None` in a newtype variant of an `Option`
             if let (Style::Newtype, None) = (variant.style, &variant.attrs.with) {
                 let field = &variant.fields[0];
-                if field.attrs.with.is_none() && !field.attrs.validation.required {
+                if field.attrs.with.is_none()
+                    && !field.attrs.validation.required
+                    && !field.serde_attrs.skip_deserializing()
+                {
                     let ty = field.ty;
                     required = quote!((
                         if #GENERATOR.contract().is_deserialize()
-- 
2.43.0


From 4b3089ae4af2fc6b0bf3158aa68d7ab6d364fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:25 +0000
Subject: [PATCH 40/40] fix: Option of schemas with `not`, `const: null` or a
 restricted null alternative

---
 schemars/src/_private/mod.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/schemars/src/_private/mod.rs b/schemars/src/_private/mod.rs
index bd3c283..b202c73 100644
--- a/schemars/src/_private/mod.rs
+++ b/schemars/src/_private/mod.rs
@@ -490,8 +490,31 @@ fn contains_immediate_subschema(schema_obj: &Map<String, Value>) -> bool {
 }
 
 pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
+    // Whether the given schema certainly accepts null. Keywords other than those checked here don't
+    // restrict null values.
     fn is_null_schema(value: &Value) -> bool {
         <&Schema>::try_from(value).is_ok_and(|s| s.has_type("null"))
+            && value.as_object().is_some_and(|obj| {
+                !contains_immediate_subschema(obj)
+                    && !["const", "enum", "not"]
+                        .into_iter()
+                        .any(|k| obj.contains_key(k))
+            })
+    }
+
+    // Whether the given schema certainly rejects null, e.g. `{ "const": 0 }`.
+    fn rejects_null(value: &Value) -> bool {
+        let Ok(schema) = <&Schema>::try_from(value) else {
+            return false;
+        };
+
+        schema == &false
+            || (schema.get("type").is_some() && !schema.has_type("null"))
+            || schema.get("const").is_some_and(|c| !c.is_null())
+            || schema
+                .get("enum")
+                .and_then(Value::as_array)
+                .is_some_and(|e| !e.contains(&Value::Null))
     }
 
     match schema.try_as_object_mut() {
@@ -505,7 +528,7 @@ pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
                 return;
             }
 
-            if contains_immediate_subschema(obj) {
+            if contains_immediate_subschema(obj) || obj.get("not").is_some_and(|n| !rejects_null(n)) {
                 *schema = json_schema!({
                     "anyOf": [
                         obj,
@@ -534,8 +557,10 @@ pub(crate) fn allow_null(generator: &mut SchemaGenerator, schema: &mut Schema) {
                 }
             }
 
-            if let Some(c) = obj.remove("const") {
+            if let Some(c) = obj.get("const") {
                 if !c.is_null() {
+                    let c = c.clone();
+                    obj.remove("const");
                     obj.insert("enum".to_string(), Value::Array(vec![c, Value::Null]));
                 }
             } else if let Some(Value::Array(e)) = obj.get_mut("enum") {
-- 
2.43.0

