From b0ba9d2674b28fbc35380376d21be2a8293eb479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 01/14] fix: do not panic on property names that are empty or
 have no words

An empty property name, or under normalize_case a name made up of separators
only (_, -, .), is normalized to _ like the other separators.
---
 src/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index f350af5..4013e64 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -353,9 +353,9 @@ impl Tag {
         }
     }
 
-    /// If a name starts with a number, prefix it with an underscore.
+    /// If a name starts with a number or is empty, prefix it with an underscore.
     fn normalize_numeric_prefix(name: String) -> String {
-        if name.chars().next().unwrap().is_numeric() {
+        if name.chars().next().map_or(true, char::is_numeric) {
             format!("_{}", name)
         } else {
             name
-- 
2.43.0


From eecbc44871cfb8879965a5aaf957be753ca5e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 02/14] fix: resolve colliding property names deterministically

Which of two properties with the same normalized name (a.b and a-b) was kept
depended on the iteration order of a HashMap, which differs between runs.
---
 src/ast.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 4013e64..b631baa 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -388,7 +388,10 @@ impl Tag {
     pub fn normalize_properties(&mut self, normalize_case: bool) {
         if let Type::Object(ref mut object) = self.data_type {
             let fields = &mut object.fields;
-            let keys: Vec<String> = fields.keys().cloned().collect();
+            // Names may collide once normalized e.g. `a.b` and `a-b`. Go through
+            // them in order so the same property is kept every time.
+            let mut keys: Vec<String> = fields.keys().cloned().collect();
+            keys.sort();
 
             for key in keys {
                 // Replace property names with the normalized property name
-- 
2.43.0


From c478fab0b2fd1f3e9bfa52420f616d7bd3349207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 03/14] fix: anchor every alternative of json_object_path_regex

The anchor bound to the first alternative only: zzz|b matched a.b.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 591a434..2b35eae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,7 @@ impl Context {
             .as_ref()
             .map(|object_regex| {
                 // Ensure we match from the beginning of the string
-                let re = format!(r"\A{}", object_regex);
+                let re = format!(r"\A(?:{})", object_regex);
                 let json_object_path_re = Regex::new(&re).unwrap();
                 json_object_path_re.is_match(fqn)
             })
-- 
2.43.0


From 53453694ebda43551964930ffbfc0ee101d9a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 04/14] fix: collapse unions nested anywhere inside a union

The subschemas of a collapsed union were not collapsed themselves: a union with
one element kept a nested union, and an object next to null kept unions in its
properties. In Avro these fields became strings, and a nullable type lost its
nullability.
---
 src/ast.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index b631baa..2719630 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -102,12 +102,14 @@ impl Union {
         if self.items.is_empty() {
             panic!("empty union is not allowed")
         } else if self.items.len() == 1 {
+            let mut item = self.items[0].clone();
+            item.collapse();
             return Tag {
                 name: None,
                 namespace: None,
-                nullable: is_null,
+                nullable: is_null || item.nullable,
                 is_root: false,
-                data_type: self.items[0].data_type.clone(),
+                data_type: item.data_type,
                 description: None,
                 title: None,
             };
@@ -118,13 +120,9 @@ impl Union {
             .iter()
             .filter(|x| !x.is_null())
             .map(|x| {
-                if let Type::Union(union) = &x.data_type {
-                    let mut tag = union.collapse();
-                    tag.name = x.name.clone();
-                    tag
-                } else {
-                    x.clone()
-                }
+                let mut tag = x.clone();
+                tag.collapse();
+                tag
             })
             .collect();
 
-- 
2.43.0


From 8f971f28f016135aaa73e103806765f4c2dd2cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 05/14] fix: keep optional tuple items nullable when they are
 unions

---
 src/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 2719630..2185a67 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -565,7 +565,8 @@ impl Tag {
             Type::Union(union) => {
                 let tag = union.collapse();
                 self.data_type = tag.data_type;
-                self.nullable = tag.nullable;
+                // keep what has been inferred before e.g. optional tuple items
+                self.nullable |= tag.nullable;
             }
             _ => (),
         }
-- 
2.43.0


From 996329ffb324cf5a3b9159e5cf80312afca822be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 06/14] fix: do not require properties that only some oneOf
 subschemas require

If one of two merged objects had no required section, the required section of
the other one was kept as it is.
---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 2185a67..4e8ed9f 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -188,7 +188,7 @@ impl Union {
                                     (Some(x), Some(y)) => {
                                         Some(x.intersection(y).map(ToString::to_string).collect())
                                     }
-                                    (Some(x), None) | (None, Some(x)) => Some(x.clone()),
+                                    // a property is optional if any subschema requires nothing
                                     _ => None,
                                 };
                             Type::Object(Object::new(result, required))
-- 
2.43.0


From 3648349c5ab7d89de4b1943285824816f40a7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 07/14] fix: a union of identical datetime or bytes atoms keeps
 the type

---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index 4e8ed9f..02020ef 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -143,6 +143,8 @@ impl Union {
                             | (Atom::Integer, Atom::Number)
                             | (Atom::Number, Atom::Integer) => Atom::Number,
                             (Atom::String, Atom::String) => Atom::String,
+                            (Atom::Datetime, Atom::Datetime) => Atom::Datetime,
+                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,
                             (lhs, rhs) => {
                                 trace!("Invalid union collapse of atoms {:?} and {:?}", lhs, rhs);
                                 Atom::Json
-- 
2.43.0


From 47df7952aafffd3cabeb8236334fa58c01864338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 08/14] fix: the union of a tuple and null is a nullable tuple

It was treated as an incompatible union.
---
 src/ast.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 02020ef..f282764 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -130,7 +130,9 @@ impl Union {
         // the pre-processing step, check for nullability based on the immediate level of tags
         let nullable = is_null || items.iter().any(|tag| tag.nullable);
 
-        let data_type: Type = if items.iter().all(Tag::is_atom) {
+        let data_type: Type = if items.len() == 1 {
+            items[0].data_type.clone()
+        } else if items.iter().all(Tag::is_atom) {
             items
                 .into_iter()
                 .fold(Type::Null, |acc, x| match (acc, &x.data_type) {
-- 
2.43.0


From 6ccbd502d9ded3bd0c8c9b55f4025bf58895c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 09/14] fix: wrap the root column of arrays and maps that stem
 from a union

The test for an array or map looked at the tag before its union was collapsed,
so the fields of a nullable array of objects became the columns of the table.
---
 src/bigquery.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigquery.rs b/src/bigquery.rs
index d844498..f94a573 100644
--- a/src/bigquery.rs
+++ b/src/bigquery.rs
@@ -227,11 +227,11 @@ impl TranslateFrom<ast::Tag> for Schema {
     type Error = &'static str;
 
     fn translate_from(tag: ast::Tag, context: &Context) -> Result<Self, Self::Error> {
-        let mut bq_tag = Tag::translate_from(tag.clone(), context).unwrap();
+        let mut bq_tag = Tag::translate_from(tag, context).unwrap();
         match *bq_tag.data_type {
             // Maps and arrays are both treated as a Record type with different
             // modes. These should not be extracted if they are the root-type.
-            Type::Record(_) if tag.is_array() || tag.is_map() => {
+            Type::Record(_) if matches!(bq_tag.mode, Mode::Repeated) => {
                 assert!(bq_tag.name.is_none());
                 bq_tag.name = Some(DEFAULT_COLUMN.into());
                 Ok(Schema::Root(vec![bq_tag]))
-- 
2.43.0


From 1f60f9c98a22f9b8c204a90b09c634e8c65c23e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 10/14] fix: treat empty patternProperties as under-specified

It was an empty union, which panics regardless of the resolve method.
---
 src/jsonschema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 5977f46..47e7051 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -260,7 +260,7 @@ impl Tag {
                             description,
                             title,
                         ),
-                        (_, Some(tag)) => {
+                        (_, Some(tag)) if !tag.is_empty() => {
                             let items: Result<Vec<_>, _> =
                                 tag.values().map(|v| v.type_into_ast(context)).collect();
                             let union = ast::Tag::new(
-- 
2.43.0


From 4838c57c3e16d386cb13a13deaa881b091b57b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 11/14] fix: drop the whole tuple in Avro when one of its items
 is dropped

Leaving out a single item gave a record that no tuple fits, and disagreed with
the BigQuery schema, where the tuple is dropped.
---
 src/avro.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/avro.rs b/src/avro.rs
index 388bfa9..3351940 100644
--- a/src/avro.rs
+++ b/src/avro.rs
@@ -193,24 +193,18 @@ impl TranslateFrom<ast::Tag> for Type {
                 }
             }
             ast::Type::Tuple(tuple) => {
-                let fields = tuple
+                let fields: Result<Vec<Field>, String> = tuple
                     .items
                     .iter()
                     .enumerate()
                     .map(|(i, v)| {
                         let default = if v.nullable { Some(json!(null)) } else { None };
-                        (
-                            format!("f{}_", i),
-                            Type::translate_from(v.clone(), context),
+                        Ok(Field {
+                            name: format!("f{}_", i),
+                            data_type: Type::translate_from(v.clone(), context)?,
                             default,
-                        )
-                    })
-                    .filter(|(_, v, _)| v.is_ok())
-                    .map(|(name, data_type, default)| Field {
-                        name,
-                        data_type: data_type.unwrap(),
-                        default,
-                        ..Default::default()
+                            ..Default::default()
+                        })
                     })
                     .collect();
                 let record = Record {
@@ -219,7 +213,8 @@ impl TranslateFrom<ast::Tag> for Type {
                         namespace: tag.namespace.clone(),
                         ..Default::default()
                     },
-                    fields,
+                    // items are positional, so the tuple is dropped as a whole
+                    fields: fields?,
                 };
                 if record.common.name == "__UNNAMED__" {
                     warn!("{} - Unnamed field", tag.fully_qualified_name());
-- 
2.43.0


From 76ee96074597f7b97aba85cb80209bd843e8adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 12/14] fix: a nested union of nulls only makes a union
 nullable

It became a null alternative after the nulls had been removed, which made the
union incompatible.
---
 src/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index f282764..7df34c5 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -115,10 +115,9 @@ impl Union {
             };
         }
 
-        let items: Vec<Tag> = self
+        let mut items: Vec<Tag> = self
             .items
             .iter()
-            .filter(|x| !x.is_null())
             .map(|x| {
                 let mut tag = x.clone();
                 tag.collapse();
@@ -129,6 +128,7 @@ impl Union {
         // after collapsing nulls in the base case and collapsing nested unions in
         // the pre-processing step, check for nullability based on the immediate level of tags
         let nullable = is_null || items.iter().any(|tag| tag.nullable);
+        items.retain(|tag| !tag.is_null());
 
         let data_type: Type = if items.len() == 1 {
             items[0].data_type.clone()
-- 
2.43.0


From c6b24b687ed5f261d668bef2185945706f4c3685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 13/14] fix: replace namespaces left over from a collapsed
 union at the root

The column paths below a union at the root of a BigQuery schema kept a
prefix that the union had given them, so that no json_object_path_regex
could select them.
---
 src/ast.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 7df34c5..0cd0101 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -443,9 +443,12 @@ impl Tag {
     /// Sets a tag with references to the name and the namespace.
     fn set_name(&mut self, name: &str, namespace: &str) {
         self.name = Some(name.to_string());
-        if !namespace.is_empty() {
-            self.namespace = Some(namespace.to_string());
-        }
+        // a namespace from an earlier pass e.g. of a collapsed union is replaced
+        self.namespace = if namespace.is_empty() {
+            None
+        } else {
+            Some(namespace.to_string())
+        };
     }
 
     /// A helper function for calculating the names and namespaces within the
-- 
2.43.0


From 412a8c55184cc2f12f6abfb48567307e75881357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 14/14] fix: treat an empty tuple like an empty object

A record needs at least one field in Avro and in BigQuery; the root tuple
became a table without columns.
---
 src/avro.rs     | 2 ++
 src/bigquery.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/avro.rs b/src/avro.rs
index 3351940..07907b6 100644
--- a/src/avro.rs
+++ b/src/avro.rs
@@ -192,6 +192,8 @@ impl TranslateFrom<ast::Tag> for Type {
                     Type::Complex(Complex::Record(record))
                 }
             }
+            // a record needs at least one field
+            ast::Type::Tuple(tuple) if tuple.items.is_empty() => handle_error("empty tuple")?,
             ast::Type::Tuple(tuple) => {
                 let fields: Result<Vec<Field>, String> = tuple
                     .items
diff --git a/src/bigquery.rs b/src/bigquery.rs
index f94a573..a85d255 100644
--- a/src/bigquery.rs
+++ b/src/bigquery.rs
@@ -119,6 +119,8 @@ impl TranslateFrom<ast::Tag> for Tag {
                     Type::Record(Record { fields })
                 }
             }
+            // a record needs at least one column
+            ast::Type::Tuple(tuple) if tuple.items.is_empty() => handle_error("empty tuple")?,
             ast::Type::Tuple(tuple) => {
                 let fields: Result<Vec<_>, _> = tuple
                     .items
-- 
2.43.0

