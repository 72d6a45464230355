From 1eaf60424b85590f8b07431a5e5872ba65d4e429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 01/32] fix: do not panic on an empty property name

An empty name is not a valid column name and is now omitted like any other.
---
 src/ast.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index f350af5..ef3c074 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -355,10 +355,9 @@ impl Tag {
 
     /// If a name starts with a number, prefix it with an underscore.
     fn normalize_numeric_prefix(name: String) -> String {
-        if name.chars().next().unwrap().is_numeric() {
-            format!("_{}", name)
-        } else {
-            name
+        match name.chars().next() {
+            Some(c) if c.is_numeric() => format!("_{}", name),
+            _ => name,
         }
     }
 
-- 
2.43.0


From 56594146dc28e695e22f3772bc26c2c239cbbc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 02/32] fix: keep names without letters or digits when
 normalizing case

Snake casing such a name (e.g. `_`) gave an empty name, which panicked.
---
 src/ast.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index ef3c074..af91cc1 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -374,6 +374,21 @@ impl Tag {
         }
     }
 
+    /// Normalize the case of a valid column name.
+    ///
+    /// A name without any letters or digits (e.g. `_`) has no words to put into
+    /// snake_case and is kept as it is.
+    fn normalize_name_case(name: &str) -> String {
+        // snake_casing strips symbols outside of word
+        // boundaries e.g. _64bit -> 64bit
+        let renamed = Tag::normalize_numeric_prefix(to_snake_case(name));
+        if renamed.is_empty() {
+            name.to_string()
+        } else {
+            renamed
+        }
+    }
+
     /// Fix properties of an object to adhere the BigQuery column name
     /// specification.
     ///
@@ -393,9 +408,7 @@ impl Tag {
                 // Replace property names with the normalized property name
                 if let Some(mut renamed) = Tag::normalize_name_bigquery(&key) {
                     renamed = if normalize_case {
-                        // snake_casing strips symbols outside of word
-                        // boundaries e.g. _64bit -> 64bit
-                        Tag::normalize_numeric_prefix(to_snake_case(&renamed))
+                        Tag::normalize_name_case(&renamed)
                     } else {
                         renamed
                     };
@@ -422,7 +435,7 @@ impl Tag {
                         Some(
                             renamed
                                 .iter()
-                                .map(|s| Tag::normalize_numeric_prefix(to_snake_case(s)))
+                                .map(|s| Tag::normalize_name_case(s))
                                 .collect(),
                         )
                     } else {
-- 
2.43.0


From 0a184cee117ead5ec4a0e9c5d19e4389ecafe20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 03/32] fix: make the result of colliding property names
 deterministic

Properties were renamed in the random order of the hash map, so which of e.g.
`a-b` and `a.b` ended up as `a_b` differed between runs.
---
 src/ast.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index af91cc1..50ad492 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -402,7 +402,10 @@ impl Tag {
     pub fn normalize_properties(&mut self, normalize_case: bool) {
         if let Type::Object(ref mut object) = self.data_type {
             let fields = &mut object.fields;
-            let keys: Vec<String> = fields.keys().cloned().collect();
+            let mut keys: Vec<String> = fields.keys().cloned().collect();
+            // Several names may be normalized into the same one, so the order
+            // decides which one of them is kept.
+            keys.sort();
 
             for key in keys {
                 // Replace property names with the normalized property name
-- 
2.43.0


From caff2cea34417124d9460352914500b04c633aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 04/32] fix: do not require a field that some oneOf variant
 does not require

A variant without a `required` section made the merged object require
the fields of the other variants.
---
 src/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 50ad492..d81bc2f 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -190,7 +190,8 @@ impl Union {
                                     (Some(x), Some(y)) => {
                                         Some(x.intersection(y).map(ToString::to_string).collect())
                                     }
-                                    (Some(x), None) | (None, Some(x)) => Some(x.clone()),
+                                    // a variant without a required section
+                                    // does not require any field
                                     _ => None,
                                 };
                             Type::Object(Object::new(result, required))
-- 
2.43.0


From 1c5b616f55a9a2dae667c2ca27ecd38daa2c88a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 05/32] fix: collapse a union of equal datetime or bytes atoms
 into that atom

---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index d81bc2f..35d33ad 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -145,6 +145,8 @@ impl Union {
                             | (Atom::Integer, Atom::Number)
                             | (Atom::Number, Atom::Integer) => Atom::Number,
                             (Atom::String, Atom::String) => Atom::String,
+                            (Atom::Datetime, Atom::Datetime) => Atom::Datetime,
+                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,
                             (lhs, rhs) => {
                                 trace!("Invalid union collapse of atoms {:?} and {:?}", lhs, rhs);
                                 Atom::Json
-- 
2.43.0


From 86d2955e4aa15ec96d9200d75aa24bad4404fd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 06/32] fix: anchor every alternative of json_object_path_regex

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 591a434..e7c2ad7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -70,8 +70,9 @@ impl Context {
         self.json_object_path_regex
             .as_ref()
             .map(|object_regex| {
-                // Ensure we match from the beginning of the string
-                let re = format!(r"\A{}", object_regex);
+                // Ensure we match from the beginning of the string, for every
+                // alternative of the expression
+                let re = format!(r"\A(?:{})", object_regex);
                 let json_object_path_re = Regex::new(&re).unwrap();
                 json_object_path_re.is_match(fqn)
             })
-- 
2.43.0


From 88088f79015785bfde66365cfbe749e343459b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 07/32] fix: wrap a root array or map that is written as a
 union

The fields of e.g. a nullable array of objects were extracted into top-level
columns, which lost the repetition.
---
 src/bigquery.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bigquery.rs b/src/bigquery.rs
index d844498..efa6ba7 100644
--- a/src/bigquery.rs
+++ b/src/bigquery.rs
@@ -227,11 +227,13 @@ impl TranslateFrom<ast::Tag> for Schema {
     type Error = &'static str;
 
     fn translate_from(tag: ast::Tag, context: &Context) -> Result<Self, Self::Error> {
-        let mut bq_tag = Tag::translate_from(tag.clone(), context).unwrap();
+        let mut bq_tag = Tag::translate_from(tag, context).unwrap();
         match *bq_tag.data_type {
             // Maps and arrays are both treated as a Record type with different
             // modes. These should not be extracted if they are the root-type.
-            Type::Record(_) if tag.is_array() || tag.is_map() => {
+            // The root may only turn out to be one of these once its union has been
+            // collapsed, so rely on the mode of the translated tag.
+            Type::Record(_) if matches!(bq_tag.mode, Mode::Repeated) => {
                 assert!(bq_tag.name.is_none());
                 bq_tag.name = Some(DEFAULT_COLUMN.into());
                 Ok(Schema::Root(vec![bq_tag]))
-- 
2.43.0


From 3a8254918a0ffa2eb4beedc4536fd9651de770fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 08/32] fix: do not panic on empty patternProperties

An object with an empty patternProperties section is under-specified and
is now handled by the resolution method, as if the section was missing.
---
 src/jsonschema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 5977f46..47e7051 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -260,7 +260,7 @@ impl Tag {
                             description,
                             title,
                         ),
-                        (_, Some(tag)) => {
+                        (_, Some(tag)) if !tag.is_empty() => {
                             let items: Result<Vec<_>, _> =
                                 tag.values().map(|v| v.type_into_ast(context)).collect();
                             let union = ast::Tag::new(
-- 
2.43.0


From 2699d0695dd0e8425d936495181b0ef5777777e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 09/32] fix: collapse unions that are nested below a union

Unions inside of the variants of a union were only collapsed if they were
directly nested and had at least one sibling. Those below a field, an array or a
map (e.g. a nullable field of a nullable object) were left in place, and were
cast to a string in avro. The variant of a union with a single non-null variant
is now kept as it is, including its nullability.
---
 src/ast.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 35d33ad..18395f4 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -101,16 +101,6 @@ impl Union {
 
         if self.items.is_empty() {
             panic!("empty union is not allowed")
-        } else if self.items.len() == 1 {
-            return Tag {
-                name: None,
-                namespace: None,
-                nullable: is_null,
-                is_root: false,
-                data_type: self.items[0].data_type.clone(),
-                description: None,
-                title: None,
-            };
         }
 
         let items: Vec<Tag> = self
@@ -118,13 +108,10 @@ impl Union {
             .iter()
             .filter(|x| !x.is_null())
             .map(|x| {
-                if let Type::Union(union) = &x.data_type {
-                    let mut tag = union.collapse();
-                    tag.name = x.name.clone();
-                    tag
-                } else {
-                    x.clone()
-                }
+                // there may be further unions at any level below this one
+                let mut tag = x.clone();
+                tag.collapse();
+                tag
             })
             .collect();
 
@@ -132,7 +119,11 @@ impl Union {
         // the pre-processing step, check for nullability based on the immediate level of tags
         let nullable = is_null || items.iter().any(|tag| tag.nullable);
 
-        let data_type: Type = if items.iter().all(Tag::is_atom) {
+        let data_type: Type = if items.len() == 1 {
+            // nothing to factor out, this also preserves types that are
+            // otherwise incompatible in a union (e.g. tuples)
+            items[0].data_type.clone()
+        } else if items.iter().all(Tag::is_atom) {
             items
                 .into_iter()
                 .fold(Type::Null, |acc, x| match (acc, &x.data_type) {
-- 
2.43.0


From a32c7fcf632083feadaf92d6a937b074ffd9c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 10/32] fix: keep optional tuple items nullable when they are
 unions

---
 src/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 18395f4..4f856da 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -573,7 +573,8 @@ impl Tag {
             Type::Union(union) => {
                 let tag = union.collapse();
                 self.data_type = tag.data_type;
-                self.nullable = tag.nullable;
+                // the tag itself may be optional, e.g. as the item of a tuple
+                self.nullable |= tag.nullable;
             }
             _ => (),
         }
-- 
2.43.0


From b53218b114bc06a405e779320d1f529c1575acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:03 +0000
Subject: [PATCH 11/32] fix: ignore alternatives that collapse to null when
 merging a union

---
 src/ast.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 4f856da..8d0bdde 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -97,16 +97,13 @@ impl Union {
     /// be consumed by the JSON type. In a similar fashion, a table schema is determined
     /// to be nullable or required via occurrences of null types in unions.
     pub fn collapse(&self) -> Tag {
-        let is_null = self.items.iter().any(Tag::is_null);
-
         if self.items.is_empty() {
             panic!("empty union is not allowed")
         }
 
-        let items: Vec<Tag> = self
+        let collapsed: Vec<Tag> = self
             .items
             .iter()
-            .filter(|x| !x.is_null())
             .map(|x| {
                 // there may be further unions at any level below this one
                 let mut tag = x.clone();
@@ -114,6 +111,8 @@ impl Union {
                 tag
             })
             .collect();
+        let is_null = collapsed.iter().any(Tag::is_null);
+        let items: Vec<Tag> = collapsed.into_iter().filter(|x| !x.is_null()).collect();
 
         // after collapsing nulls in the base case and collapsing nested unions in
         // the pre-processing step, check for nullability based on the immediate level of tags
-- 
2.43.0


From 36b5f5ecfc16a35c3b2163d9507926e5ae63f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 12/32] fix: do not keep the namespace of alternatives below a
 root union

---
 src/ast.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 8d0bdde..96ddf76 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -446,9 +446,12 @@ impl Tag {
     /// Sets a tag with references to the name and the namespace.
     fn set_name(&mut self, name: &str, namespace: &str) {
         self.name = Some(name.to_string());
-        if !namespace.is_empty() {
-            self.namespace = Some(namespace.to_string());
-        }
+        // replaces the namespace that is left from before a union was collapsed
+        self.namespace = if namespace.is_empty() {
+            None
+        } else {
+            Some(namespace.to_string())
+        };
     }
 
     /// A helper function for calculating the names and namespaces within the
-- 
2.43.0


From 02dfd8d78e84597bf6d978f13efe7301ae8fe45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 13/32] fix: keep null values of nullable fields in the sample
 data

---
 scripts/mps-generate-avro-data-helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/mps-generate-avro-data-helper.py b/scripts/mps-generate-avro-data-helper.py
index cc29d1e..95d5164 100755
--- a/scripts/mps-generate-avro-data-helper.py
+++ b/scripts/mps-generate-avro-data-helper.py
@@ -60,6 +60,8 @@ def convert(data, schema):
         return out
 
     if schema.type == "union":
+        if data is None:
+            return None
         for sub in schema.schemas:
             if sub.type == "null":
                 continue
-- 
2.43.0


From d7c9706b352e8fcd95ef9228bd967249eff0dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 14/32] fix: keep empty nested lists in the sample data

---
 scripts/mps-generate-avro-data-helper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/mps-generate-avro-data-helper.py b/scripts/mps-generate-avro-data-helper.py
index 95d5164..7182cf6 100755
--- a/scripts/mps-generate-avro-data-helper.py
+++ b/scripts/mps-generate-avro-data-helper.py
@@ -41,12 +41,12 @@ def convert(data, schema):
     if schema.type == "record":
         # iterate over all keys
         out = {}
-        if not data:
-            return out
-
         # convert a nested
         if isinstance(data, list) and set(schema.field_map.keys()) == {"list"}:
             data = {"list": data}
+        if not data:
+            return out
+
         # cast tuple into an object before continuing
         if isinstance(data, list):
             data = {f"f{i}_": v for i, v in enumerate(data)}
-- 
2.43.0


From b81f9952ba02c7a2cf2412c6692074c0e6335e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 15/32] fix: encode strings of bytes fields in the sample data

---
 scripts/mps-generate-avro-data-helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/mps-generate-avro-data-helper.py b/scripts/mps-generate-avro-data-helper.py
index 7182cf6..574709c 100755
--- a/scripts/mps-generate-avro-data-helper.py
+++ b/scripts/mps-generate-avro-data-helper.py
@@ -38,6 +38,10 @@ def convert(data, schema):
         if not isinstance(data, str):
             return json.dumps(data)
 
+    if schema.type == "bytes":
+        if isinstance(data, str):
+            return data.encode("utf-8")
+
     if schema.type == "record":
         # iterate over all keys
         out = {}
-- 
2.43.0


From 763038f8006ff8838f1c76fa36b04c3daa697441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 16/32] fix: resolve a tuple without any items like an empty
 object

---
 src/avro.rs     | 29 +++++++++++++++++------------
 src/bigquery.rs | 10 +++++++---
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/avro.rs b/src/avro.rs
index 388bfa9..7b5a60a 100644
--- a/src/avro.rs
+++ b/src/avro.rs
@@ -193,7 +193,7 @@ impl TranslateFrom<ast::Tag> for Type {
                 }
             }
             ast::Type::Tuple(tuple) => {
-                let fields = tuple
+                let fields: Vec<Field> = tuple
                     .items
                     .iter()
                     .enumerate()
@@ -213,18 +213,23 @@ impl TranslateFrom<ast::Tag> for Type {
                         ..Default::default()
                     })
                     .collect();
-                let record = Record {
-                    common: CommonAttributes {
-                        name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),
-                        namespace: tag.namespace.clone(),
-                        ..Default::default()
-                    },
-                    fields,
-                };
-                if record.common.name == "__UNNAMED__" {
-                    warn!("{} - Unnamed field", tag.fully_qualified_name());
+
+                if fields.is_empty() {
+                    handle_error("empty tuple")?
+                } else {
+                    let record = Record {
+                        common: CommonAttributes {
+                            name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),
+                            namespace: tag.namespace.clone(),
+                            ..Default::default()
+                        },
+                        fields,
+                    };
+                    if record.common.name == "__UNNAMED__" {
+                        warn!("{} - Unnamed field", tag.fully_qualified_name());
+                    }
+                    Type::Complex(Complex::Record(record))
                 }
-                Type::Complex(Complex::Record(record))
             }
             ast::Type::Array(array) => {
                 let child_is_array = matches!(&array.items.data_type, ast::Type::Array(_));
diff --git a/src/bigquery.rs b/src/bigquery.rs
index efa6ba7..bebbc00 100644
--- a/src/bigquery.rs
+++ b/src/bigquery.rs
@@ -138,9 +138,13 @@ impl TranslateFrom<ast::Tag> for Tag {
                     })
                     .collect();
 
-                Type::Record(Record {
-                    fields: named_fields,
-                })
+                if named_fields.is_empty() {
+                    handle_error("empty tuple")?
+                } else {
+                    Type::Record(Record {
+                        fields: named_fields,
+                    })
+                }
             }
             ast::Type::Array(array) => {
                 // workaround for nested lists
-- 
2.43.0


From e31c0ee2004123eb4d7309e0a7314944ada7f42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 17/32] fix: validation script runs the program by its current
 name and arguments

---
 scripts/mps-validate-avro-schemas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/mps-validate-avro-schemas.py b/scripts/mps-validate-avro-schemas.py
index 5620984..582ec5c 100755
--- a/scripts/mps-validate-avro-schemas.py
+++ b/scripts/mps-validate-avro-schemas.py
@@ -12,7 +12,7 @@ import avro.schema
 
 
 ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
-BIN = "target/debug/jsonschema_transpiler"
+BIN = "target/debug/jsonschema-transpiler"
 
 
 def build():
@@ -25,7 +25,7 @@ def avro_schema(path):
     schema = None
     try:
         data = subprocess.check_output(
-            [BIN, "--from-file", path, "--type", "avro"], stderr=subprocess.DEVNULL
+            [BIN, path, "--type", "avro"], stderr=subprocess.DEVNULL
         )
         schema = json.loads(data)
     except subprocess.CalledProcessError:
-- 
2.43.0


From f8d5869b408469ceda8fa318c7c919d9ab2ec261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 18/32] fix: data helper reports failure when a document cannot
 be read or converted

---
 scripts/mps-generate-avro-data-helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/mps-generate-avro-data-helper.py b/scripts/mps-generate-avro-data-helper.py
index 574709c..b5671c5 100755
--- a/scripts/mps-generate-avro-data-helper.py
+++ b/scripts/mps-generate-avro-data-helper.py
@@ -116,5 +116,7 @@ except:
     with open("test-schema.json", "w") as f:
         json.dump(schema.to_json(), f, indent=2)
     validation.validate(out, parse_schema(schema.to_json()))
+    # the last document that was converted is fine, the one that failed is not
+    raise
 
 writer.close()
-- 
2.43.0


From cd4b0d8465581ee5257357b56684531e9a009fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 19/32] fix: refuse an empty oneOf or type list below columns
 that are left out

---
 src/jsonschema.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 47e7051..1c24be1 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -140,6 +140,9 @@ impl Tag {
         match self.get_type() {
             Type::Atom(atom) => self.atom_into_ast(atom, context),
             Type::List(list) => {
+                if list.is_empty() {
+                    return Err("empty union is not allowed");
+                }
                 let mut nullable: bool = false;
                 let mut items: Vec<ast::Tag> = Vec::new();
                 for atom in list {
@@ -282,6 +285,9 @@ impl Tag {
                             // handle oneOf
                             match &self.one_of {
                                 Some(vec) => {
+                                    if vec.is_empty() {
+                                        return Err("empty union is not allowed");
+                                    }
                                     let items: Result<Vec<_>, _> = vec
                                         .iter()
                                         .map(|item| item.type_into_ast(context))
-- 
2.43.0


From 81e82bf03adcbb7f754f4d3a53de937ebfdcbe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 20/32] fix: load data files whose name contains avro

---
 scripts/mps-load-avro-bq.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mps-load-avro-bq.sh b/scripts/mps-load-avro-bq.sh
index a172c61..0627fa9 100755
--- a/scripts/mps-load-avro-bq.sh
+++ b/scripts/mps-load-avro-bq.sh
@@ -14,7 +14,7 @@ error=0
 skip=0
 
 trap "exit" INT
-for document in $(ls avro-data | sed 's/.avro//'); do
+for document in $(ls avro-data | sed 's/\.avro$//'); do
     # downcase hyphens to underscores before generating names
     bq_document=$(echo $document | sed 's/-/_/g')
     namespace=$(echo $bq_document | cut -d. -f1)
-- 
2.43.0


From a2820e88fb715bb4ca20c8ddba692ff593f4b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 21/32] fix: skip a load only when this very table exists

---
 scripts/mps-load-avro-bq.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mps-load-avro-bq.sh b/scripts/mps-load-avro-bq.sh
index 0627fa9..c374bc5 100755
--- a/scripts/mps-load-avro-bq.sh
+++ b/scripts/mps-load-avro-bq.sh
@@ -21,7 +21,7 @@ for document in $(ls avro-data | sed 's/\.avro$//'); do
     doctype=$(echo $bq_document | cut -d. -f2)
     docver=$(echo $bq_document | cut -d. -f3)
 
-    table_exists=$(bq ls ${dataset_id} | grep ${namespace}__${doctype}_v${docver})
+    table_exists=$(bq ls ${dataset_id} | grep -w ${namespace}__${doctype}_v${docver})
 
     if [[ ! -z ${SKIP_EXISTING+x} ]] && [[ ! -z ${table_exists} ]]; then
         echo "skipping bq load for ${document}"
-- 
2.43.0


From 392a34b495ae4b625cf39aff75b32500ea898cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 22/32] fix: encode data files whose name contains ndjson

---
 scripts/mps-generate-avro-data.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mps-generate-avro-data.sh b/scripts/mps-generate-avro-data.sh
index cce741a..4a0c8fa 100755
--- a/scripts/mps-generate-avro-data.sh
+++ b/scripts/mps-generate-avro-data.sh
@@ -2,7 +2,7 @@
 
 cd "$(dirname "$0")/.." || exit
 
-documents=$(ls data | sed 's/.ndjson//')
+documents=$(ls data | sed 's/\.ndjson$//')
 
 total=0
 failed=0
-- 
2.43.0


From 7f71a78b9356fb118072956dea8dc9cdcd4ab2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 23/32] fix: keep the sampled documents of all objects of a
 document type

---
 scripts/mps-download-sampled-data.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/mps-download-sampled-data.py b/scripts/mps-download-sampled-data.py
index 622812f..12e4bc9 100755
--- a/scripts/mps-download-sampled-data.py
+++ b/scripts/mps-download-sampled-data.py
@@ -60,6 +60,9 @@ if __name__ == "__main__":
     objs = s3.list_objects(Bucket=bucket, Prefix=prefix)
     keys = [obj["Key"] for obj in objs["Contents"] if obj["Key"].endswith(".json")]
 
+    # a document type may be split into several objects
+    written = set()
+
     for key in keys:
         schema_name = get_schema_name(key)
         if not schema_name in schemas:
@@ -71,7 +74,9 @@ if __name__ == "__main__":
         )
         lines = data.split("\n")
 
-        with open(f"{output_folder}/{schema_name}.ndjson", "w") as fp:
+        mode = "a" if schema_name in written else "w"
+        written.add(schema_name)
+        with open(f"{output_folder}/{schema_name}.ndjson", mode) as fp:
             errors = 0
             for line in lines:
                 # each of the lines contains metadata with a content field
-- 
2.43.0


From cd0dc71fa41635111040b40fd60af43f2d4d6b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 24/32] fix: download all sampled objects, not only the first
 thousand

---
 scripts/mps-download-sampled-data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/mps-download-sampled-data.py b/scripts/mps-download-sampled-data.py
index 12e4bc9..61f4fbd 100755
--- a/scripts/mps-download-sampled-data.py
+++ b/scripts/mps-download-sampled-data.py
@@ -57,7 +57,9 @@ if __name__ == "__main__":
     prefix = "sanitized-landfill-sample/v3/submission_date_s3=20190310"
     s3 = boto3.client("s3")
 
-    objs = s3.list_objects(Bucket=bucket, Prefix=prefix)
+    # a single listing holds no more than 1000 objects
+    pages = s3.get_paginator("list_objects").paginate(Bucket=bucket, Prefix=prefix)
+    objs = pages.build_full_result()
     keys = [obj["Key"] for obj in objs["Contents"] if obj["Key"].endswith(".json")]
 
     # a document type may be split into several objects
-- 
2.43.0


From 14f2b850b337a337f064913ff4002cef11f627ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 25/32] fix: do not use the program of an earlier build when
 the build fails

---
 scripts/mps-generate-schemas.sh      | 2 +-
 scripts/mps-validate-avro-schemas.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/mps-generate-schemas.sh b/scripts/mps-generate-schemas.sh
index 33a010b..5516195 100755
--- a/scripts/mps-generate-schemas.sh
+++ b/scripts/mps-generate-schemas.sh
@@ -8,7 +8,7 @@ if [[ ! -d "schemas/" ]]; then
     exit 1
 fi
 
-cargo build
+cargo build || exit
 bin="target/debug/jsonschema-transpiler"
 
 schemas=$(find schemas/ -name "*.schema.json")
diff --git a/scripts/mps-validate-avro-schemas.py b/scripts/mps-validate-avro-schemas.py
index 582ec5c..1a02621 100755
--- a/scripts/mps-validate-avro-schemas.py
+++ b/scripts/mps-validate-avro-schemas.py
@@ -17,7 +17,7 @@ BIN = "target/debug/jsonschema-transpiler"
 
 def build():
     """Initialize a build of the transpiler."""
-    subprocess.call(["cargo", "build"])
+    subprocess.check_call(["cargo", "build"])
 
 
 def avro_schema(path):
-- 
2.43.0


From 47c22aea97f2c232a2667f39b1f1619085490353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 26/32] fix: compare with the control version only when it is
 checked out

---
 scripts/mps-verify-nested-list.sh  | 4 ++--
 scripts/mps-verify-tuple-struct.sh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/mps-verify-nested-list.sh b/scripts/mps-verify-nested-list.sh
index 7d8e2c0..a0d7c3e 100755
--- a/scripts/mps-verify-nested-list.sh
+++ b/scripts/mps-verify-nested-list.sh
@@ -1,6 +1,6 @@
 #!/bin/bash
 
-cd "$(dirname "$0").."
+cd "$(dirname "$0")/.." || exit
 
 datadir=$(mktemp -d -t tmp.XXXXXXXXXX)
 function cleanup {
@@ -23,7 +23,7 @@ bq_tuple=$datadir/bq-tuple
 
 
 # get control values
-git checkout v1.5.0
+git checkout v1.5.0 || exit
 
 scripts/mps-generate-schemas.sh $avro_no_tuple_control --type avro --resolve drop
 scripts/mps-generate-schemas.sh $avro_tuple_control --type avro --resolve drop --tuple-struct
diff --git a/scripts/mps-verify-tuple-struct.sh b/scripts/mps-verify-tuple-struct.sh
index b1692c4..a5a7a8f 100755
--- a/scripts/mps-verify-tuple-struct.sh
+++ b/scripts/mps-verify-tuple-struct.sh
@@ -1,6 +1,6 @@
 #!/bin/bash
 
-cd "$(dirname "$0").."
+cd "$(dirname "$0")/.." || exit
 
 datadir=$(mktemp -d -t tmp.XXXXXXXXXX)
 function cleanup {
@@ -21,7 +21,7 @@ bq_tuple=$datadir/bq-tuple
 
 
 # get control values
-git checkout v1.4.1
+git checkout v1.4.1 || exit
 
 scripts/mps-generate-schemas.sh $avro_control --type avro --resolve drop
 scripts/mps-generate-schemas.sh $bq_control --type bigquery --resolve drop
-- 
2.43.0


From cb6199ba32d7fc498413881b8a671c2f34d49845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 27/32] fix: refuse a type that is neither a name nor a list of
 names

---
 src/jsonschema.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 1c24be1..019e736 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -128,11 +128,15 @@ impl Tag {
             (Value::Array(array), _) => {
                 let list: Vec<Atom> = array
                     .iter()
-                    .map(|v| serde_json::from_value(json!(v)).unwrap())
+                    .map(|v| match v {
+                        Value::String(_) => serde_json::from_value(json!(v)).unwrap(),
+                        _ => panic!("type must be a list of strings, found {}", v),
+                    })
                     .collect();
                 Type::List(list)
             }
-            _ => Type::Atom(Atom::Object),
+            (Value::Null, _) => Type::Atom(Atom::Object),
+            (value, _) => panic!("type must be a string or a list of strings, found {}", value),
         }
     }
 
-- 
2.43.0


From 9f2dc035eefa56de06454bc356b1e21f587eaab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 28/32] fix: refuse a format that is not a string

---
 src/jsonschema.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 019e736..453a485 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -78,16 +78,26 @@ struct Array {
 }
 
 #[derive(Serialize, Deserialize, Debug, PartialEq)]
-#[serde(rename_all = "kebab-case")]
+#[serde(rename_all = "kebab-case", from = "String")]
 enum Format {
     DateTime,
     // Custom format value for casting strings into byte-strings
     Bytes,
     Json,
-    #[serde(other)]
     Other,
 }
 
+impl From<String> for Format {
+    fn from(format: String) -> Self {
+        match format.as_str() {
+            "date-time" => Format::DateTime,
+            "bytes" => Format::Bytes,
+            "json" => Format::Json,
+            _ => Format::Other,
+        }
+    }
+}
+
 /// Container for the main body of the schema.
 #[derive(Serialize, Deserialize, Debug, Default)]
 #[serde(rename_all = "camelCase", tag = "type")]
-- 
2.43.0


From 9541ed547cc53022ecaaf7c6a5a427373a89224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 29/32] fix: warn about an unnamed record only when it has no
 name

---
 src/avro.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avro.rs b/src/avro.rs
index 7b5a60a..c34e339 100644
--- a/src/avro.rs
+++ b/src/avro.rs
@@ -186,7 +186,7 @@ impl TranslateFrom<ast::Tag> for Type {
                         },
                         fields,
                     };
-                    if record.common.name == "__UNNAMED__" {
+                    if tag.name.is_none() {
                         warn!("{} - Unnamed field", tag.fully_qualified_name());
                     }
                     Type::Complex(Complex::Record(record))
@@ -225,7 +225,7 @@ impl TranslateFrom<ast::Tag> for Type {
                         },
                         fields,
                     };
-                    if record.common.name == "__UNNAMED__" {
+                    if tag.name.is_none() {
                         warn!("{} - Unnamed field", tag.fully_qualified_name());
                     }
                     Type::Complex(Complex::Record(record))
-- 
2.43.0


From 37e79cb19b996924d16a612a0d678871da084938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 30/32] fix: sample download stopped at an empty part or an
 empty listing

An empty object has no lines, rather than one line that is not JSON, and the
result of a listing without objects has no Contents.
---
 scripts/mps-download-sampled-data.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/mps-download-sampled-data.py b/scripts/mps-download-sampled-data.py
index 61f4fbd..015c8d5 100755
--- a/scripts/mps-download-sampled-data.py
+++ b/scripts/mps-download-sampled-data.py
@@ -60,7 +60,11 @@ if __name__ == "__main__":
     # a single listing holds no more than 1000 objects
     pages = s3.get_paginator("list_objects").paginate(Bucket=bucket, Prefix=prefix)
     objs = pages.build_full_result()
-    keys = [obj["Key"] for obj in objs["Contents"] if obj["Key"].endswith(".json")]
+    keys = [
+        obj["Key"]
+        for obj in objs.get("Contents", [])
+        if obj["Key"].endswith(".json")
+    ]
 
     # a document type may be split into several objects
     written = set()
@@ -74,7 +78,8 @@ if __name__ == "__main__":
         data = (
             s3.get_object(Bucket=bucket, Key=key)["Body"].read().decode("utf-8").strip()
         )
-        lines = data.split("\n")
+        # a part of the sample may be empty
+        lines = data.split("\n") if data else []
 
         mode = "a" if schema_name in written else "w"
         written.add(schema_name)
-- 
2.43.0


From 27979b06ff1b17659132302a202979f35b265e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 31/32] fix: tables past the fiftieth were taken for missing

---
 scripts/mps-load-avro-bq.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mps-load-avro-bq.sh b/scripts/mps-load-avro-bq.sh
index c374bc5..cba2811 100755
--- a/scripts/mps-load-avro-bq.sh
+++ b/scripts/mps-load-avro-bq.sh
@@ -21,7 +21,7 @@ for document in $(ls avro-data | sed 's/\.avro$//'); do
     doctype=$(echo $bq_document | cut -d. -f2)
     docver=$(echo $bq_document | cut -d. -f3)
 
-    table_exists=$(bq ls ${dataset_id} | grep -w ${namespace}__${doctype}_v${docver})
+    table_exists=$(bq ls -n 100000 ${dataset_id} | grep -w ${namespace}__${doctype}_v${docver})
 
     if [[ ! -z ${SKIP_EXISTING+x} ]] && [[ ! -z ${table_exists} ]]; then
         echo "skipping bq load for ${document}"
-- 
2.43.0


From 9024852b34cd6690c4e3ca8d9345b89ac9acf64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 32/32] fix: a single file became the object data of a fresh
 bucket

---
 scripts/mps-load-avro-bq.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mps-load-avro-bq.sh b/scripts/mps-load-avro-bq.sh
index cba2811..7fcaa5c 100755
--- a/scripts/mps-load-avro-bq.sh
+++ b/scripts/mps-load-avro-bq.sh
@@ -5,7 +5,7 @@ cd "$(dirname "$0")/.." || exit
 project_id=$(gcloud config get-value project)
 dataset_id="test_avro"
 
-gsutil -m cp avro-data/* gs://${project_id}/data
+gsutil -m cp avro-data/* gs://${project_id}/data/
 bq rm -rf $dataset_id
 bq mk $dataset_id
 
-- 
2.43.0

