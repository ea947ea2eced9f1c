From 499ceffcc018c9e853505f63102ed7213f6d4248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 01/46] fix: decode an empty object that has following siblings
 as empty

A 'key:' line with nothing nested below it swallowed its later siblings,
so {"a":{},"b":1} decoded as {"a":{"b":1}}.
---
 crates/toon/src/decode/parser.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index abd9ee3..30360dd 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -63,6 +63,21 @@ impl<'a> Parser<'a> {
         self.lines.get(self.idx)
     }
 
+    /// Indentation of the next non-blank line, if it is nested below `base`.
+    /// List items written at the same indentation as their key are accepted
+    /// when `allow_same_level_items` is set.
+    fn nested_indent(&self, base: usize, allow_same_level_items: bool) -> Option<usize> {
+        let line = self
+            .lines
+            .get(self.idx..)?
+            .iter()
+            .find(|l| !matches!(l.kind, LineKind::Blank))?;
+        let same_level = allow_same_level_items
+            && line.indent == base
+            && matches!(line.kind, LineKind::ListItem { .. });
+        (line.indent > base || same_level).then_some(line.indent)
+    }
+
     fn next(&mut self) -> Option<&ParsedLine<'a>> {
         let i = self.idx;
         self.idx += 1;
@@ -295,8 +310,12 @@ impl<'a> Parser<'a> {
                     let child_indent = indent + 2;
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
-                        // Value on following indented lines
-                        let v = self.parse_node(child_indent);
+                        // Value on lines nested below the key; siblings of the key are
+                        // aligned with it, so none of those means an empty object
+                        let v = match self.nested_indent(child_indent, true) {
+                            Some(nested) => self.parse_node(nested),
+                            None => Value::Object(Vec::new()),
+                        };
                         map.push((key, v));
                     } else {
                         map.push((key, self.parse_scalar_token(vraw)));
@@ -403,6 +422,11 @@ impl<'a> Parser<'a> {
                     }
                     self.next();
                     let k = self.parse_key_token(kref);
+                    // A key with nothing nested below it is an empty object
+                    if self.nested_indent(indent, true).is_none() {
+                        map.push((k, Value::Object(Vec::new())));
+                        continue;
+                    }
                     // Detect actual child indent from next line (supports non-multiple indentation in non-strict mode)
                     let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
                     let mut handled = false;
-- 
2.43.0


From 56ee11050e1246a0eb0ef57de7457cbf007ad3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 02/46] fix: do not encode arrays of empty objects as
 zero-column tables

'[{}]' was written as '[1]{}:' followed by blank rows, which no decoder
accepts; empty objects are bare '-' list items.
---
 crates/toon/src/encode/encoders.rs | 3 +++
 crates/toon/src/ser/stream.rs      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index c24d44c..9c3d546 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -735,6 +735,9 @@ pub fn is_tabular_array(arr: &[Value]) -> Option<Vec<String>> {
             if ks_sorted != kset_sorted {
                 return None;
             }
+        } else if kset.is_empty() {
+            // A table needs at least one column; empty objects are list items
+            return None;
         } else {
             // Use the key order from the first object
             keys = Some(kset);
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index a173101..d027320 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1397,6 +1397,9 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
             if *ks != kset {
                 return None;
             }
+        } else if kset.is_empty() {
+            // A table needs at least one column; empty objects are list items
+            return None;
         } else {
             keys = Some(kset);
         }
-- 
2.43.0


From 71ecc4ae4e8037af6aec6dc0adf7583926cb7046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 03/46] fix: bind array rows and items to the header they are
 nested under

An empty array as the first field of a list item claimed the following
items of the outer array, so [{"a":[]},null] did not decode.
---
 crates/toon/src/decode/parser.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 30360dd..d69f901 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -10,6 +10,9 @@ use alloc::{
 use crate::number::has_forbidden_leading_zeros;
 use crate::value::{Number, Value};
 
+/// Indentation that no line has: an array header with nothing nested below it
+const NO_CHILDREN: usize = usize::MAX;
+
 pub struct Parser<'a> {
     lines: Vec<ParsedLine<'a>>,
     idx: usize,
@@ -257,7 +260,7 @@ impl<'a> Parser<'a> {
                             let key_parsed = self.parse_key_token(key);
                             let child_indent = indent + 2;
                             let mut map: Vec<(String, Value)> = Vec::new();
-                            let v = self.parse_keyed_array_value(&header);
+                            let v = self.parse_keyed_array_value(&header, indent, false);
                             map.push((key_parsed, v));
                             // Parse any additional fields at child indent
                             if let Value::Object(mut rest) = self.parse_object(child_indent) {
@@ -361,7 +364,7 @@ impl<'a> Parser<'a> {
                                         .as_ref()
                                         .map(|k| self.parse_key_token(k))
                                         .unwrap_or_default();
-                                    let v = self.parse_keyed_array_value(&header);
+                                    let v = self.parse_keyed_array_value(&header, indent, true);
                                     map.push((k, v));
                                     continue;
                                 }
@@ -397,7 +400,7 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent, true);
                         map.push((k, v));
                         continue;
                     }
@@ -416,7 +419,7 @@ impl<'a> Parser<'a> {
                             .as_ref()
                             .map(|k| self.parse_key_token(k))
                             .unwrap_or_default();
-                        let v = self.parse_keyed_array_value(&header);
+                        let v = self.parse_keyed_array_value(&header, indent, true);
                         map.push((k, v));
                         continue;
                     }
@@ -990,9 +993,19 @@ impl<'a> Parser<'a> {
         self.parse_array_with_length_check(2, header.length, line_no)
     }
 
-    /// Parse the value for a keyed array header
-    fn parse_keyed_array_value(&mut self, header: &ArrayHeader) -> Value {
-        let header_line_no = self.idx; // Header was already consumed
+    /// Parse the value for an array header that was already consumed. Rows and items
+    /// belong to it only if they are nested below `base`, the indentation of its key.
+    fn parse_keyed_array_value(
+        &mut self,
+        header: &ArrayHeader,
+        base: usize,
+        allow_same_level_items: bool,
+    ) -> Value {
+        let header_line_no = self.idx;
+        let child_indent = match self.nested_indent(base, allow_same_level_items) {
+            Some(_) => self.peek().map(|l| l.indent).unwrap_or(base),
+            None => NO_CHILDREN,
+        };
 
         // In strict mode, check for delimiter mismatch between bracket and brace
         if self.strict && header.fields_delimiter_mismatch && self.error.is_none() {
@@ -1004,14 +1017,12 @@ impl<'a> Parser<'a> {
 
         // If there are fields, it's a tabular array
         if let Some(ref fields) = header.fields {
-            // Get current indent to determine row indent
-            let row_indent = self.peek().map(|l| l.indent).unwrap_or(2);
             let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
             return self.parse_tabular_rows(
                 header.length,
                 header.delimiter,
                 &fields_refs,
-                row_indent,
+                child_indent,
                 header_line_no,
             );
         }
@@ -1041,7 +1052,6 @@ impl<'a> Parser<'a> {
         }
 
         // Otherwise, parse list items at child indent
-        let child_indent = self.peek().map(|l| l.indent).unwrap_or(2);
         self.parse_array_with_length_check(child_indent, header.length, header_line_no)
     }
 
-- 
2.43.0


From adc29102a6ae6d273a0478424fdb739ccb8939ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 04/46] fix: check the declared length of nested arrays

The length of a keyless array inside a list item or below a key was
ignored, so '- [3]: 1,2' decoded without an error although every other
array header is checked.
---
 crates/toon/src/decode/parser.rs | 78 +++-----------------------------
 1 file changed, 6 insertions(+), 72 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index d69f901..1111cd0 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -269,41 +269,9 @@ impl<'a> Parser<'a> {
                             arr.push(Value::Object(map));
                             continue;
                         }
-                        // No key - this is an inline array like "- [N]{fields}:"
-                        if let Some(ref fields) = header.fields {
-                            let header_line_no = self.idx; // Already consumed the header
-                            let row_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
-                            let fields_refs: Vec<&str> =
-                                fields.iter().map(|s| s.as_str()).collect();
-                            arr.push(self.parse_tabular_rows(
-                                header.length,
-                                header.delimiter,
-                                &fields_refs,
-                                row_indent,
-                                header_line_no,
-                            ));
-                            continue;
-                        }
-                        if let Some(ref inline) = header.inline_values {
-                            if !inline.is_empty() {
-                                let values = split_delim_aware(inline, header.delimiter);
-                                arr.push(Value::Array(
-                                    values
-                                        .into_iter()
-                                        .map(|v| self.parse_scalar_token(v))
-                                        .collect(),
-                                ));
-                                continue;
-                            }
-                        }
-                        // Empty array: [0]: produces []
-                        if header.length == 0 {
-                            arr.push(Value::Array(Vec::new()));
-                            continue;
-                        }
-                        // Expanded array header: parse nested list items at child indent
-                        let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
-                        arr.push(self.parse_array(child_indent));
+                        // No key - this is a nested array like "- [N]: v1,v2"
+                        let v = self.parse_keyed_array_value(&header, indent, false);
+                        arr.push(v);
                         continue;
                     }
                 }
@@ -815,31 +783,8 @@ impl<'a> Parser<'a> {
                         if let Some(header) = parse_array_header(&with_colon) {
                             // This is a root-level array at this indent
                             if header.key.is_none() {
-                                let header_line_no = self.idx + 1;
                                 self.next();
-                                if let Some(ref fields) = header.fields {
-                                    let fields_refs: Vec<&str> =
-                                        fields.iter().map(|s| s.as_str()).collect();
-                                    return self.parse_tabular_rows(
-                                        header.length,
-                                        header.delimiter,
-                                        &fields_refs,
-                                        indent + 2,
-                                        header_line_no,
-                                    );
-                                }
-                                if let Some(ref inline) = header.inline_values {
-                                    if !inline.is_empty() {
-                                        let values = split_delim_aware(inline, header.delimiter);
-                                        return Value::Array(
-                                            values
-                                                .into_iter()
-                                                .map(|v| self.parse_scalar_token(v))
-                                                .collect(),
-                                        );
-                                    }
-                                }
-                                return self.parse_array(indent);
+                                return self.parse_keyed_array_value(&header, indent, true);
                             }
                         }
                     }
@@ -850,18 +795,7 @@ impl<'a> Parser<'a> {
                     if let Some(header) = parse_array_header(&combined) {
                         if header.key.is_none() {
                             self.next();
-                            if let Some(ref inline) = header.inline_values {
-                                if !inline.is_empty() {
-                                    let values = split_delim_aware(inline, header.delimiter);
-                                    return Value::Array(
-                                        values
-                                            .into_iter()
-                                            .map(|v| self.parse_scalar_token(v))
-                                            .collect(),
-                                    );
-                                }
-                            }
-                            return Value::Array(Vec::new());
+                            return self.parse_keyed_array_value(&header, indent, true);
                         }
                     }
                 }
@@ -994,7 +928,7 @@ impl<'a> Parser<'a> {
     }
 
     /// Parse the value for an array header that was already consumed. Rows and items
-    /// belong to it only if they are nested below `base`, the indentation of its key.
+    /// belong to it only if they are nested below `base`, the indentation of its line.
     fn parse_keyed_array_value(
         &mut self,
         header: &ArrayHeader,
-- 
2.43.0


From 45cee0e2222accfa62fea631ac3e77fc50c57152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 05/46] fix: accept the rows of a root array at any configured
 indentation

The body of a root array had to be indented by exactly two columns, so
documents written with Options::indent = 4 did not decode.
---
 crates/toon/src/decode/parser.rs | 41 +-------------------------------
 1 file changed, 1 insertion(+), 40 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 1111cd0..f938747 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -884,47 +884,8 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_root_array_with_header(&mut self, header: ArrayHeader) -> Value {
-        let line_no = self.idx + 1;
         self.next(); // Consume header line
-
-        if let Some(ref fields) = header.fields {
-            // Tabular array - rows at indent 2
-            let fields_refs: Vec<&str> = fields.iter().map(|s| s.as_str()).collect();
-            return self.parse_tabular_rows(
-                header.length,
-                header.delimiter,
-                &fields_refs,
-                2,
-                line_no,
-            );
-        }
-
-        if let Some(ref inline) = header.inline_values {
-            if !inline.is_empty() {
-                // Inline primitive array
-                let values = split_delim_aware(inline, header.delimiter);
-                // Validate array length
-                if values.len() != header.length {
-                    self.error = Some(crate::error::Error::Syntax {
-                        line: line_no,
-                        message: format!(
-                            "array length mismatch: header declares {} elements but found {}",
-                            header.length,
-                            values.len()
-                        ),
-                    });
-                }
-                return Value::Array(
-                    values
-                        .into_iter()
-                        .map(|v| self.parse_scalar_token(v))
-                        .collect(),
-                );
-            }
-        }
-
-        // Expanded array with list items at indent 2
-        self.parse_array_with_length_check(2, header.length, line_no)
+        self.parse_keyed_array_value(&header, 0, false)
     }
 
     /// Parse the value for an array header that was already consumed. Rows and items
-- 
2.43.0


From b5fb829a564eb11f16da1136fac66d65f797fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 06/46] fix: honour Options::indent for fields of list items

The first field's children were written at a fixed four columns and read
relative to a fixed two, so documents with Options::indent other than 2
lost the fields of objects inside arrays.
---
 crates/toon/src/de/mod.rs          |   2 +-
 crates/toon/src/decode/parser.rs   |  35 ++++++++--
 crates/toon/src/encode/encoders.rs |   8 +--
 crates/toon/src/ser/stream.rs      | 103 ++++++++++++++++++++---------
 4 files changed, 106 insertions(+), 42 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 587d738..8b8a07c 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -174,7 +174,7 @@ fn from_str_via_internal_value<T: DeserializeOwned>(s: &str, options: &Options)
             });
         }
     }
-    let mut v = crate::decode::parser::parse_to_internal_value_from_lines(lines, options.strict)?;
+    let mut v = crate::decode::parser::parse_to_internal_value_with_options(lines, options)?;
 
     // Apply path expansion if enabled
     if options.expand_paths == crate::options::ExpandPaths::Safe {
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index f938747..c193884 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -10,6 +10,8 @@ use alloc::{
 use crate::number::has_forbidden_leading_zeros;
 use crate::value::{Number, Value};
 
+const DEFAULT_INDENT_SIZE: usize = 2;
+
 /// Indentation that no line has: an array header with nothing nested below it
 const NO_CHILDREN: usize = usize::MAX;
 
@@ -17,6 +19,7 @@ pub struct Parser<'a> {
     lines: Vec<ParsedLine<'a>>,
     idx: usize,
     strict: bool,
+    indent_size: usize,
     error: Option<crate::error::Error>,
 }
 
@@ -26,6 +29,7 @@ impl<'a> Parser<'a> {
             lines: scan(input),
             idx: 0,
             strict: false,
+            indent_size: DEFAULT_INDENT_SIZE,
             error: None,
         }
     }
@@ -35,6 +39,7 @@ impl<'a> Parser<'a> {
             lines: scan(input),
             idx: 0,
             strict,
+            indent_size: DEFAULT_INDENT_SIZE,
             error: None,
         }
     }
@@ -44,6 +49,7 @@ impl<'a> Parser<'a> {
             lines,
             idx: 0,
             strict,
+            indent_size: DEFAULT_INDENT_SIZE,
             error: None,
         }
     }
@@ -258,7 +264,7 @@ impl<'a> Parser<'a> {
                         // If header has a key, this is a keyed array as first field of list-item object
                         if let Some(ref key) = header.key {
                             let key_parsed = self.parse_key_token(key);
-                            let child_indent = indent + 2;
+                            let child_indent = indent + self.indent_size;
                             let mut map: Vec<(String, Value)> = Vec::new();
                             let v = self.parse_keyed_array_value(&header, indent, false);
                             map.push((key_parsed, v));
@@ -278,7 +284,7 @@ impl<'a> Parser<'a> {
                 // 2) Support object-as-list-item with first field on the hyphen line: "- key: value"
                 if let Some((kraw, vraw)) = split_kv_quote_aware(vs) {
                     let key = self.parse_key_token(kraw);
-                    let child_indent = indent + 2;
+                    let child_indent = indent + self.indent_size;
                     let mut map: Vec<(String, Value)> = Vec::new();
                     if vraw.is_empty() {
                         // Value on lines nested below the key; siblings of the key are
@@ -302,7 +308,7 @@ impl<'a> Parser<'a> {
                 arr.push(self.parse_scalar_token(vs));
             } else {
                 // Bare "-" list item - check if there are children
-                let child_indent = indent + 2;
+                let child_indent = indent + self.indent_size;
                 let child_val = self.parse_node(child_indent);
                 // If parse_node returns Null (no children), this is an empty object
                 if matches!(child_val, Value::Null) {
@@ -399,7 +405,10 @@ impl<'a> Parser<'a> {
                         continue;
                     }
                     // Detect actual child indent from next line (supports non-multiple indentation in non-strict mode)
-                    let child_indent = self.peek().map(|l| l.indent).unwrap_or(indent + 2);
+                    let child_indent = self
+                        .peek()
+                        .map(|l| l.indent)
+                        .unwrap_or(indent + self.indent_size);
                     let mut handled = false;
                     if let Some(nl) = self.peek() {
                         if nl.indent == child_indent && nl.indent > indent {
@@ -1679,6 +1688,24 @@ pub fn parse_to_internal_value_from_lines<'a>(
     }
 }
 
+/// Like [`parse_to_internal_value_from_lines`], for a document written with `options`
+#[cfg(feature = "serde")]
+pub(crate) fn parse_to_internal_value_with_options<'a>(
+    lines: Vec<ParsedLine<'a>>,
+    options: &crate::options::Options,
+) -> Result<Value, crate::error::Error> {
+    let mut p = Parser::from_lines(lines, options.strict);
+    if options.indent > 0 {
+        p.indent_size = options.indent;
+    }
+    let v = p.parse_document();
+    if let Some(err) = p.error {
+        Err(err)
+    } else {
+        Ok(v)
+    }
+}
+
 pub fn parse_to_value_with_strict(input: &str, strict: bool) -> Result<Value, crate::error::Error> {
     let mut p = Parser::from_input_with_strict(input, strict);
     let v = p.parse_document();
diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 9c3d546..d315946 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -605,7 +605,7 @@ fn encode_list_item_object(
             );
             w.line_list_item(indent, &header);
 
-            // Rows at depth+2 (indent + 4 relative to list item indent)
+            // Rows at depth+2 (2 * opts.indent relative to list item indent)
             for item in items {
                 let inner_obj = item.as_object().unwrap();
                 let cells: Vec<String> = keys
@@ -616,7 +616,7 @@ fn encode_list_item_object(
                     })
                     .collect();
                 let row = join_with_delim(&cells, dch);
-                w.line(indent + 4, &row);
+                w.line(indent + 2 * opts.indent, &row);
             }
 
             // Other fields at depth+1 (indent + opts.indent)
@@ -681,7 +681,7 @@ fn encode_list_item_object(
                     ),
                 );
                 for inner_item in items {
-                    encode_list_item(inner_item, w, opts, indent + 4)?;
+                    encode_list_item(inner_item, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
@@ -689,7 +689,7 @@ fn encode_list_item_object(
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
                 for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 4)?;
+                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
                 }
             }
         }
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index d027320..5380ab8 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -776,7 +776,7 @@ fn encode_list_item_json(
                     );
                     w.line_list_item(indent, &header);
 
-                    // Rows at indent + 4
+                    // Rows at indent + 2 * opts.indent
                     for item in items {
                         let inner_obj = item.as_object().unwrap();
                         let cells: Vec<String> = keys
@@ -787,7 +787,7 @@ fn encode_list_item_json(
                             })
                             .collect();
                         let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
+                        w.line(indent + 2 * opts.indent, &row);
                     }
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
@@ -821,8 +821,13 @@ fn encode_list_item_json(
                             }
                             Value::Object(_) => {
                                 w.line_key_only(indent + opts.indent, &key_fmt);
-                                crate::encode::encoders::encode_value(v, w, opts, indent + 4)
-                                    .map_err(|e| SerError::custom(e.to_string()))?;
+                                crate::encode::encoders::encode_value(
+                                    v,
+                                    w,
+                                    opts,
+                                    indent + 2 * opts.indent,
+                                )
+                                .map_err(|e| SerError::custom(e.to_string()))?;
                             }
                         }
                     }
@@ -884,7 +889,7 @@ fn encode_list_item_json(
                             ),
                         );
                         for inner in items {
-                            encode_list_item_json(inner, w, opts, indent + 4)?;
+                            encode_list_item_json(inner, w, opts, indent + 2 * opts.indent)?;
                         }
                     }
                 }
@@ -894,25 +899,42 @@ fn encode_list_item_json(
                         for (k, v) in inner_obj {
                             let key_fmt = primitives::format_key(k);
                             match v {
-                                Value::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                Value::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
+                                Value::Null => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_null(),
+                                ),
+                                Value::Bool(b) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_bool(*b),
+                                ),
+                                Value::Number(n) => {
+                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
                                 }
-                                Value::Number(n) => w.line_kv(indent + 4, &key_fmt, &n.to_string()),
                                 Value::String(s) => w.line_kv(
-                                    indent + 4,
+                                    indent + 2 * opts.indent,
                                     &key_fmt,
                                     &primitives::format_string(s, opts.delimiter),
                                 ),
                                 Value::Array(arr) => {
-                                    encode_keyed_array_json(&key_fmt, arr, w, opts, indent + 4)?;
+                                    encode_keyed_array_json(
+                                        &key_fmt,
+                                        arr,
+                                        w,
+                                        opts,
+                                        indent + 2 * opts.indent,
+                                    )?;
                                 }
                                 Value::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    crate::encode::encoders::encode_value(v, w, opts, indent + 6)
-                                        .map_err(|e| SerError::custom(e.to_string()))?;
+                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
+                                    crate::encode::encoders::encode_value(
+                                        v,
+                                        w,
+                                        opts,
+                                        indent + 3 * opts.indent,
+                                    )
+                                    .map_err(|e| SerError::custom(e.to_string()))?;
                                 }
                             }
                         }
@@ -941,7 +963,7 @@ fn encode_list_item_json(
                     }
                     Value::Object(_) => {
                         w.line_key_only(indent + opts.indent, &key_fmt);
-                        crate::encode::encoders::encode_value(v, w, opts, indent + 4)
+                        crate::encode::encoders::encode_value(v, w, opts, indent + 2 * opts.indent)
                             .map_err(|e| SerError::custom(e.to_string()))?;
                     }
                 }
@@ -1119,7 +1141,7 @@ fn encode_list_item_alloc(
                     );
                     w.line_list_item(indent, &header);
 
-                    // Rows at indent + 4
+                    // Rows at indent + 2 * opts.indent
                     for item in items {
                         let obj = match item {
                             IValue::Object(p) => p,
@@ -1133,7 +1155,7 @@ fn encode_list_item_alloc(
                             })
                             .collect();
                         let row = join_with_delim(&cells, dch);
-                        w.line(indent + 4, &row);
+                        w.line(indent + 2 * opts.indent, &row);
                     }
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
@@ -1167,7 +1189,7 @@ fn encode_list_item_alloc(
                             }
                             IValue::Object(_) => {
                                 w.line_key_only(indent + opts.indent, &key_fmt);
-                                encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                                encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                             }
                         }
                     }
@@ -1229,7 +1251,7 @@ fn encode_list_item_alloc(
                             ),
                         );
                         for inner in items {
-                            encode_list_item_alloc(inner, w, opts, indent + 4)?;
+                            encode_list_item_alloc(inner, w, opts, indent + 2 * opts.indent)?;
                         }
                     }
                 }
@@ -1239,26 +1261,41 @@ fn encode_list_item_alloc(
                         for (k, v) in inner_obj {
                             let key_fmt = primitives::format_key(k);
                             match v {
-                                IValue::Null => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_null())
-                                }
-                                IValue::Bool(b) => {
-                                    w.line_kv(indent + 4, &key_fmt, primitives::format_bool(*b))
-                                }
+                                IValue::Null => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_null(),
+                                ),
+                                IValue::Bool(b) => w.line_kv(
+                                    indent + 2 * opts.indent,
+                                    &key_fmt,
+                                    primitives::format_bool(*b),
+                                ),
                                 IValue::Number(n) => {
-                                    w.line_kv(indent + 4, &key_fmt, &n.to_string())
+                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
                                 }
                                 IValue::String(s) => w.line_kv(
-                                    indent + 4,
+                                    indent + 2 * opts.indent,
                                     &key_fmt,
                                     &primitives::format_string(s, opts.delimiter),
                                 ),
                                 IValue::Array(arr) => {
-                                    encode_keyed_array_alloc(&key_fmt, arr, w, opts, indent + 4)?;
+                                    encode_keyed_array_alloc(
+                                        &key_fmt,
+                                        arr,
+                                        w,
+                                        opts,
+                                        indent + 2 * opts.indent,
+                                    )?;
                                 }
                                 IValue::Object(_) => {
-                                    w.line_key_only(indent + 4, &key_fmt);
-                                    encode_internal_value_alloc(v, w, opts, indent + 6)?;
+                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
+                                    encode_internal_value_alloc(
+                                        v,
+                                        w,
+                                        opts,
+                                        indent + 3 * opts.indent,
+                                    )?;
                                 }
                             }
                         }
@@ -1287,7 +1324,7 @@ fn encode_list_item_alloc(
                     }
                     IValue::Object(_) => {
                         w.line_key_only(indent + opts.indent, &key_fmt);
-                        encode_internal_value_alloc(v, w, opts, indent + 4)?;
+                        encode_internal_value_alloc(v, w, opts, indent + 2 * opts.indent)?;
                     }
                 }
             }
-- 
2.43.0


From dc5cb36e64709be89a22b674a261f0beb12c2654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 07/46] fix: keep quoted keys that contain dots intact

Quoted keys containing a dot came back with a zero-width space in front
unless path expansion was enabled, and with it a key that really starts
with one lost it.
---
 crates/toon/src/decode/parser.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index c193884..dedee08 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -20,6 +20,7 @@ pub struct Parser<'a> {
     idx: usize,
     strict: bool,
     indent_size: usize,
+    mark_literal_keys: bool,
     error: Option<crate::error::Error>,
 }
 
@@ -30,6 +31,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict: false,
             indent_size: DEFAULT_INDENT_SIZE,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -40,6 +42,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict,
             indent_size: DEFAULT_INDENT_SIZE,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -50,6 +53,7 @@ impl<'a> Parser<'a> {
             idx: 0,
             strict,
             indent_size: DEFAULT_INDENT_SIZE,
+            mark_literal_keys: false,
             error: None,
         }
     }
@@ -185,13 +189,10 @@ impl<'a> Parser<'a> {
         if k.starts_with('"') {
             match try_unescape_json_string(k) {
                 Ok(st) => {
-                    // If this quoted key contains a dot, mark it to prevent path expansion
+                    // If path expansion follows, mark a quoted key to prevent its expansion
                     // by prefixing with a zero-width space (U+200B)
-                    if st.contains('.') {
-                        let mut marked = String::with_capacity(st.len() + 3);
-                        marked.push('\u{200B}');
-                        marked.push_str(&st);
-                        return marked;
+                    if self.mark_literal_keys && (st.contains('.') || st.starts_with('\u{200B}')) {
+                        return mark_literal_key(&st);
                     }
                     return st;
                 }
@@ -210,6 +211,9 @@ impl<'a> Parser<'a> {
                 Err(_) => return String::new(),
             }
         }
+        if self.mark_literal_keys && k.starts_with('\u{200B}') {
+            return mark_literal_key(k);
+        }
         k.to_string()
     }
 
@@ -1102,6 +1106,14 @@ impl<'a> Parser<'a> {
     }
 }
 
+/// Prefix a key that path expansion must keep as is; expansion strips the marker
+fn mark_literal_key(key: &str) -> String {
+    let mut marked = String::with_capacity(key.len() + 3);
+    marked.push('\u{200B}');
+    marked.push_str(key);
+    marked
+}
+
 /// Legacy header parser for old @<delim> format (for backwards compatibility during transition)
 fn parse_header(s: &str) -> Option<(char, &str)> {
     let mut it = s.chars();
@@ -1698,6 +1710,7 @@ pub(crate) fn parse_to_internal_value_with_options<'a>(
     if options.indent > 0 {
         p.indent_size = options.indent;
     }
+    p.mark_literal_keys = options.expand_paths == crate::options::ExpandPaths::Safe;
     let v = p.parse_document();
     if let Some(err) = p.error {
         Err(err)
-- 
2.43.0


From 280a7a5027783d7703a2931f0052c5a434a0734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 08/46] fix: accept single-column table rows that contain other
 delimiters

Strict decoding rejected '[1|]{a}:' followed by the row ',' although the
row has the declared number of cells and is what the encoder writes.
---
 crates/toon/src/decode/parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index dedee08..82ec23d 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1034,8 +1034,14 @@ impl<'a> Parser<'a> {
             let row_line_no = self.idx + 1;
             self.next();
 
-            // In strict mode, check if row uses a different delimiter than declared
-            if self.strict && self.error.is_none() && check_delimiter_mismatch(row_text, delimiter)
+            let cells = split_delim_aware(row_text, delimiter);
+
+            // In strict mode, check if row uses a different delimiter than declared. A row
+            // with the declared number of cells may contain other delimiters as text.
+            if self.strict
+                && self.error.is_none()
+                && cells.len() != expected_cells
+                && check_delimiter_mismatch(row_text, delimiter)
             {
                 self.error = Some(crate::error::Error::Syntax {
                     line: row_line_no,
@@ -1045,8 +1051,6 @@ impl<'a> Parser<'a> {
                 });
             }
 
-            let cells = split_delim_aware(row_text, delimiter);
-
             // Validate cell count matches header field count
             if cells.len() != expected_cells && self.error.is_none() {
                 self.error = Some(crate::error::Error::Syntax {
-- 
2.43.0


From 0da35fa4027b891b162e2445c1b7faca90335a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 09/46] fix: do not panic on a non-ASCII character after '@'

---
 crates/toon/src/de/direct.rs     | 2 +-
 crates/toon/src/decode/parser.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index d594645..18a24b1 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -734,7 +734,7 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let dch = it.next()?;
-    Some((dch, s[2..].trim_start()))
+    Some((dch, it.as_str().trim_start()))
 }
 
 fn unescape_json_string(s: &str) -> Option<String> {
diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 82ec23d..05cf1d0 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1126,8 +1126,7 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let dch = it.next()?;
-    let rest = &s[2..];
-    Some((dch, trim_ascii_start(rest)))
+    Some((dch, trim_ascii_start(it.as_str())))
 }
 
 /// Parsed array header per spec v3.0
-- 
2.43.0


From 794591ed5eee97fad0315c81dd711dc523e1b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 10/46] fix: decode a lone string that starts with '@' as a
 string

The encoder writes such a string unquoted; without rows below it, it is
not a table header, yet it decoded as an empty table.
---
 crates/toon/src/decode/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 05cf1d0..178b735 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -615,8 +615,13 @@ impl<'a> Parser<'a> {
             None => None,
         };
 
-        // Check if this is a tabular array header
-        if let Some(s) = s_opt {
+        // Check if this is a tabular array header: one is followed by its rows, otherwise
+        // the line is a string that starts with '@'
+        let has_rows = self.lines[self.idx + 1..]
+            .iter()
+            .find(|l| !matches!(l.kind, LineKind::Blank))
+            .is_some_and(|l| l.indent == indent && matches!(l.kind, LineKind::ListItem { .. }));
+        if let Some(s) = s_opt.filter(|_| has_rows) {
             if let Some((dch, header_str)) = parse_header(s) {
                 // This is a tabular header, parse it as a root-level tabular array
                 if self.strict && !(dch == ',' || dch == '\t' || dch == '|') {
-- 
2.43.0


From 9282aa92d7bc6d3644ac86a2123ef711bf229a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 11/46] fix: decode integral floats beyond 64 bits as floats

1e300 and -1e300 saturated to u64::MAX and i64::MIN.
---
 crates/toon/src/decode/parser.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 178b735..63371e4 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -10,6 +10,11 @@ use alloc::{
 use crate::number::has_forbidden_leading_zeros;
 use crate::value::{Number, Value};
 
+/// Integer-valued floats from here on do not fit a u64 (2^64)
+const U64_RANGE_END: f64 = 18_446_744_073_709_551_616.0;
+/// Integer-valued floats below this do not fit an i64 (-2^63)
+const I64_RANGE_START: f64 = -9_223_372_036_854_775_808.0;
+
 const DEFAULT_INDENT_SIZE: usize = 2;
 
 /// Indentation that no line has: an array header with nothing nested below it
@@ -151,9 +156,9 @@ impl<'a> Parser<'a> {
                     // Normalize integer-valued floats to integers
                     // Use f % 1.0 instead of f.fract() for no_std compatibility
                     if f.is_finite() && f % 1.0 == 0.0 {
-                        if f >= 0.0 {
+                        if (0.0..U64_RANGE_END).contains(&f) {
                             return Value::Number(Number::U64(f as u64));
-                        } else {
+                        } else if (I64_RANGE_START..0.0).contains(&f) {
                             return Value::Number(Number::I64(f as i64));
                         }
                     }
-- 
2.43.0


From f69e166ec3c54f70a73b90b65aa58af44f1c2fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 12/46] fix: reject leftover content in strict mode

Lines that belong to nothing, such as a field indented too far and
everything after it, were dropped without an error.
---
 crates/toon/src/decode/parser.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 63371e4..76d7144 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -835,6 +835,23 @@ impl<'a> Parser<'a> {
     }
 
     pub fn parse_document(&mut self) -> Value {
+        let value = self.parse_root();
+
+        // In strict mode, content that belongs to nothing is an error
+        if self.strict && self.error.is_none() {
+            self.skip_blanks();
+            if self.peek().is_some() {
+                self.error = Some(crate::error::Error::Syntax {
+                    line: self.idx + 1,
+                    message: "unexpected content".to_string(),
+                });
+            }
+        }
+
+        value
+    }
+
+    fn parse_root(&mut self) -> Value {
         self.skip_blanks();
         if self.peek().is_none() {
             // Empty document represents an empty object (root documents are implicitly objects)
-- 
2.43.0


From a13541c090ca95c3013a638f8ce9187fb00a3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 13/46] fix: report errors of nested Serialize implementations

An error below the top level was swallowed and the value written as
null, so encoding lost data and returned Ok.
---
 crates/toon/src/ser/mod.rs                 |  3 ++-
 crates/toon/src/ser/stream.rs              | 15 ++++++++++-----
 crates/toon/src/ser/value_builder.rs       |  7 +++++--
 crates/toon/src/ser/value_builder_alloc.rs | 16 ++++++++++------
 4 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/crates/toon/src/ser/mod.rs b/crates/toon/src/ser/mod.rs
index a8f1be0..ada284e 100644
--- a/crates/toon/src/ser/mod.rs
+++ b/crates/toon/src/ser/mod.rs
@@ -18,7 +18,8 @@ mod value_builder_alloc;
 // Non-streaming encoding via serde_json::Value is only available with "json"
 #[cfg(all(feature = "serde", feature = "json"))]
 pub fn to_string<T: Serialize>(value: &T, options: &Options) -> Result<String> {
-    let v = value_builder::to_value(value, options);
+    let v = value_builder::to_value(value, options)
+        .map_err(|e| crate::error::Error::Message(e.to_string()))?;
     crate::encode::encode_value_to_string(&v, options)
 }
 
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 5380ab8..87f1690 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -285,7 +285,8 @@ impl<'a, 'de> SerializeSeq for SeqSer<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+        let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+            .map_err(SerError::custom)?;
         self.items.push(val);
         Ok(())
     }
@@ -411,7 +412,8 @@ impl<'a, 'de> SerializeSeq for SeqSerAlloc<'a, 'de> {
     type Error = SerError;
 
     fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+        let v = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+            .map_err(SerError::custom)?;
         self.items.push(v);
         Ok(())
     }
@@ -550,7 +552,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         // When key folding is enabled, buffer entries for collision detection
         #[cfg(feature = "json")]
         if self.parent.opts.key_folding == crate::options::KeyFolding::Safe {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(SerError::custom)?;
             if self.buffered.is_none() {
                 self.buffered = Some(Vec::new());
             }
@@ -571,7 +574,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         // Try to serialize to Value to detect arrays
         #[cfg(feature = "json")]
         {
-            let val = crate::ser::value_builder::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+                .map_err(SerError::custom)?;
             if let Value::Array(items) = val {
                 // Use spec-compliant keyed array encoding
                 encode_keyed_array_json(
@@ -599,7 +603,8 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
 
         #[cfg(not(feature = "json"))]
         {
-            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts);
+            let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+                .map_err(SerError::custom)?;
             if let IValue::Array(items) = val {
                 // Use spec-compliant keyed array encoding
                 encode_keyed_array_alloc(
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 32e4475..1be194c 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -30,9 +30,12 @@ use serde_json::{Map, Number, Value};
 
 use crate::options::Options;
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(
+    value: &T,
+    _options: &Options,
+) -> Result<Value, serde_json::Error> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index 443942a..ccd8bda 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -11,23 +11,27 @@ use serde::ser::*;
 use crate::options::Options;
 use crate::value::{Number, Value};
 
-pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Value {
+pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Result<Value, BuildError> {
     let mut ser = ValueSerializer;
-    value.serialize(&mut ser).unwrap_or(Value::Null)
+    value.serialize(&mut ser)
 }
 
 struct ValueSerializer;
 
 #[derive(Debug)]
-pub struct BuildError;
+pub struct BuildError {
+    msg: String,
+}
 impl core::fmt::Display for BuildError {
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        f.write_str("ser error")
+        f.write_str(&self.msg)
     }
 }
 impl serde::ser::Error for BuildError {
-    fn custom<T: core::fmt::Display>(_t: T) -> Self {
-        BuildError
+    fn custom<T: core::fmt::Display>(t: T) -> Self {
+        BuildError {
+            msg: format!("{}", t),
+        }
     }
 }
 impl core::error::Error for BuildError {}
-- 
2.43.0


From aecc710b6ca7b1c1fb97c1e76e5436aa75fdbc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 14/46] fix: do not reserve memory for any length a Serialize
 reports

serialize_seq(Some(usize::MAX)) panicked with a capacity overflow.
---
 crates/toon/src/ser/value_builder.rs       | 6 +++++-
 crates/toon/src/ser/value_builder_alloc.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 1be194c..8eb9bd6 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -38,6 +38,9 @@ pub fn to_value<T: Serialize + ?Sized>(
     value.serialize(&mut ser)
 }
 
+/// Elements to make room for before they arrive
+const MAX_PREALLOCATED: usize = 1024;
+
 struct ValueSerializer;
 
 impl Serializer for &mut ValueSerializer {
@@ -146,7 +149,8 @@ impl Serializer for &mut ValueSerializer {
     }
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         Ok(SeqSerializer {
-            elems: Vec::with_capacity(len.unwrap_or(0)),
+            // The length is a hint of the caller, not to be trusted with memory
+            elems: Vec::with_capacity(len.unwrap_or(0).min(MAX_PREALLOCATED)),
         })
     }
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index ccd8bda..ed1ecf0 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -16,6 +16,9 @@ pub fn to_value<T: Serialize + ?Sized>(value: &T, _options: &Options) -> Result<
     value.serialize(&mut ser)
 }
 
+/// Elements to make room for before they arrive
+const MAX_PREALLOCATED: usize = 1024;
+
 struct ValueSerializer;
 
 #[derive(Debug)]
@@ -138,7 +141,8 @@ impl Serializer for &mut ValueSerializer {
     }
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         Ok(SeqSerializer {
-            elems: Vec::with_capacity(len.unwrap_or(0)),
+            // The length is a hint of the caller, not to be trusted with memory
+            elems: Vec::with_capacity(len.unwrap_or(0).min(MAX_PREALLOCATED)),
         })
     }
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
-- 
2.43.0


From ad015713674eb2fd124878e7f86b48fcaa296ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 15/46] fix: write the fields of a struct when key folding is
 on

They were buffered and then dropped, so the document was empty.
---
 crates/toon/src/ser/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 87f1690..f93ad68 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -667,7 +667,7 @@ impl<'a, 'de> SerializeStruct for MapSer<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeMap::end(self)
     }
 }
 
-- 
2.43.0


From e0d2931ef6ce59e0b383cb57d5932d1f292948c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 16/46] fix: write top-level tuples without the json feature

Their elements were buffered and then dropped, so the document was empty.
---
 crates/toon/src/ser/stream.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index f93ad68..f24c74a 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -499,7 +499,7 @@ impl<'a, 'de> SerializeTuple for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -511,7 +511,7 @@ impl<'a, 'de> SerializeTupleStruct for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
@@ -523,7 +523,7 @@ impl<'a, 'de> SerializeTupleVariant for SeqSerAlloc<'a, 'de> {
         SerializeSeq::serialize_element(self, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(())
+        SerializeSeq::end(self)
     }
 }
 
-- 
2.43.0


From 8165f5b1a35833fad70e9af7933e774ae98379f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 17/46] fix: decode options, newtype structs and enums

---
 crates/toon/src/de/mod.rs | 101 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 99 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 8b8a07c..a11fd1f 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -132,10 +132,107 @@ impl<'de> de::Deserializer<'de> for Deserializer {
         }
     }
 
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.value {
+            Value::Null => visitor.visit_none(),
+            _ => visitor.visit_some(self),
+        }
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        match self.value {
+            Value::String(variant) => visitor.visit_enum(variant.into_deserializer()),
+            Value::Object(mut entries) if entries.len() == 1 => {
+                let (variant, value) = entries.remove(0);
+                visitor.visit_enum(EnumDe { variant, value })
+            }
+            _ => Err(de::Error::custom(
+                "expected a variant name or an object with a single variant",
+            )),
+        }
+    }
+
     serde::forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
-        option unit unit_struct newtype_struct seq tuple tuple_struct map struct
-        enum identifier ignored_any
+        unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
+    }
+}
+
+/// A variant with content: an object whose only key is the variant name
+struct EnumDe {
+    variant: String,
+    value: Value,
+}
+
+impl<'de> de::EnumAccess<'de> for EnumDe {
+    type Error = DeError;
+    type Variant = VariantDe;
+
+    fn variant_seed<S>(self, seed: S) -> core::result::Result<(S::Value, VariantDe), DeError>
+    where
+        S: de::DeserializeSeed<'de>,
+    {
+        let variant = seed.deserialize(self.variant.into_deserializer())?;
+        Ok((variant, VariantDe { value: self.value }))
+    }
+}
+
+struct VariantDe {
+    value: Value,
+}
+
+impl<'de> de::VariantAccess<'de> for VariantDe {
+    type Error = DeError;
+
+    fn unit_variant(self) -> core::result::Result<(), DeError> {
+        de::Deserialize::deserialize(Deserializer::from_value(self.value))
+    }
+
+    fn newtype_variant_seed<S>(self, seed: S) -> core::result::Result<S::Value, DeError>
+    where
+        S: de::DeserializeSeed<'de>,
+    {
+        seed.deserialize(Deserializer::from_value(self.value))
+    }
+
+    fn tuple_variant<V>(self, _len: usize, visitor: V) -> core::result::Result<V::Value, DeError>
+    where
+        V: de::Visitor<'de>,
+    {
+        de::Deserializer::deserialize_any(Deserializer::from_value(self.value), visitor)
+    }
+
+    fn struct_variant<V>(
+        self,
+        _fields: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, DeError>
+    where
+        V: de::Visitor<'de>,
+    {
+        de::Deserializer::deserialize_any(Deserializer::from_value(self.value), visitor)
     }
 }
 
-- 
2.43.0


From 0a068a5a4a2d98575377e6f3f10f2709b52705d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 18/46] fix: encode nested arrays and objects alike without the
 json feature

---
 crates/toon/src/ser/stream.rs | 61 +++++++++++++++++------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index f24c74a..86cdca5 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -605,25 +605,12 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         {
             let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
                 .map_err(SerError::custom)?;
-            if let IValue::Array(items) = val {
-                // Use spec-compliant keyed array encoding
-                encode_keyed_array_alloc(
-                    &key_fmt,
-                    &items,
-                    self.parent.w,
-                    self.parent.opts,
-                    self.parent.indent,
-                )?;
-                self.entry_count += 1;
-                return Ok(());
-            }
-            // For objects, use the standard key: then nested fields
-            self.parent.w.line_key_only(self.parent.indent, &key_fmt);
-            encode_internal_value_alloc(
+            encode_object_field_alloc(
+                &key,
                 &val,
                 self.parent.w,
                 self.parent.opts,
-                self.parent.indent + self.parent.opts.indent,
+                self.parent.indent,
             )?;
             self.entry_count += 1;
             Ok(())
@@ -1494,27 +1481,39 @@ fn encode_internal_value_alloc(
         }
         IValue::Object(pairs) => {
             for (k, val) in pairs {
-                let key = primitives::format_string(k, opts.delimiter);
-                if val.is_primitive() {
-                    match val {
-                        IValue::Null => w.line_kv(indent, &key, primitives::format_null()),
-                        IValue::Bool(b) => w.line_kv(indent, &key, primitives::format_bool(*b)),
-                        IValue::Number(n) => w.line_kv(indent, &key, &n.to_string()),
-                        IValue::String(s) => {
-                            w.line_kv(indent, &key, &primitives::format_string(s, opts.delimiter))
-                        }
-                        _ => {}
-                    }
-                } else {
-                    w.line_key_only(indent, &key);
-                    encode_internal_value_alloc(val, w, opts, indent + opts.indent)?;
-                }
+                encode_object_field_alloc(k, val, w, opts, indent)?;
             }
         }
     }
     Ok(())
 }
 
+#[cfg(not(feature = "json"))]
+fn encode_object_field_alloc(
+    key: &str,
+    val: &IValue,
+    w: &mut LineWriter,
+    opts: &Options,
+    indent: usize,
+) -> Result<(), SerError> {
+    let key = primitives::format_key(key);
+    match val {
+        IValue::Array(items) => encode_keyed_array_alloc(&key, items, w, opts, indent),
+        IValue::Object(_) => {
+            w.line_key_only(indent, &key);
+            encode_internal_value_alloc(val, w, opts, indent + opts.indent)
+        }
+        _ => {
+            w.line_kv(
+                indent,
+                &key,
+                &format_primitive_value_alloc(val, opts.delimiter),
+            );
+            Ok(())
+        }
+    }
+}
+
 fn try_scalar_to_string<T: ?Sized + Serialize>(
     value: &T,
     opts: &Options,
-- 
2.43.0


From ca0251f69e95ea36dfd1154947926e39e590686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 19/46] fix: write enum variants with content as single-key
 objects

---
 crates/toon/src/ser/stream.rs              | 85 +++++++++++-----------
 crates/toon/src/ser/value_builder.rs       | 22 ++++--
 crates/toon/src/ser/value_builder_alloc.rs | 23 ++++--
 3 files changed, 75 insertions(+), 55 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 86cdca5..cc0fdbd 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -58,16 +58,6 @@ struct StreamingSerializer<'a> {
     indent: usize,
 }
 
-impl<'a> StreamingSerializer<'a> {
-    fn with_indent<'b>(&'b mut self, indent: usize) -> StreamingSerializer<'b> {
-        StreamingSerializer {
-            w: self.w,
-            opts: self.opts,
-            indent,
-        }
-    }
-}
-
 impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
     type Ok = ();
     type Error = SerError;
@@ -87,10 +77,7 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
     #[cfg(not(feature = "json"))]
     type SerializeTupleStruct = SeqSerAlloc<'a, 'de>;
 
-    #[cfg(feature = "json")]
-    type SerializeTupleVariant = SeqSer<'a, 'de>;
-    #[cfg(not(feature = "json"))]
-    type SerializeTupleVariant = SeqSerAlloc<'a, 'de>;
+    type SerializeTupleVariant = TupleVariantSer<'a, 'de>;
 
     type SerializeMap = MapSer<'a, 'de>;
     type SerializeStruct = MapSer<'a, 'de>;
@@ -194,12 +181,9 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
-        let mut child = self.with_indent(self.indent + self.opts.indent);
-        value.serialize(&mut child)
+        let mut map = self.serialize_map(Some(1))?;
+        SerializeMap::serialize_entry(&mut map, variant, value)?;
+        SerializeMap::end(map)
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         #[cfg(feature = "json")]
@@ -232,9 +216,13 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         _name: &'static str,
         _variant_index: u32,
         variant: &'static str,
-        len: usize,
+        _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        self.serialize_tuple_struct(variant, len)
+        Ok(TupleVariantSer {
+            parent: self,
+            variant,
+            items: Vec::new(),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSer {
@@ -259,10 +247,9 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
-        self.w.line_key_only(
-            self.indent,
-            &primitives::format_string(variant, self.opts.delimiter),
-        );
+        self.w
+            .line_key_only(self.indent, &primitives::format_key(variant));
+        self.indent += self.opts.indent;
         Ok(MapSer {
             parent: self,
             next_key: None,
@@ -387,19 +374,6 @@ impl<'a, 'de> SerializeTupleStruct for SeqSer<'a, 'de> {
     }
 }
 
-#[cfg(feature = "json")]
-impl<'a, 'de> SerializeTupleVariant for SeqSer<'a, 'de> {
-    type Ok = ();
-    type Error = SerError;
-
-    fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
-    }
-    fn end(self) -> Result<Self::Ok, Self::Error> {
-        SerializeSeq::end(self)
-    }
-}
-
 #[cfg(not(feature = "json"))]
 struct SeqSerAlloc<'a, 'de> {
     parent: &'a mut StreamingSerializer<'de>,
@@ -515,15 +489,40 @@ impl<'a, 'de> SerializeTupleStruct for SeqSerAlloc<'a, 'de> {
     }
 }
 
-#[cfg(not(feature = "json"))]
-impl<'a, 'de> SerializeTupleVariant for SeqSerAlloc<'a, 'de> {
+struct TupleVariantSer<'a, 'de> {
+    parent: &'a mut StreamingSerializer<'de>,
+    variant: &'static str,
+    #[cfg(feature = "json")]
+    items: Vec<Value>,
+    #[cfg(not(feature = "json"))]
+    items: Vec<IValue>,
+}
+
+impl<'a, 'de> SerializeTupleVariant for TupleVariantSer<'a, 'de> {
     type Ok = ();
     type Error = SerError;
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        #[cfg(feature = "json")]
+        let val = crate::ser::value_builder::to_value(value, self.parent.opts)
+            .map_err(SerError::custom)?;
+        #[cfg(not(feature = "json"))]
+        let val = crate::ser::value_builder_alloc::to_value(value, self.parent.opts)
+            .map_err(SerError::custom)?;
+        self.items.push(val);
+        Ok(())
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        SerializeSeq::end(self)
+        #[cfg(not(feature = "json"))]
+        use encode_keyed_array_alloc as encode_keyed_array;
+        #[cfg(feature = "json")]
+        use encode_keyed_array_json as encode_keyed_array;
+        encode_keyed_array(
+            &primitives::format_key(self.variant),
+            &self.items,
+            self.parent.w,
+            self.parent.opts,
+            self.parent.indent,
+        )
     }
 }
 
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 8eb9bd6..f47950b 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -49,7 +49,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -167,10 +167,13 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer {
+            seq: SeqSerializer { elems: Vec::new() },
+            name: variant.to_string(),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -245,15 +248,22 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    seq: SeqSerializer,
+    name: String,
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = serde_json::Error;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        SerializeSeq::serialize_element(&mut self.seq, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        let mut outer = Map::new();
+        outer.insert(self.name, Value::Array(self.seq.elems));
+        Ok(Value::Object(outer))
     }
 }
 
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index ed1ecf0..1a14b4a 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -45,7 +45,7 @@ impl Serializer for &mut ValueSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = SeqSerializer;
     type SerializeTupleStruct = SeqSerializer;
-    type SerializeTupleVariant = SeqSerializer;
+    type SerializeTupleVariant = TupleVariantSerializer;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
     type SerializeStructVariant = StructVariantSerializer;
@@ -159,10 +159,13 @@ impl Serializer for &mut ValueSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
-        Ok(SeqSerializer { elems: Vec::new() })
+        Ok(TupleVariantSerializer {
+            seq: SeqSerializer { elems: Vec::new() },
+            name: variant.to_string(),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         Ok(MapSerializer {
@@ -237,15 +240,23 @@ impl SerializeTupleStruct for SeqSerializer {
     }
 }
 
-impl SerializeTupleVariant for SeqSerializer {
+pub struct TupleVariantSerializer {
+    seq: SeqSerializer,
+    name: String,
+}
+
+impl SerializeTupleVariant for TupleVariantSerializer {
     type Ok = Value;
     type Error = BuildError;
 
     fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
-        SerializeSeq::serialize_element(self, value)
+        SerializeSeq::serialize_element(&mut self.seq, value)
     }
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        Ok(Value::Array(self.elems))
+        Ok(Value::Object(Vec::from([(
+            self.name,
+            Value::Array(self.seq.elems),
+        )])))
     }
 }
 
-- 
2.43.0


From 03cd54a86cb29a7f833f4b26075b21301dd33de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 20/46] fix: write non-finite floats in maps as null

---
 crates/toon/src/ser/stream.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index cc0fdbd..59f2bb5 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1582,12 +1582,8 @@ impl<'a, 'de> Serializer for &'a mut ScalarSerializer<'de> {
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
         if v.is_finite() {
             self.out = Some(primitives::format_f64(v));
-        } else if v.is_nan() {
-            self.out = Some(primitives::escape_and_quote("NaN"));
-        } else if v.is_sign_positive() {
-            self.out = Some(primitives::escape_and_quote("Infinity"));
         } else {
-            self.out = Some(primitives::escape_and_quote("-Infinity"));
+            self.out = Some(primitives::format_null().to_string());
         }
         Ok(())
     }
-- 
2.43.0


From 91c0cbf0166bd8d48616766f7358e4d083796418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 21/46] fix: do not overflow on a long array length in the
 direct deserializer

---
 crates/toon/src/de/direct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index 18a24b1..d711d90 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -891,7 +891,7 @@ fn parse_inline_array_header(s: &str) -> Option<(usize, char, &str)> {
     let mut i = 1usize;
     let mut n: usize = 0;
     while i < bytes.len() && bytes[i].is_ascii_digit() {
-        n = n * 10 + (bytes[i] - b'0') as usize;
+        n = n.checked_mul(10)?.checked_add((bytes[i] - b'0') as usize)?;
         i += 1;
     }
     if i >= bytes.len() {
-- 
2.43.0


From 10036a7278ffddc23a7cf60cc7247ff28a7de005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 22/46] fix: decode nested objects without copying them at
 every level

---
 crates/toon/src/de/mod.rs             |  4 ++--
 crates/toon/src/decode/path_expand.rs | 14 +++++---------
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index a11fd1f..28632a5 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -105,9 +105,9 @@ impl<'de> de::Deserializer<'de> for Deserializer {
                         if self.idx >= self.entries.len() {
                             return Ok(None);
                         }
-                        let (ref key, ref val) = self.entries[self.idx];
+                        let (ref key, ref mut val) = self.entries[self.idx];
                         let de_key = key.clone().into_deserializer();
-                        self.next_val = Some(val.clone());
+                        self.next_val = Some(core::mem::replace(val, Value::Null));
                         seed.deserialize(de_key).map(Some)
                     }
                     fn next_value_seed<VV>(
diff --git a/crates/toon/src/decode/path_expand.rs b/crates/toon/src/decode/path_expand.rs
index 8e59d94..c91a4b0 100644
--- a/crates/toon/src/decode/path_expand.rs
+++ b/crates/toon/src/decode/path_expand.rs
@@ -74,19 +74,15 @@ fn deep_merge(
 ) -> Result<(), String> {
     // Find existing entry with the same key
     if let Some(idx) = target.iter().position(|(k, _)| k == &key) {
-        let existing = &mut target[idx].1;
-
         // Check for conflicts
-        match (&existing, &value) {
-            (Value::Object(existing_obj), Value::Object(new_obj)) => {
+        match (&mut target[idx].1, value) {
+            (Value::Object(existing), Value::Object(new_obj)) => {
                 // Both are objects - deep merge
-                let mut merged = existing_obj.clone();
-                for (k, v) in new_obj.clone() {
-                    deep_merge(&mut merged, k, v, strict)?;
+                for (k, v) in new_obj {
+                    deep_merge(existing, k, v, strict)?;
                 }
-                *existing = Value::Object(merged);
             }
-            _ => {
+            (existing, value) => {
                 // Conflict: different types or primitive/array
                 if strict {
                     return Err(format!(
-- 
2.43.0


From e2638c70816d3b26762e8291f98b8067368dab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 23/46] fix: bound the nesting that dotted keys expand to

---
 crates/toon/src/decode/path_expand.rs | 28 ++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/crates/toon/src/decode/path_expand.rs b/crates/toon/src/decode/path_expand.rs
index c91a4b0..507b20f 100644
--- a/crates/toon/src/decode/path_expand.rs
+++ b/crates/toon/src/decode/path_expand.rs
@@ -101,18 +101,40 @@ fn deep_merge(
     Ok(())
 }
 
+/// Deepest nesting that dotted keys may expand to. A dotted key needs two bytes
+/// per level only, so without a limit a short document could nest deeply enough
+/// to overflow the stack.
+const MAX_EXPANDED_DEPTH: usize = 512;
+
 /// Apply path expansion to a Value, returning the expanded value.
 /// If `strict` is true, conflicts will cause an error.
 pub fn expand_paths(value: Value, strict: bool) -> Result<Value, String> {
+    expand_paths_at(value, strict, 0)
+}
+
+fn expand_paths_at(value: Value, strict: bool, depth: usize) -> Result<Value, String> {
     match value {
         Value::Object(entries) => {
             let mut result: Vec<(String, Value)> = Vec::new();
 
             for (key, val) in entries {
+                let expand = should_expand_key(&key);
+                let val_depth = if expand {
+                    depth + key.split('.').count()
+                } else {
+                    depth + 1
+                };
+                if expand && val_depth > MAX_EXPANDED_DEPTH {
+                    return Err(format!(
+                        "path expansion exceeds {} levels of nesting",
+                        MAX_EXPANDED_DEPTH
+                    ));
+                }
+
                 // Recursively expand nested values first
-                let expanded_val = expand_paths(val, strict)?;
+                let expanded_val = expand_paths_at(val, strict, val_depth)?;
 
-                if should_expand_key(&key) {
+                if expand {
                     // Expand the dotted key
                     let segments = split_key(&key);
                     let nested = build_nested_from_segments(&segments, expanded_val);
@@ -139,7 +161,7 @@ pub fn expand_paths(value: Value, strict: bool) -> Result<Value, String> {
         Value::Array(arr) => {
             let mut result = Vec::with_capacity(arr.len());
             for item in arr {
-                result.push(expand_paths(item, strict)?);
+                result.push(expand_paths_at(item, strict, depth + 1)?);
             }
             Ok(Value::Array(result))
         }
-- 
2.43.0


From 7dadde606608acd1280df1e89c5d50778b4158d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 24/46] fix: read words and zero-padded digits as strings in
 the direct deserializer

---
 crates/toon/src/de/direct.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index d711d90..bf3c51a 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -15,6 +15,7 @@ use std::{
 use serde::de::{self, DeserializeOwned, IntoDeserializer, MapAccess, SeqAccess};
 
 use crate::decode::scanner::{LineKind, ParsedLine, scan};
+use crate::number::has_forbidden_leading_zeros;
 use crate::{Result, error::Error as ToONError, options::Options};
 
 #[derive(Debug)]
@@ -104,6 +105,9 @@ impl<'a> DirectDeserializer<'a> {
             "null" => return Primitive::Null,
             _ => {}
         }
+        if has_forbidden_leading_zeros(s) {
+            return Primitive::Str(s.to_string());
+        }
         let bs = s.as_bytes();
         if !bs.is_empty() {
             if bs[0] == b'-' {
@@ -118,8 +122,14 @@ impl<'a> DirectDeserializer<'a> {
                 }
             }
         }
-        if let Ok(f) = s.parse::<f64>() {
-            return Primitive::F64(f);
+        // Words such as "inf" and "nan" parse as floats but are strings
+        let numeric = bs
+            .iter()
+            .all(|c| matches!(c, b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E'));
+        if numeric {
+            if let Ok(f) = s.parse::<f64>() {
+                return Primitive::F64(f);
+            }
         }
         Primitive::Str(s.to_string())
     }
-- 
2.43.0


From 35f374d3eddb959c69b74aa74f6ba431cd84b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 25/46] fix: keep non-ASCII spaces of values in the direct
 deserializer

---
 crates/toon/src/de/direct.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index bf3c51a..7099f5e 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -251,7 +251,7 @@ impl<'de, 'a, 'b> SeqAccess<'de> for SeqDe<'a, 'b> {
             // 2) Object on hyphen line: variants
             if let Some(colon) = find_unquoted_colon(vs) {
                 let (kraw, rest) = vs.split_at(colon);
-                let after = rest[1..].trim_start();
+                let after = rest[1..].trim_start_matches([' ', '\t']);
                 let siblings_indent = self.indent + 2;
                 // 2a) Tabular header on hyphen line: key[N]{fields}:
                 if after.is_empty() {
@@ -744,7 +744,7 @@ fn parse_header(s: &str) -> Option<(char, &str)> {
         return None;
     }
     let dch = it.next()?;
-    Some((dch, it.as_str().trim_start()))
+    Some((dch, it.as_str().trim_start_matches([' ', '\t'])))
 }
 
 fn unescape_json_string(s: &str) -> Option<String> {
@@ -926,7 +926,7 @@ fn parse_inline_array_header(s: &str) -> Option<(usize, char, &str)> {
     if i >= bytes.len() || bytes[i] != b':' {
         return None;
     }
-    let rest = s[i + 1..].trim_start();
+    let rest = s[i + 1..].trim_start_matches([' ', '\t']);
     Some((n, dch, rest))
 }
 
-- 
2.43.0


From caaedd575d21e24ddc4f071500f4b23e6a2e4598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 26/46] fix: keep the column order of tables without the json
 feature

---
 crates/toon/src/ser/stream.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 59f2bb5..f18a20c 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1419,16 +1419,21 @@ fn is_tabular_array_alloc(arr: &[IValue]) -> Option<Vec<String>> {
             IValue::Object(pairs) => pairs,
             _ => return None,
         };
-        let mut kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
-        kset.sort();
+        let kset: Vec<String> = obj.iter().map(|(k, _)| k.clone()).collect();
         if let Some(ref ks) = keys {
-            if *ks != kset {
+            // Check if keys match (order-insensitive comparison)
+            let mut kset_sorted = kset.clone();
+            kset_sorted.sort();
+            let mut ks_sorted = ks.clone();
+            ks_sorted.sort();
+            if ks_sorted != kset_sorted {
                 return None;
             }
         } else if kset.is_empty() {
             // A table needs at least one column; empty objects are list items
             return None;
         } else {
+            // Use the key order from the first object
             keys = Some(kset);
         }
         for (_, vv) in obj.iter() {
-- 
2.43.0


From 8dad340caf394747aef33266fba54933287c5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 27/46] fix: fold keys in list items and variants alike in
 every entry point

---
 crates/toon/src/ser/stream.rs | 149 +++++++++++-----------------------
 1 file changed, 48 insertions(+), 101 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index f18a20c..cce6560 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -231,6 +231,8 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
             entry_count: 0,
             #[cfg(feature = "json")]
             buffered: None,
+            #[cfg(feature = "json")]
+            variant: None,
         })
     }
     fn serialize_struct(
@@ -247,6 +249,17 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
+        // The variant name takes part in key folding: keep the fields until the end
+        #[cfg(feature = "json")]
+        if self.opts.key_folding == crate::options::KeyFolding::Safe {
+            return Ok(MapSer {
+                parent: self,
+                next_key: None,
+                entry_count: 0,
+                buffered: None,
+                variant: Some(variant),
+            });
+        }
         self.w
             .line_key_only(self.indent, &primitives::format_key(variant));
         self.indent += self.opts.indent;
@@ -256,6 +269,8 @@ impl<'a, 'de> Serializer for &'a mut StreamingSerializer<'de> {
             entry_count: 0,
             #[cfg(feature = "json")]
             buffered: None,
+            #[cfg(feature = "json")]
+            variant: None,
         })
     }
 }
@@ -533,6 +548,9 @@ struct MapSer<'a, 'de> {
     /// Buffered entries for key folding collision detection
     #[cfg(feature = "json")]
     buffered: Option<Vec<(String, Value)>>,
+    /// Struct variant whose buffered fields these are
+    #[cfg(feature = "json")]
+    variant: Option<&'static str>,
 }
 
 impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
@@ -617,6 +635,18 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
+        #[cfg(feature = "json")]
+        if let Some(variant) = self.variant {
+            let fields = self.buffered.unwrap_or_default().into_iter().collect();
+            return crate::encode::encoders::encode_object_field(
+                variant,
+                &Value::Object(fields),
+                self.parent.w,
+                self.parent.opts,
+                self.parent.indent,
+            )
+            .map_err(|e| SerError::custom(e.to_string()));
+        }
         // Emit buffered entries with collision detection
         #[cfg(feature = "json")]
         if let Some(entries) = self.buffered {
@@ -783,44 +813,14 @@ fn encode_list_item_json(
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
                     for (k, v) in iter {
-                        let key_fmt = primitives::format_key(k);
-                        match v {
-                            Value::Null => {
-                                w.line_kv(indent + opts.indent, &key_fmt, primitives::format_null())
-                            }
-                            Value::Bool(b) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                primitives::format_bool(*b),
-                            ),
-                            Value::Number(n) => {
-                                w.line_kv(indent + opts.indent, &key_fmt, &n.to_string())
-                            }
-                            Value::String(s) => w.line_kv(
-                                indent + opts.indent,
-                                &key_fmt,
-                                &primitives::format_string(s, opts.delimiter),
-                            ),
-                            Value::Array(arr) => {
-                                encode_keyed_array_json(
-                                    &key_fmt,
-                                    arr,
-                                    w,
-                                    opts,
-                                    indent + opts.indent,
-                                )?;
-                            }
-                            Value::Object(_) => {
-                                w.line_key_only(indent + opts.indent, &key_fmt);
-                                crate::encode::encoders::encode_value(
-                                    v,
-                                    w,
-                                    opts,
-                                    indent + 2 * opts.indent,
-                                )
-                                .map_err(|e| SerError::custom(e.to_string()))?;
-                            }
-                        }
+                        crate::encode::encoders::encode_object_field(
+                            k,
+                            v,
+                            w,
+                            opts,
+                            indent + opts.indent,
+                        )
+                        .map_err(|e| SerError::custom(e.to_string()))?;
                     }
                     return Ok(());
                 }
@@ -888,46 +888,14 @@ fn encode_list_item_json(
                     w.line(indent, &format!("- {}:", first_key_fmt));
                     if !inner_obj.is_empty() {
                         for (k, v) in inner_obj {
-                            let key_fmt = primitives::format_key(k);
-                            match v {
-                                Value::Null => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    primitives::format_null(),
-                                ),
-                                Value::Bool(b) => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    primitives::format_bool(*b),
-                                ),
-                                Value::Number(n) => {
-                                    w.line_kv(indent + 2 * opts.indent, &key_fmt, &n.to_string())
-                                }
-                                Value::String(s) => w.line_kv(
-                                    indent + 2 * opts.indent,
-                                    &key_fmt,
-                                    &primitives::format_string(s, opts.delimiter),
-                                ),
-                                Value::Array(arr) => {
-                                    encode_keyed_array_json(
-                                        &key_fmt,
-                                        arr,
-                                        w,
-                                        opts,
-                                        indent + 2 * opts.indent,
-                                    )?;
-                                }
-                                Value::Object(_) => {
-                                    w.line_key_only(indent + 2 * opts.indent, &key_fmt);
-                                    crate::encode::encoders::encode_value(
-                                        v,
-                                        w,
-                                        opts,
-                                        indent + 3 * opts.indent,
-                                    )
-                                    .map_err(|e| SerError::custom(e.to_string()))?;
-                                }
-                            }
+                            crate::encode::encoders::encode_object_field(
+                                k,
+                                v,
+                                w,
+                                opts,
+                                indent + 2 * opts.indent,
+                            )
+                            .map_err(|e| SerError::custom(e.to_string()))?;
                         }
                     }
                 }
@@ -935,29 +903,8 @@ fn encode_list_item_json(
 
             // Remaining fields at depth + 1 (indent + opts.indent)
             for (k, v) in iter {
-                let key_fmt = primitives::format_key(k);
-                match v {
-                    Value::Null => {
-                        w.line_kv(indent + opts.indent, &key_fmt, primitives::format_null())
-                    }
-                    Value::Bool(b) => {
-                        w.line_kv(indent + opts.indent, &key_fmt, primitives::format_bool(*b))
-                    }
-                    Value::Number(n) => w.line_kv(indent + opts.indent, &key_fmt, &n.to_string()),
-                    Value::String(s) => w.line_kv(
-                        indent + opts.indent,
-                        &key_fmt,
-                        &primitives::format_string(s, opts.delimiter),
-                    ),
-                    Value::Array(arr) => {
-                        encode_keyed_array_json(&key_fmt, arr, w, opts, indent + opts.indent)?;
-                    }
-                    Value::Object(_) => {
-                        w.line_key_only(indent + opts.indent, &key_fmt);
-                        crate::encode::encoders::encode_value(v, w, opts, indent + 2 * opts.indent)
-                            .map_err(|e| SerError::custom(e.to_string()))?;
-                    }
-                }
+                crate::encode::encoders::encode_object_field(k, v, w, opts, indent + opts.indent)
+                    .map_err(|e| SerError::custom(e.to_string()))?;
             }
         }
     }
-- 
2.43.0


From 0d2a52a81cc0df73ecf2b14f59c68c39ad60f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 28/46] fix: write numbers of maps and arrays in canonical form

---
 crates/toon/src/encode/encoders.rs   | 15 +++++++++------
 crates/toon/src/encode/primitives.rs | 10 ++++++++++
 crates/toon/src/ser/stream.rs        |  9 ++++++---
 crates/toon/src/ser/value_builder.rs |  2 +-
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index d315946..d150876 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -29,7 +29,7 @@ pub fn encode_value(
     match value {
         Value::Null => w.line(indent, primitives::format_null()),
         Value::Bool(b) => w.line(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line(indent, &n.to_string()),
+        Value::Number(n) => w.line(indent, &primitives::format_json_number(n)),
         Value::String(s) => {
             let fs = primitives::format_string(s, opts.delimiter);
             w.line(indent, &fs)
@@ -137,7 +137,7 @@ fn encode_object_field_with_context(
     match value {
         Value::Null => w.line_kv(indent, &key_fmt, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, &key_fmt, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, &key_fmt, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, &key_fmt, &primitives::format_json_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             &key_fmt,
@@ -327,7 +327,7 @@ fn encode_folded_value(
     match value {
         Value::Null => w.line_kv(indent, folded_key, primitives::format_null()),
         Value::Bool(b) => w.line_kv(indent, folded_key, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_kv(indent, folded_key, &n.to_string()),
+        Value::Number(n) => w.line_kv(indent, folded_key, &primitives::format_json_number(n)),
         Value::String(s) => w.line_kv(
             indent,
             folded_key,
@@ -513,7 +513,7 @@ fn encode_list_item(item: &Value, w: &mut LineWriter, opts: &Options, indent: us
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
+        Value::Number(n) => w.line_list_item(indent, &primitives::format_json_number(n)),
         Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
         Value::Array(inner) => {
             // Array of arrays: - [M]: v1,v2 or - [M]: with nested
@@ -637,7 +637,10 @@ fn encode_list_item_object(
             indent,
             &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
         ),
-        Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
+        Value::Number(n) => w.line(
+            indent,
+            &format!("- {}: {}", first_key_fmt, primitives::format_json_number(n)),
+        ),
         Value::String(s) => {
             let v = primitives::format_string(s, opts.delimiter);
             w.line(indent, &format!("- {}: {}", first_key_fmt, v));
@@ -707,7 +710,7 @@ fn format_primitive_value(v: &Value, delim: crate::options::Delimiter) -> String
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => primitives::format_json_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
diff --git a/crates/toon/src/encode/primitives.rs b/crates/toon/src/encode/primitives.rs
index f613b46..a33ce78 100644
--- a/crates/toon/src/encode/primitives.rs
+++ b/crates/toon/src/encode/primitives.rs
@@ -201,3 +201,13 @@ pub fn format_null() -> &'static str {
 pub fn format_f64(f: f64) -> String {
     format_canonical_f64(f)
 }
+
+/// Format a JSON number in canonical form: floats never use an exponent or a
+/// trailing zero fraction.
+#[cfg(feature = "json")]
+pub fn format_json_number(n: &serde_json::Number) -> String {
+    match n.as_f64() {
+        Some(f) if n.is_f64() => format_canonical_f64(f),
+        _ => n.to_string(),
+    }
+}
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index cce6560..0edf728 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -723,7 +723,7 @@ fn format_primitive_value_json(v: &Value, delim: crate::options::Delimiter) -> S
     match v {
         Value::Null => primitives::format_null().to_string(),
         Value::Bool(b) => primitives::format_bool(*b).to_string(),
-        Value::Number(n) => n.to_string(),
+        Value::Number(n) => primitives::format_json_number(n),
         Value::String(s) => primitives::format_string(s, delim),
         _ => "null".to_string(),
     }
@@ -739,7 +739,7 @@ fn encode_list_item_json(
     match item {
         Value::Null => w.line_list_item(indent, primitives::format_null()),
         Value::Bool(b) => w.line_list_item(indent, primitives::format_bool(*b)),
-        Value::Number(n) => w.line_list_item(indent, &n.to_string()),
+        Value::Number(n) => w.line_list_item(indent, &primitives::format_json_number(n)),
         Value::String(s) => w.line_list_item(indent, &primitives::format_string(s, opts.delimiter)),
         Value::Array(items) => {
             let len = items.len();
@@ -836,7 +836,10 @@ fn encode_list_item_json(
                     indent,
                     &format!("- {}: {}", first_key_fmt, primitives::format_bool(*b)),
                 ),
-                Value::Number(n) => w.line(indent, &format!("- {}: {}", first_key_fmt, n)),
+                Value::Number(n) => w.line(
+                    indent,
+                    &format!("- {}: {}", first_key_fmt, primitives::format_json_number(n)),
+                ),
                 Value::String(s) => {
                     let v = primitives::format_string(s, opts.delimiter);
                     w.line(indent, &format!("- {}: {}", first_key_fmt, v));
diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index f47950b..9863017 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -281,7 +281,7 @@ impl SerializeMap for MapSerializer {
         let v = key.serialize(&mut ser)?;
         let s = match v {
             Value::String(s) => s,
-            Value::Number(n) => n.to_string(),
+            Value::Number(n) => crate::encode::primitives::format_json_number(&n),
             Value::Bool(b) => {
                 if b {
                     "true".into()
-- 
2.43.0


From cac9e911153ca77d8b0b34ba3a5c42ef1f548d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 29/46] fix: detect a blank line between array items after
 nested content

---
 crates/toon/src/decode/parser.rs | 38 +++++++++++++-------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 76d7144..af162d8 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -226,29 +226,6 @@ impl<'a> Parser<'a> {
         let mut arr = Vec::new();
         let mut inside_array = false;
         loop {
-            // In strict mode, error on blank lines inside arrays (only if next non-blank is still part of this array)
-            if self.strict && inside_array {
-                if let Some(bl) = self.peek() {
-                    if matches!(bl.kind, LineKind::Blank) {
-                        // Look ahead past blanks to see if next content is still at this array's indent
-                        let saved_idx = self.idx;
-                        self.skip_blanks();
-                        let is_inside = if let Some(next) = self.peek() {
-                            next.indent == indent && matches!(next.kind, LineKind::ListItem { .. })
-                        } else {
-                            false
-                        };
-                        self.idx = saved_idx; // Restore position
-                        if is_inside {
-                            let line_no = self.idx + 1;
-                            self.error = Some(crate::error::Error::Syntax {
-                                line: line_no,
-                                message: "blank line inside array".to_string(),
-                            });
-                        }
-                    }
-                }
-            }
             self.skip_blanks();
             let (take, item_val): (bool, Option<&str>) = if let Some(line) = self.peek() {
                 if line.indent != indent {
@@ -264,6 +241,21 @@ impl<'a> Parser<'a> {
             if !take {
                 break;
             }
+            // In strict mode, error on blank lines between the items of an array, also where
+            // the contents of the previous item ended with them
+            if self.strict && inside_array && self.error.is_none() {
+                let blanks = self.lines[..self.idx]
+                    .iter()
+                    .rev()
+                    .take_while(|l| matches!(l.kind, LineKind::Blank))
+                    .count();
+                if blanks > 0 {
+                    self.error = Some(crate::error::Error::Syntax {
+                        line: self.idx + 1 - blanks,
+                        message: "blank line inside array".to_string(),
+                    });
+                }
+            }
             inside_array = true;
             self.next();
             if let Some(vs) = item_val {
-- 
2.43.0


From 6a8bad5981f1f6bf6ac14fd036b5321ba73048f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 30/46] fix: read lines that end with CRLF

---
 crates/toon/src/decode/scanner.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/toon/src/decode/scanner.rs b/crates/toon/src/decode/scanner.rs
index 0697f00..11f011b 100644
--- a/crates/toon/src/decode/scanner.rs
+++ b/crates/toon/src/decode/scanner.rs
@@ -117,6 +117,8 @@ pub fn scan<'a>(input: &'a str) -> Vec<ParsedLine<'a>> {
     let mut out = Vec::new();
     for raw in input.split_inclusive('\n') {
         let line = raw.trim_end_matches('\n');
+        // Lines may also end with CRLF
+        let line = line.strip_suffix('\r').unwrap_or(line);
         let indent = leading_spaces(line);
         let body = &line[indent..];
         if body.is_empty() {
-- 
2.43.0


From cf98fa3799ae34153ca76dfd81bb06e850650fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 31/46] fix: refuse a quoted string with an unescaped quote
 inside

---
 crates/toon/src/decode/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index af162d8..74ab797 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -118,6 +118,9 @@ impl<'a> Parser<'a> {
                             StringParseError::InvalidEscape => {
                                 "invalid escape sequence".to_string()
                             }
+                            StringParseError::UnescapedQuote => {
+                                "unescaped quote in string".to_string()
+                            }
                         },
                     });
                     // Return an empty string as a fallback
@@ -209,6 +212,9 @@ impl<'a> Parser<'a> {
                             StringParseError::InvalidEscape => {
                                 "invalid escape sequence".to_string()
                             }
+                            StringParseError::UnescapedQuote => {
+                                "unescaped quote in string".to_string()
+                            }
                         },
                     });
                     return String::new();
@@ -1785,6 +1791,7 @@ fn to_json_value(v: Value) -> serde_json::Value {
 enum StringParseError {
     Unterminated,
     InvalidEscape,
+    UnescapedQuote,
 }
 
 fn try_unescape_json_string(s: &str) -> Result<String, StringParseError> {
@@ -1824,6 +1831,9 @@ fn try_unescape_json_string(s: &str) -> Result<String, StringParseError> {
                 }
                 Some(_) => return Err(StringParseError::InvalidEscape),
             }
+        } else if ch == '"' {
+            // The string ended here, and more text follows
+            return Err(StringParseError::UnescapedQuote);
         } else {
             out.push(ch);
         }
-- 
2.43.0


From 68acae2f7ef6f825345f8fd6f9e8da78b917922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 32/46] fix: report a bare scalar nested below the first key of
 a list item

---
 crates/toon/src/decode/parser.rs | 43 +++++++++++++++++---------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 74ab797..8bbd65a 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -297,7 +297,10 @@ impl<'a> Parser<'a> {
                         // Value on lines nested below the key; siblings of the key are
                         // aligned with it, so none of those means an empty object
                         let v = match self.nested_indent(child_indent, true) {
-                            Some(nested) => self.parse_node(nested),
+                            Some(nested) => {
+                                self.check_child_has_key(child_indent);
+                                self.parse_node(nested)
+                            }
                             None => Value::Object(Vec::new()),
                         };
                         map.push((key, v));
@@ -575,25 +578,7 @@ impl<'a> Parser<'a> {
                         }
                     }
                     if !handled {
-                        // Check for bare scalar after key: - this is an error
-                        // (scalars in object context must have a key)
-                        if let Some(nl) = self.peek() {
-                            if nl.indent > indent {
-                                if let LineKind::Scalar(s) = &nl.kind {
-                                    // Only error if it's a plain scalar, not a header line
-                                    if !s.starts_with('@')
-                                        && !s.starts_with('[')
-                                        && self.error.is_none()
-                                    {
-                                        self.error = Some(crate::error::Error::Syntax {
-                                            line: self.idx + 1,
-                                            message: "missing colon in key-value context"
-                                                .to_string(),
-                                        });
-                                    }
-                                }
-                            }
-                        }
+                        self.check_child_has_key(indent);
                         let v = self.parse_node(child_indent);
                         // If key: has no children, produce empty object instead of null
                         if matches!(v, Value::Null) {
@@ -609,6 +594,24 @@ impl<'a> Parser<'a> {
         Value::Object(map)
     }
 
+    /// A bare scalar nested below a key is an error: scalars in object context must
+    /// have a key.
+    fn check_child_has_key(&mut self, indent: usize) {
+        if let Some(nl) = self.peek() {
+            if nl.indent > indent {
+                if let LineKind::Scalar(s) = &nl.kind {
+                    // Only error if it's a plain scalar, not a header line
+                    if !s.starts_with('@') && !s.starts_with('[') && self.error.is_none() {
+                        self.error = Some(crate::error::Error::Syntax {
+                            line: self.idx + 1,
+                            message: "missing colon in key-value context".to_string(),
+                        });
+                    }
+                }
+            }
+        }
+    }
+
     fn parse_scalar_line(&mut self, indent: usize) -> Value {
         let s_opt = match self.peek() {
             Some(pl) => match &pl.kind {
-- 
2.43.0


From b283f4901a00c5a430f475ccdedab7d5482a91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 33/46] fix: streaming encoder refused newtype and optional map
 keys, and non-finite ones broke an assertion

---
 crates/toon/src/ser/stream.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 0edf728..59db87a 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -1695,11 +1695,14 @@ impl Serializer for &mut KeySerializer {
         Ok(())
     }
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_f64(v as f64));
-        Ok(())
+        self.serialize_f64(v as f64)
     }
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        self.out = Some(primitives::format_f64(v));
+        self.out = Some(if v.is_finite() {
+            primitives::format_f64(v)
+        } else {
+            primitives::format_null().into()
+        });
         Ok(())
     }
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
@@ -1717,8 +1720,8 @@ impl Serializer for &mut KeySerializer {
         self.out = Some("null".into());
         Ok(())
     }
-    fn serialize_some<T: ?Sized + Serialize>(self, _value: &T) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+    fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> Result<Self::Ok, Self::Error> {
+        value.serialize(self)
     }
     fn serialize_unit(self) -> Result<Self::Ok, Self::Error> {
         self.out = Some("null".into());
@@ -1738,9 +1741,9 @@ impl Serializer for &mut KeySerializer {
     fn serialize_newtype_struct<T: ?Sized + Serialize>(
         self,
         _name: &'static str,
-        _value: &T,
+        value: &T,
     ) -> Result<Self::Ok, Self::Error> {
-        Err(SerError::custom("invalid key"))
+        value.serialize(self)
     }
     fn serialize_newtype_variant<T: ?Sized + Serialize>(
         self,
-- 
2.43.0


From 83398ec6b6c89343e13a88fcfb9749e0be539e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 34/46] fix: map keys that are arrays or objects were turned
 into some string instead of being refused

---
 crates/toon/src/ser/value_builder.rs       |  4 +++-
 crates/toon/src/ser/value_builder_alloc.rs | 10 +++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/toon/src/ser/value_builder.rs b/crates/toon/src/ser/value_builder.rs
index 9863017..27aa504 100644
--- a/crates/toon/src/ser/value_builder.rs
+++ b/crates/toon/src/ser/value_builder.rs
@@ -290,7 +290,9 @@ impl SerializeMap for MapSerializer {
                 }
             }
             Value::Null => "null".into(),
-            other => other.to_string(),
+            Value::Array(_) | Value::Object(_) => {
+                return Err(serde::ser::Error::custom("invalid key"));
+            }
         };
         self.next_key = Some(s);
         Ok(())
diff --git a/crates/toon/src/ser/value_builder_alloc.rs b/crates/toon/src/ser/value_builder_alloc.rs
index 1a14b4a..e3588be 100644
--- a/crates/toon/src/ser/value_builder_alloc.rs
+++ b/crates/toon/src/ser/value_builder_alloc.rs
@@ -283,13 +283,9 @@ impl SerializeMap for MapSerializer {
                 }
             }
             Value::Null => "null".into(),
-            other => format!(
-                "{}",
-                match other {
-                    Value::String(s) => s,
-                    _ => String::new(),
-                }
-            ),
+            Value::Array(_) | Value::Object(_) => {
+                return Err(serde::ser::Error::custom("invalid key"));
+            }
         };
         self.next_key = Some(s);
         Ok(())
-- 
2.43.0


From da073e74daaa51ce958b8e168f0746df8a360b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 35/46] fix: maps with integer, float, bool, newtype or
 optional keys could be encoded but not decoded

---
 crates/toon/src/de/direct.rs | 17 +++----
 crates/toon/src/de/mod.rs    | 93 +++++++++++++++++++++++++++++++++++-
 2 files changed, 101 insertions(+), 9 deletions(-)

diff --git a/crates/toon/src/de/direct.rs b/crates/toon/src/de/direct.rs
index 7099f5e..8309e8a 100644
--- a/crates/toon/src/de/direct.rs
+++ b/crates/toon/src/de/direct.rs
@@ -12,8 +12,9 @@ use std::{
     vec::Vec,
 };
 
-use serde::de::{self, DeserializeOwned, IntoDeserializer, MapAccess, SeqAccess};
+use serde::de::{self, DeserializeOwned, MapAccess, SeqAccess};
 
+use super::KeyDe;
 use crate::decode::scanner::{LineKind, ParsedLine, scan};
 use crate::number::has_forbidden_leading_zeros;
 use crate::{Result, error::Error as ToONError, options::Options};
@@ -369,7 +370,7 @@ impl<'de, 'a, 'b> MapAccess<'de> for MapDe<'a, 'b> {
                             k.clone(),
                             ValueKind::InlinePrimitiveArray { dch, values_str },
                         ));
-                        return seed.deserialize(k.into_deserializer()).map(Some);
+                        return seed.deserialize(KeyDe::new(k)).map(Some);
                     }
                 } else if kref.contains('[') {
                     let dch = bracket_delim_from_key(kref).unwrap_or(',');
@@ -380,10 +381,10 @@ impl<'de, 'a, 'b> MapAccess<'de> for MapDe<'a, 'b> {
                             values_str: vref,
                         },
                     ));
-                    return seed.deserialize(k.into_deserializer()).map(Some);
+                    return seed.deserialize(KeyDe::new(k)).map(Some);
                 }
                 self.pending = Some((k.clone(), ValueKind::Scalar(vref)));
-                seed.deserialize(k.into_deserializer()).map(Some)
+                seed.deserialize(KeyDe::new(k)).map(Some)
             }
             (Some(kref), None) => {
                 self.de.next();
@@ -434,7 +435,7 @@ impl<'de, 'a, 'b> MapAccess<'de> for MapDe<'a, 'b> {
                     }
                 };
                 self.pending = Some((k.clone(), vkind));
-                seed.deserialize(k.into_deserializer()).map(Some)
+                seed.deserialize(KeyDe::new(k)).map(Some)
             }
             _ => Ok(None),
         }
@@ -543,7 +544,7 @@ impl<'de, 'a, 'b> MapAccess<'de> for HyphenObjectDe<'a, 'b> {
         K: de::DeserializeSeed<'de>,
     {
         if let Some(k) = self.first_key.take() {
-            return seed.deserialize(k.into_deserializer()).map(Some);
+            return seed.deserialize(KeyDe::new(k)).map(Some);
         }
         // After the first field, parse siblings at siblings_indent
         self.de.skip_blanks();
@@ -612,7 +613,7 @@ impl<'de, 'a, 'b> MapAccess<'de> for HyphenObjectDe<'a, 'b> {
             }
         };
         self.first_val = Some(pending);
-        seed.deserialize(k.into_deserializer()).map(Some)
+        seed.deserialize(KeyDe::new(k)).map(Some)
     }
     fn next_value_seed<V>(&mut self, seed: V) -> core::result::Result<V::Value, Self::Error>
     where
@@ -725,7 +726,7 @@ impl<'de, 'h> MapAccess<'de> for RowMapDe<'h> {
             return Ok(None);
         }
         let key = &self.header[self.idx];
-        seed.deserialize(key.clone().into_deserializer()).map(Some)
+        seed.deserialize(KeyDe::new(key.clone())).map(Some)
     }
     fn next_value_seed<V>(&mut self, seed: V) -> core::result::Result<V::Value, Self::Error>
     where
diff --git a/crates/toon/src/de/mod.rs b/crates/toon/src/de/mod.rs
index 28632a5..301761c 100644
--- a/crates/toon/src/de/mod.rs
+++ b/crates/toon/src/de/mod.rs
@@ -106,7 +106,7 @@ impl<'de> de::Deserializer<'de> for Deserializer {
                             return Ok(None);
                         }
                         let (ref key, ref mut val) = self.entries[self.idx];
-                        let de_key = key.clone().into_deserializer();
+                        let de_key = KeyDe::new(key.clone());
                         self.next_val = Some(core::mem::replace(val, Value::Null));
                         seed.deserialize(de_key).map(Some)
                     }
@@ -180,6 +180,97 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     }
 }
 
+/// A map key: text, from which keys of other types are read
+pub(crate) struct KeyDe<E> {
+    key: String,
+    error: core::marker::PhantomData<E>,
+}
+
+impl<E> KeyDe<E> {
+    pub(crate) fn new(key: String) -> Self {
+        Self {
+            key,
+            error: core::marker::PhantomData,
+        }
+    }
+}
+
+macro_rules! parsed_keys {
+    ($($method:ident => $visit:ident,)*) => {
+        $(
+            fn $method<V>(self, visitor: V) -> core::result::Result<V::Value, E>
+            where
+                V: de::Visitor<'de>,
+            {
+                match self.key.parse() {
+                    Ok(k) => visitor.$visit(k),
+                    Err(_) => visitor.visit_string(self.key),
+                }
+            }
+        )*
+    };
+}
+
+impl<'de, E: de::Error> de::Deserializer<'de> for KeyDe<E> {
+    type Error = E;
+
+    fn deserialize_any<V>(self, visitor: V) -> core::result::Result<V::Value, E>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_string(self.key)
+    }
+
+    parsed_keys! {
+        deserialize_bool => visit_bool,
+        deserialize_i8 => visit_i8,
+        deserialize_i16 => visit_i16,
+        deserialize_i32 => visit_i32,
+        deserialize_i64 => visit_i64,
+        deserialize_u8 => visit_u8,
+        deserialize_u16 => visit_u16,
+        deserialize_u32 => visit_u32,
+        deserialize_u64 => visit_u64,
+        deserialize_f32 => visit_f32,
+        deserialize_f64 => visit_f64,
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> core::result::Result<V::Value, E>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> core::result::Result<V::Value, E>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> core::result::Result<V::Value, E>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_enum(self.key.into_deserializer())
+    }
+
+    serde::forward_to_deserialize_any! {
+        char str string bytes byte_buf unit unit_struct seq tuple tuple_struct
+        map struct identifier ignored_any
+    }
+}
+
 /// A variant with content: an object whose only key is the variant name
 struct EnumDe {
     variant: String,
-- 
2.43.0


From c355e6497eb3e527d743b6ad4475227dc06bdd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:42 +0000
Subject: [PATCH 36/46] fix: parse_to_value reads numbers too large for f64 as
 null, as decode_from_str does

---
 crates/toon/src/decode/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 8bbd65a..d5fd828 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1776,7 +1776,7 @@ fn to_json_value(v: Value) -> serde_json::Value {
             Number::U64(u) => serde_json::Value::Number(u.into()),
             Number::F64(f) => serde_json::Number::from_f64(f)
                 .map(serde_json::Value::Number)
-                .unwrap_or_else(|| serde_json::Value::String(f.to_string())),
+                .unwrap_or(serde_json::Value::Null),
         },
         Value::String(s) => serde_json::Value::String(s),
         Value::Array(a) => serde_json::Value::Array(a.into_iter().map(to_json_value).collect()),
-- 
2.43.0


From a2e33115b5c9a1c9ce175d80bf56fa7d9f0996b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:52 +0000
Subject: [PATCH 37/46] fix: folded keys could collide with sibling keys at the
 root and inside list items

---
 crates/toon/src/encode/encoders.rs | 36 +++++++++++++++++-------------
 crates/toon/src/ser/stream.rs      | 19 ++++++++++++----
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index d150876..29657c4 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -42,8 +42,9 @@ pub fn encode_value(
                 // Empty object: just key: with nothing following
                 // (when nested, the parent emits "key:" and this produces no additional lines)
             } else {
+                let sibling_keys: Vec<String> = obj.keys().cloned().collect();
                 for (k, v) in obj {
-                    encode_object_field_internal(k, v, w, opts, indent)?;
+                    encode_object_field_with_siblings(k, v, w, opts, indent, &sibling_keys)?;
                 }
             }
         }
@@ -51,17 +52,6 @@ pub fn encode_value(
     Ok(())
 }
 
-/// Encode an object field (key-value pair) - internal version without sibling context
-fn encode_object_field_internal(
-    key: &str,
-    value: &Value,
-    w: &mut LineWriter,
-    opts: &Options,
-    indent: usize,
-) -> Result<()> {
-    encode_object_field_with_context(key, value, w, opts, indent, None)
-}
-
 /// Encode an object field (key-value pair) - public API for streaming serializer
 pub fn encode_object_field(
     key: &str,
@@ -587,6 +577,7 @@ fn encode_list_item_object(
         return Ok(());
     }
 
+    let sibling_keys: Vec<String> = obj.keys().cloned().collect();
     let mut iter = obj.iter();
     let (first_key, first_value) = iter.next().unwrap();
     let first_key_fmt = primitives::format_key(first_key);
@@ -621,7 +612,14 @@ fn encode_list_item_object(
 
             // Other fields at depth+1 (indent + opts.indent)
             for (k, v) in iter {
-                encode_object_field(k, v, w, opts, indent + opts.indent)?;
+                encode_object_field_with_siblings(
+                    k,
+                    v,
+                    w,
+                    opts,
+                    indent + opts.indent,
+                    &sibling_keys,
+                )?;
             }
             return Ok(());
         }
@@ -691,8 +689,16 @@ fn encode_list_item_object(
         Value::Object(inner_obj) => {
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
+                let inner_keys: Vec<String> = inner_obj.keys().cloned().collect();
                 for (k, v) in inner_obj {
-                    encode_object_field(k, v, w, opts, indent + 2 * opts.indent)?;
+                    encode_object_field_with_siblings(
+                        k,
+                        v,
+                        w,
+                        opts,
+                        indent + 2 * opts.indent,
+                        &inner_keys,
+                    )?;
                 }
             }
         }
@@ -700,7 +706,7 @@ fn encode_list_item_object(
 
     // Remaining fields at depth+1 (indent + opts.indent)
     for (k, v) in iter {
-        encode_object_field(k, v, w, opts, indent + opts.indent)?;
+        encode_object_field_with_siblings(k, v, w, opts, indent + opts.indent, &sibling_keys)?;
     }
     Ok(())
 }
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 59db87a..601071f 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -779,6 +779,7 @@ fn encode_list_item_json(
                 w.line(indent, "-");
                 return Ok(());
             }
+            let sibling_keys: Vec<String> = obj.keys().cloned().collect();
             let mut iter = obj.iter();
             let (first_key, first_value) = iter.next().unwrap();
             let first_key_fmt = primitives::format_key(first_key);
@@ -813,12 +814,13 @@ fn encode_list_item_json(
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
                     for (k, v) in iter {
-                        crate::encode::encoders::encode_object_field(
+                        crate::encode::encoders::encode_object_field_with_siblings(
                             k,
                             v,
                             w,
                             opts,
                             indent + opts.indent,
+                            &sibling_keys,
                         )
                         .map_err(|e| SerError::custom(e.to_string()))?;
                     }
@@ -890,13 +892,15 @@ fn encode_list_item_json(
                 Value::Object(inner_obj) => {
                     w.line(indent, &format!("- {}:", first_key_fmt));
                     if !inner_obj.is_empty() {
+                        let inner_keys: Vec<String> = inner_obj.keys().cloned().collect();
                         for (k, v) in inner_obj {
-                            crate::encode::encoders::encode_object_field(
+                            crate::encode::encoders::encode_object_field_with_siblings(
                                 k,
                                 v,
                                 w,
                                 opts,
                                 indent + 2 * opts.indent,
+                                &inner_keys,
                             )
                             .map_err(|e| SerError::custom(e.to_string()))?;
                         }
@@ -906,8 +910,15 @@ fn encode_list_item_json(
 
             // Remaining fields at depth + 1 (indent + opts.indent)
             for (k, v) in iter {
-                crate::encode::encoders::encode_object_field(k, v, w, opts, indent + opts.indent)
-                    .map_err(|e| SerError::custom(e.to_string()))?;
+                crate::encode::encoders::encode_object_field_with_siblings(
+                    k,
+                    v,
+                    w,
+                    opts,
+                    indent + opts.indent,
+                    &sibling_keys,
+                )
+                .map_err(|e| SerError::custom(e.to_string()))?;
             }
         }
     }
-- 
2.43.0


From a7c86cf7509f7287375d1cc7b258ea6a7c935804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:49 +0000
Subject: [PATCH 38/46] fix: a bare scalar below a key was accepted when blank
 lines preceded it

---
 crates/toon/src/decode/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index d5fd828..dc79cb1 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -597,13 +597,19 @@ impl<'a> Parser<'a> {
     /// A bare scalar nested below a key is an error: scalars in object context must
     /// have a key.
     fn check_child_has_key(&mut self, indent: usize) {
-        if let Some(nl) = self.peek() {
+        let next = self
+            .lines
+            .iter()
+            .enumerate()
+            .skip(self.idx)
+            .find(|(_, pl)| !matches!(pl.kind, LineKind::Blank));
+        if let Some((at, nl)) = next {
             if nl.indent > indent {
                 if let LineKind::Scalar(s) = &nl.kind {
                     // Only error if it's a plain scalar, not a header line
                     if !s.starts_with('@') && !s.starts_with('[') && self.error.is_none() {
                         self.error = Some(crate::error::Error::Syntax {
-                            line: self.idx + 1,
+                            line: at + 1,
                             message: "missing colon in key-value context".to_string(),
                         });
                     }
-- 
2.43.0


From 008468a79f21ad86ee9b0d0ca4a01d28c74e8daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 39/46] fix: path expansion took quadratic time in the number
 of keys

---
 crates/toon/src/decode/path_expand.rs | 120 ++++++++++++++++++--------
 1 file changed, 83 insertions(+), 37 deletions(-)

diff --git a/crates/toon/src/decode/path_expand.rs b/crates/toon/src/decode/path_expand.rs
index 507b20f..0c96864 100644
--- a/crates/toon/src/decode/path_expand.rs
+++ b/crates/toon/src/decode/path_expand.rs
@@ -11,8 +11,12 @@
 //! - In strict mode, conflicts (object vs primitive/array) cause an error
 //! - In non-strict mode, later keys overwrite earlier ones (LWW)
 
+#[cfg(feature = "std")]
+use std::collections::BTreeMap;
+
 #[cfg(not(feature = "std"))]
 use alloc::{
+    collections::BTreeMap,
     format,
     string::{String, ToString},
     vec,
@@ -63,42 +67,86 @@ fn split_key(key: &str) -> Vec<&str> {
     key.split('.').collect()
 }
 
-/// Deep merge `source` into `target`, applying path expansion rules.
-/// Returns an error message if there's a conflict in strict mode.
-#[allow(clippy::ptr_arg)]
-fn deep_merge(
-    target: &mut Vec<(String, Value)>,
-    key: String,
-    value: Value,
-    strict: bool,
-) -> Result<(), String> {
-    // Find existing entry with the same key
-    if let Some(idx) = target.iter().position(|(k, _)| k == &key) {
+/// An object under construction: its entries in order and where each key is.
+#[derive(Default)]
+struct Merged {
+    entries: Vec<(String, Slot)>,
+    index: BTreeMap<String, usize>,
+}
+
+/// A value of an object under construction. Objects are opened up (and indexed)
+/// only when something is merged into them.
+enum Slot {
+    Done(Value),
+    Open(Merged),
+}
+
+impl Merged {
+    /// Deep merge `value` into the object under `key`, applying path expansion rules.
+    /// Returns an error message if there's a conflict in strict mode.
+    fn merge(&mut self, key: String, value: Value, strict: bool) -> Result<(), String> {
+        // Find existing entry with the same key
+        let Some(&idx) = self.index.get(&key) else {
+            // No existing entry - just add
+            self.index.insert(key.clone(), self.entries.len());
+            self.entries.push((key, Slot::Done(value)));
+            return Ok(());
+        };
+        let slot = &mut self.entries[idx].1;
         // Check for conflicts
-        match (&mut target[idx].1, value) {
-            (Value::Object(existing), Value::Object(new_obj)) => {
-                // Both are objects - deep merge
-                for (k, v) in new_obj {
-                    deep_merge(existing, k, v, strict)?;
-                }
+        match (slot.as_object(), value) {
+            // Both are objects - deep merge
+            (Some(existing), Value::Object(new_obj)) => existing.extend(new_obj, strict),
+            // Conflict: different types or primitive/array
+            _ if strict => Err(format!(
+                "path expansion conflict: key '{}' has conflicting types",
+                key
+            )),
+            // LWW: later value overwrites
+            (_, value) => {
+                *slot = Slot::Done(value);
+                Ok(())
             }
-            (existing, value) => {
-                // Conflict: different types or primitive/array
-                if strict {
-                    return Err(format!(
-                        "path expansion conflict: key '{}' has conflicting types",
-                        key
-                    ));
-                }
-                // LWW: later value overwrites
-                *existing = value;
+        }
+    }
+
+    fn extend(&mut self, entries: Vec<(String, Value)>, strict: bool) -> Result<(), String> {
+        for (k, v) in entries {
+            self.merge(k, v, strict)?;
+        }
+        Ok(())
+    }
+
+    fn finish(self) -> Value {
+        let finish = |slot| match slot {
+            Slot::Done(value) => value,
+            Slot::Open(merged) => merged.finish(),
+        };
+        Value::Object(
+            self.entries
+                .into_iter()
+                .map(|(k, slot)| (k, finish(slot)))
+                .collect(),
+        )
+    }
+}
+
+impl Slot {
+    /// The object in this slot, if it is one, ready for merging.
+    fn as_object(&mut self) -> Option<&mut Merged> {
+        if let Slot::Done(Value::Object(entries)) = self {
+            let mut merged = Merged::default();
+            for (k, v) in core::mem::take(entries) {
+                merged.index.insert(k.clone(), merged.entries.len());
+                merged.entries.push((k, Slot::Done(v)));
             }
+            *self = Slot::Open(merged);
+        }
+        match self {
+            Slot::Open(merged) => Some(merged),
+            Slot::Done(_) => None,
         }
-    } else {
-        // No existing entry - just add
-        target.push((key, value));
     }
-    Ok(())
 }
 
 /// Deepest nesting that dotted keys may expand to. A dotted key needs two bytes
@@ -115,7 +163,7 @@ pub fn expand_paths(value: Value, strict: bool) -> Result<Value, String> {
 fn expand_paths_at(value: Value, strict: bool, depth: usize) -> Result<Value, String> {
     match value {
         Value::Object(entries) => {
-            let mut result: Vec<(String, Value)> = Vec::new();
+            let mut result = Merged::default();
 
             for (key, val) in entries {
                 let expand = should_expand_key(&key);
@@ -141,9 +189,7 @@ fn expand_paths_at(value: Value, strict: bool, depth: usize) -> Result<Value, St
 
                     // Merge into result
                     if let Value::Object(nested_entries) = nested {
-                        for (k, v) in nested_entries {
-                            deep_merge(&mut result, k, v, strict)?;
-                        }
+                        result.extend(nested_entries, strict)?;
                     }
                 } else {
                     // Strip the marker if present and keep the key as-is
@@ -152,11 +198,11 @@ fn expand_paths_at(value: Value, strict: bool, depth: usize) -> Result<Value, St
                     } else {
                         key
                     };
-                    deep_merge(&mut result, clean_key, expanded_val, strict)?;
+                    result.merge(clean_key, expanded_val, strict)?;
                 }
             }
 
-            Ok(Value::Object(result))
+            Ok(result.finish())
         }
         Value::Array(arr) => {
             let mut result = Vec::with_capacity(arr.len());
-- 
2.43.0


From a7083bfc47135e965f74a93959f49610099a0203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 40/46] fix: key folding took quadratic time in the number of
 sibling keys

---
 crates/toon/src/encode/encoders.rs | 57 ++++++++++++++++++++----------
 crates/toon/src/ser/stream.rs      | 22 ++++++------
 2 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/crates/toon/src/encode/encoders.rs b/crates/toon/src/encode/encoders.rs
index 29657c4..a153407 100644
--- a/crates/toon/src/encode/encoders.rs
+++ b/crates/toon/src/encode/encoders.rs
@@ -10,6 +10,21 @@ use serde_json::Value;
 #[cfg(not(feature = "std"))]
 use alloc::{collections::BTreeSet, format, string::String, vec::Vec};
 
+/// The keys of one object, kept sorted for collision lookups.
+pub(crate) struct SiblingKeys<'a>(Vec<&'a str>);
+
+impl<'a> SiblingKeys<'a> {
+    pub(crate) fn new(keys: impl Iterator<Item = &'a String>) -> Self {
+        let mut keys: Vec<&str> = keys.map(String::as_str).collect();
+        keys.sort_unstable();
+        SiblingKeys(keys)
+    }
+
+    fn contains(&self, key: &str) -> bool {
+        self.0.binary_search(&key).is_ok()
+    }
+}
+
 /// Check if an array of primitives can be emitted inline (no nested arrays/objects)
 fn is_primitive_array(items: &[Value]) -> bool {
     items.iter().all(|v| {
@@ -42,9 +57,9 @@ pub fn encode_value(
                 // Empty object: just key: with nothing following
                 // (when nested, the parent emits "key:" and this produces no additional lines)
             } else {
-                let sibling_keys: Vec<String> = obj.keys().cloned().collect();
+                let sibling_keys = SiblingKeys::new(obj.keys());
                 for (k, v) in obj {
-                    encode_object_field_with_siblings(k, v, w, opts, indent, &sibling_keys)?;
+                    encode_object_field_among(k, v, w, opts, indent, &sibling_keys)?;
                 }
             }
         }
@@ -72,6 +87,19 @@ pub fn encode_object_field_with_siblings(
     opts: &Options,
     indent: usize,
     sibling_keys: &[String],
+) -> Result<()> {
+    let sibling_keys = SiblingKeys::new(sibling_keys.iter());
+    encode_object_field_among(key, value, w, opts, indent, &sibling_keys)
+}
+
+/// As `encode_object_field_with_siblings`, for many fields of one object
+pub(crate) fn encode_object_field_among(
+    key: &str,
+    value: &Value,
+    w: &mut LineWriter,
+    opts: &Options,
+    indent: usize,
+    sibling_keys: &SiblingKeys,
 ) -> Result<()> {
     encode_object_field_with_context(key, value, w, opts, indent, Some(sibling_keys))
 }
@@ -83,7 +111,7 @@ fn encode_object_field_with_context(
     w: &mut LineWriter,
     opts: &Options,
     indent: usize,
-    sibling_keys: Option<&[String]>,
+    sibling_keys: Option<&SiblingKeys>,
 ) -> Result<()> {
     let key_fmt = primitives::format_key(key);
 
@@ -139,7 +167,7 @@ fn encode_object_field_with_context(
         Value::Object(obj) => {
             w.line_key_only(indent, &key_fmt);
             if !obj.is_empty() {
-                let sibling_keys: Vec<String> = obj.keys().cloned().collect();
+                let sibling_keys = SiblingKeys::new(obj.keys());
                 for (k, v) in obj {
                     encode_object_field_with_context(
                         k,
@@ -178,7 +206,7 @@ fn try_fold_keys<'a>(
     initial_key: &str,
     initial_obj: &'a serde_json::Map<String, Value>,
     opts: &Options,
-    sibling_keys: Option<&[String]>,
+    sibling_keys: Option<&SiblingKeys>,
 ) -> Option<(String, &'a Value)> {
     // flattenDepth is the max number of segments allowed in the folded key
     let max_segments = opts.flatten_depth.unwrap_or(usize::MAX);
@@ -329,7 +357,7 @@ fn encode_folded_value(
         Value::Object(obj) => {
             w.line_key_only(indent, folded_key);
             if !obj.is_empty() {
-                let sibling_keys: Vec<String> = obj.keys().cloned().collect();
+                let sibling_keys = SiblingKeys::new(obj.keys());
                 for (k, v) in obj {
                     encode_object_field_with_context(
                         k,
@@ -577,7 +605,7 @@ fn encode_list_item_object(
         return Ok(());
     }
 
-    let sibling_keys: Vec<String> = obj.keys().cloned().collect();
+    let sibling_keys = SiblingKeys::new(obj.keys());
     let mut iter = obj.iter();
     let (first_key, first_value) = iter.next().unwrap();
     let first_key_fmt = primitives::format_key(first_key);
@@ -612,14 +640,7 @@ fn encode_list_item_object(
 
             // Other fields at depth+1 (indent + opts.indent)
             for (k, v) in iter {
-                encode_object_field_with_siblings(
-                    k,
-                    v,
-                    w,
-                    opts,
-                    indent + opts.indent,
-                    &sibling_keys,
-                )?;
+                encode_object_field_among(k, v, w, opts, indent + opts.indent, &sibling_keys)?;
             }
             return Ok(());
         }
@@ -689,9 +710,9 @@ fn encode_list_item_object(
         Value::Object(inner_obj) => {
             w.line(indent, &format!("- {}:", first_key_fmt));
             if !inner_obj.is_empty() {
-                let inner_keys: Vec<String> = inner_obj.keys().cloned().collect();
+                let inner_keys = SiblingKeys::new(inner_obj.keys());
                 for (k, v) in inner_obj {
-                    encode_object_field_with_siblings(
+                    encode_object_field_among(
                         k,
                         v,
                         w,
@@ -706,7 +727,7 @@ fn encode_list_item_object(
 
     // Remaining fields at depth+1 (indent + opts.indent)
     for (k, v) in iter {
-        encode_object_field_with_siblings(k, v, w, opts, indent + opts.indent, &sibling_keys)?;
+        encode_object_field_among(k, v, w, opts, indent + opts.indent, &sibling_keys)?;
     }
     Ok(())
 }
diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 601071f..05920da 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -651,12 +651,13 @@ impl<'a, 'de> SerializeMap for MapSer<'a, 'de> {
         #[cfg(feature = "json")]
         if let Some(entries) = self.buffered {
             // Collect all keys for collision detection
-            let sibling_keys: Vec<String> = entries.iter().map(|(k, _)| k.clone()).collect();
+            let sibling_keys =
+                crate::encode::encoders::SiblingKeys::new(entries.iter().map(|(k, _)| k));
 
-            for (key, val) in entries {
-                crate::encode::encoders::encode_object_field_with_siblings(
-                    &key,
-                    &val,
+            for (key, val) in &entries {
+                crate::encode::encoders::encode_object_field_among(
+                    key,
+                    val,
                     self.parent.w,
                     self.parent.opts,
                     self.parent.indent,
@@ -779,7 +780,7 @@ fn encode_list_item_json(
                 w.line(indent, "-");
                 return Ok(());
             }
-            let sibling_keys: Vec<String> = obj.keys().cloned().collect();
+            let sibling_keys = crate::encode::encoders::SiblingKeys::new(obj.keys());
             let mut iter = obj.iter();
             let (first_key, first_value) = iter.next().unwrap();
             let first_key_fmt = primitives::format_key(first_key);
@@ -814,7 +815,7 @@ fn encode_list_item_json(
 
                     // Remaining fields at depth + 1 (indent + opts.indent)
                     for (k, v) in iter {
-                        crate::encode::encoders::encode_object_field_with_siblings(
+                        crate::encode::encoders::encode_object_field_among(
                             k,
                             v,
                             w,
@@ -892,9 +893,10 @@ fn encode_list_item_json(
                 Value::Object(inner_obj) => {
                     w.line(indent, &format!("- {}:", first_key_fmt));
                     if !inner_obj.is_empty() {
-                        let inner_keys: Vec<String> = inner_obj.keys().cloned().collect();
+                        let inner_keys =
+                            crate::encode::encoders::SiblingKeys::new(inner_obj.keys());
                         for (k, v) in inner_obj {
-                            crate::encode::encoders::encode_object_field_with_siblings(
+                            crate::encode::encoders::encode_object_field_among(
                                 k,
                                 v,
                                 w,
@@ -910,7 +912,7 @@ fn encode_list_item_json(
 
             // Remaining fields at depth + 1 (indent + opts.indent)
             for (k, v) in iter {
-                crate::encode::encoders::encode_object_field_with_siblings(
+                crate::encode::encoders::encode_object_field_among(
                     k,
                     v,
                     w,
-- 
2.43.0


From 3e5380c0f755b87b837cab26da14d3e317a5bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:58 +0000
Subject: [PATCH 41/46] fix: rows of wide tables took quadratic time in builds
 without serde_json

---
 crates/toon/src/ser/stream.rs | 42 +++++++++++++++++------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/crates/toon/src/ser/stream.rs b/crates/toon/src/ser/stream.rs
index 05920da..a16f141 100644
--- a/crates/toon/src/ser/stream.rs
+++ b/crates/toon/src/ser/stream.rs
@@ -9,6 +9,8 @@ use crate::options::Options;
 #[cfg(not(feature = "json"))]
 use crate::value::Value as IValue;
 
+#[cfg(all(not(feature = "std"), not(feature = "json")))]
+use alloc::collections::BTreeMap;
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
@@ -16,6 +18,8 @@ use alloc::{
     vec::Vec,
 };
 
+#[cfg(all(feature = "std", not(feature = "json")))]
+use std::collections::BTreeMap;
 #[cfg(feature = "std")]
 use std::{format, string::String, vec::Vec};
 
@@ -424,13 +428,7 @@ impl<'a, 'de> SerializeSeq for SeqSerAlloc<'a, 'de> {
                     IValue::Object(pairs) => pairs,
                     _ => unreachable!(),
                 };
-                let cells: Vec<String> = keys
-                    .iter()
-                    .map(|k| {
-                        let v = obj.iter().find(|(kk, _)| kk == k).map(|(_, v)| v).unwrap();
-                        format_primitive_value_alloc(v, delim)
-                    })
-                    .collect();
+                let cells = row_cells_alloc(obj, &keys, delim);
                 let row = join_with_delim(&cells, dch);
                 self.parent
                     .w
@@ -1025,6 +1023,20 @@ fn format_primitive_value_alloc(v: &IValue, delim: crate::options::Delimiter) ->
     }
 }
 
+/// The cells of one table row, in the order of the header
+#[cfg(not(feature = "json"))]
+fn row_cells_alloc(
+    obj: &[(String, IValue)],
+    keys: &[String],
+    delim: crate::options::Delimiter,
+) -> Vec<String> {
+    // Of repeated keys the first one counts
+    let by_key: BTreeMap<&str, &IValue> = obj.iter().rev().map(|(k, v)| (&**k, v)).collect();
+    keys.iter()
+        .map(|k| format_primitive_value_alloc(by_key[&**k], delim))
+        .collect()
+}
+
 #[cfg(not(feature = "json"))]
 fn encode_list_item_alloc(
     item: &IValue,
@@ -1101,13 +1113,7 @@ fn encode_list_item_alloc(
                             IValue::Object(p) => p,
                             _ => unreachable!(),
                         };
-                        let cells: Vec<String> = keys
-                            .iter()
-                            .map(|k| {
-                                let v = obj.iter().find(|(kk, _)| kk == k).map(|(_, v)| v).unwrap();
-                                format_primitive_value_alloc(v, delim)
-                            })
-                            .collect();
+                        let cells = row_cells_alloc(obj, &keys, delim);
                         let row = join_with_delim(&cells, dch);
                         w.line(indent + 2 * opts.indent, &row);
                     }
@@ -1323,13 +1329,7 @@ fn encode_keyed_array_alloc(
                 IValue::Object(pairs) => pairs,
                 _ => unreachable!(),
             };
-            let cells: Vec<String> = keys
-                .iter()
-                .map(|k| {
-                    let v = obj.iter().find(|(kk, _)| kk == k).map(|(_, v)| v).unwrap();
-                    format_primitive_value_alloc(v, delim)
-                })
-                .collect();
+            let cells = row_cells_alloc(obj, &keys, delim);
             let row = join_with_delim(&cells, dch);
             w.line(indent + opts.indent, &row);
         }
-- 
2.43.0


From b1aef49734d1e34346d27d1b71920459433de5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 42/46] fix: strict mode took quadratic time to find duplicate
 columns of '@' tables

---
 crates/toon/src/decode/parser.rs | 48 +++++++++++++++-----------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index dc79cb1..7a423a7 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -1,7 +1,11 @@
 use crate::decode::scanner::{LineKind, ParsedLine, scan};
 
+#[cfg(feature = "std")]
+use std::collections::BTreeSet;
+
 #[cfg(not(feature = "std"))]
 use alloc::{
+    collections::BTreeSet,
     format,
     string::{String, ToString},
     vec::Vec,
@@ -464,21 +468,12 @@ impl<'a> Parser<'a> {
                                                 break;
                                             }
                                         }
-                                        for i in 0..header_keys.len() {
-                                            for j in (i + 1)..header_keys.len() {
-                                                if header_keys[i] == header_keys[j] {
-                                                    let line_no = self.idx;
-                                                    self.error =
-                                                        Some(crate::error::Error::Syntax {
-                                                            line: line_no,
-                                                            message: format!(
-                                                                "duplicate header key: {}",
-                                                                header_keys[i]
-                                                            ),
-                                                        });
-                                                    break;
-                                                }
-                                            }
+                                        if let Some(key) = repeated_key(&header_keys) {
+                                            let line_no = self.idx;
+                                            self.error = Some(crate::error::Error::Syntax {
+                                                line: line_no,
+                                                message: format!("duplicate header key: {}", key),
+                                            });
                                         }
                                     }
                                     let expected_cells = header_keys.len();
@@ -672,17 +667,12 @@ impl<'a> Parser<'a> {
                             break;
                         }
                     }
-                    for i in 0..header_keys.len() {
-                        for j in (i + 1)..header_keys.len() {
-                            if header_keys[i] == header_keys[j] {
-                                let line_no = self.idx;
-                                self.error = Some(crate::error::Error::Syntax {
-                                    line: line_no,
-                                    message: format!("duplicate header key: {}", header_keys[i]),
-                                });
-                                break;
-                            }
-                        }
+                    if let Some(key) = repeated_key(&header_keys) {
+                        let line_no = self.idx;
+                        self.error = Some(crate::error::Error::Syntax {
+                            line: line_no,
+                            message: format!("duplicate header key: {}", key),
+                        });
                     }
                 }
 
@@ -1152,6 +1142,12 @@ fn mark_literal_key(key: &str) -> String {
     marked
 }
 
+/// The last key that occurs again further on
+fn repeated_key(keys: &[String]) -> Option<&String> {
+    let mut seen = BTreeSet::new();
+    keys.iter().rev().find(|k| !seen.insert(k.as_str()))
+}
+
 /// Legacy header parser for old @<delim> format (for backwards compatibility during transition)
 fn parse_header(s: &str) -> Option<(char, &str)> {
     let mut it = s.chars();
-- 
2.43.0


From f874fc860a26e7c08acaa7883bbfc03ac4a8e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:26 +0000
Subject: [PATCH 43/46] fix: spaces at the ends of lines were read as part of
 values

---
 crates/toon/src/decode/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/toon/src/decode/scanner.rs b/crates/toon/src/decode/scanner.rs
index 11f011b..4ac9b4d 100644
--- a/crates/toon/src/decode/scanner.rs
+++ b/crates/toon/src/decode/scanner.rs
@@ -120,7 +120,8 @@ pub fn scan<'a>(input: &'a str) -> Vec<ParsedLine<'a>> {
         // Lines may also end with CRLF
         let line = line.strip_suffix('\r').unwrap_or(line);
         let indent = leading_spaces(line);
-        let body = &line[indent..];
+        // Spaces at the end of a line belong to no value: strings that end with one are quoted
+        let body = line[indent..].trim_end_matches(' ');
         if body.is_empty() {
             out.push(ParsedLine {
                 indent,
-- 
2.43.0


From 30105bd7bb2cfe200fda90834b8fc36af948fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:26 +0000
Subject: [PATCH 44/46] fix: blank lines below a key or an array header lost
 the contents or were refused

---
 crates/toon/src/decode/parser.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 7a423a7..09ffcc7 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -414,15 +414,11 @@ impl<'a> Parser<'a> {
                     self.next();
                     let k = self.parse_key_token(kref);
                     // A key with nothing nested below it is an empty object
-                    if self.nested_indent(indent, true).is_none() {
+                    let Some(child_indent) = self.nested_indent(indent, true) else {
                         map.push((k, Value::Object(Vec::new())));
                         continue;
-                    }
-                    // Detect actual child indent from next line (supports non-multiple indentation in non-strict mode)
-                    let child_indent = self
-                        .peek()
-                        .map(|l| l.indent)
-                        .unwrap_or(indent + self.indent_size);
+                    };
+                    self.skip_blanks();
                     let mut handled = false;
                     if let Some(nl) = self.peek() {
                         if nl.indent == child_indent && nl.indent > indent {
@@ -934,10 +930,9 @@ impl<'a> Parser<'a> {
         allow_same_level_items: bool,
     ) -> Value {
         let header_line_no = self.idx;
-        let child_indent = match self.nested_indent(base, allow_same_level_items) {
-            Some(_) => self.peek().map(|l| l.indent).unwrap_or(base),
-            None => NO_CHILDREN,
-        };
+        let child_indent = self
+            .nested_indent(base, allow_same_level_items)
+            .unwrap_or(NO_CHILDREN);
 
         // In strict mode, check for delimiter mismatch between bracket and brace
         if self.strict && header.fields_delimiter_mismatch && self.error.is_none() {
-- 
2.43.0


From a9f6b680de6c9117d60a1890aa4aef1d2ac36b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:26 +0000
Subject: [PATCH 45/46] fix: strict mode refused blank lines after the rows of
 an '@' table

---
 crates/toon/src/decode/parser.rs | 44 ++++++++++++++++----------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/crates/toon/src/decode/parser.rs b/crates/toon/src/decode/parser.rs
index 09ffcc7..58ffbbd 100644
--- a/crates/toon/src/decode/parser.rs
+++ b/crates/toon/src/decode/parser.rs
@@ -81,6 +81,16 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Whether blank lines come next and then a list item at `indent`.
+    fn blank_before_item(&self, indent: usize) -> bool {
+        let mut rest = self.lines.iter().skip(self.idx).peekable();
+        rest.peek()
+            .is_some_and(|l| matches!(l.kind, LineKind::Blank))
+            && rest
+                .find(|l| !matches!(l.kind, LineKind::Blank))
+                .is_some_and(|l| l.indent == indent && matches!(l.kind, LineKind::ListItem { .. }))
+    }
+
     fn peek(&self) -> Option<&ParsedLine<'a>> {
         self.lines.get(self.idx)
     }
@@ -475,18 +485,12 @@ impl<'a> Parser<'a> {
                                     let expected_cells = header_keys.len();
                                     let mut rows: Vec<Value> = Vec::new();
                                     loop {
-                                        if self.strict {
-                                            if let Some(bl) = self.peek() {
-                                                if matches!(bl.kind, LineKind::Blank) {
-                                                    let line_no = self.idx + 1;
-                                                    self.error =
-                                                        Some(crate::error::Error::Syntax {
-                                                            line: line_no,
-                                                            message: "blank line inside table"
-                                                                .to_string(),
-                                                        });
-                                                }
-                                            }
+                                        if self.strict && self.blank_before_item(child_indent) {
+                                            let line_no = self.idx + 1;
+                                            self.error = Some(crate::error::Error::Syntax {
+                                                line: line_no,
+                                                message: "blank line inside table".to_string(),
+                                            });
                                         }
                                         self.skip_blanks();
                                         let row_item: Option<&str> = if let Some(rowl) = self.peek()
@@ -676,16 +680,12 @@ impl<'a> Parser<'a> {
                 let mut rows: Vec<Value> = Vec::new();
 
                 loop {
-                    if self.strict {
-                        if let Some(bl) = self.peek() {
-                            if matches!(bl.kind, LineKind::Blank) {
-                                let line_no = self.idx + 1;
-                                self.error = Some(crate::error::Error::Syntax {
-                                    line: line_no,
-                                    message: "blank line inside table".to_string(),
-                                });
-                            }
-                        }
+                    if self.strict && self.blank_before_item(indent) {
+                        let line_no = self.idx + 1;
+                        self.error = Some(crate::error::Error::Syntax {
+                            line: line_no,
+                            message: "blank line inside table".to_string(),
+                        });
                     }
                     self.skip_blanks();
 
-- 
2.43.0


From 4da4864da39bdde3b887b54997e0ab047705eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 46/46] fix: a blank line with tabs in it ended the document
 for a lenient reader

---
 crates/toon/src/decode/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/toon/src/decode/scanner.rs b/crates/toon/src/decode/scanner.rs
index 4ac9b4d..6e7ddda 100644
--- a/crates/toon/src/decode/scanner.rs
+++ b/crates/toon/src/decode/scanner.rs
@@ -122,7 +122,7 @@ pub fn scan<'a>(input: &'a str) -> Vec<ParsedLine<'a>> {
         let indent = leading_spaces(line);
         // Spaces at the end of a line belong to no value: strings that end with one are quoted
         let body = line[indent..].trim_end_matches(' ');
-        if body.is_empty() {
+        if trim_ascii(body).is_empty() {
             out.push(ParsedLine {
                 indent,
                 kind: LineKind::Blank,
-- 
2.43.0

