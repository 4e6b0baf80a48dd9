From 8d2b85688731036e2a96da5f734ad27a8917c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 01/35] fix: report an invalid block scalar indentation
 indicator as an error instead of panicking

---
 src/yaml/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 9e664d1..daef4fa 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -252,8 +252,15 @@ impl YamlParser {
         Ok(if input.as_str().is_empty() {
             None
         } else {
-            let given: usize = input.as_str().parse().unwrap();
-            Some(given - 1)
+            let given = input
+                .as_str()
+                .parse::<usize>()
+                .ok()
+                .and_then(|given| given.checked_sub(1));
+            match given {
+                Some(indent) => Some(indent),
+                None => return Err(input.error("invalid indentation indicator")),
+            }
         })
     }
 
-- 
2.43.0


From fef3570cf2da53c007df08ef07c863bde7479ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 02/35] fix: strip only the own spaces of a block scalar line

---
 src/yaml/parser.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index daef4fa..05c6e40 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -551,25 +551,20 @@ pub fn parse_yaml_file(input_str: &str) -> YamlResult<Document> {
     YamlParser::yaml(input).map_err(|e| e.into())
 }
 
-fn count_whitespace_bytes_at_start(input: &str) -> usize {
-    input
-        .chars()
-        .take_while(|ch| ch.is_whitespace() && *ch != '\n')
-        .map(|ch| ch.len_utf8())
-        .sum()
+/// The amount of spaces at the start of the line: only spaces are indentation
+fn count_spaces_at_start(input: &str) -> usize {
+    input.bytes().take_while(|b| *b == b' ').count()
 }
 
 fn clean_multiline_strings(indent: Option<usize>, lines: Vec<String>) -> Vec<String> {
-    let indent = indent.unwrap_or_else(|| count_whitespace_bytes_at_start(&lines[0]));
+    let indent = indent.unwrap_or_else(|| count_spaces_at_start(&lines[0]));
 
     lines
         .into_iter()
         .map(|x| {
-            if x.is_empty() {
-                x
-            } else {
-                x[indent..].to_string()
-            }
+            // a line can be indented less than the others: only strip its own indentation
+            let strip = count_spaces_at_start(&x).min(indent);
+            x[strip..].to_string()
         })
         .collect()
 }
-- 
2.43.0


From 5674519d328e3fabf7daf3dd2d97053c8f45513d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 03/35] fix: skip the indentation of a scalar or flow value
 that starts on the line after its key

---
 src/yaml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index aa93289..aaa2ffb 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -14,7 +14,7 @@ disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ":
 unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ ANY } 
 unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ ANY } 
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
-disallowed_unquoted_string_start_elements = { "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
+disallowed_unquoted_string_start_elements = { " " | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
 disallowed_unquoted_string_elements = { ": " | "#" |  NEWLINE }
 unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ ANY } 
 unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ ANY } 
@@ -53,7 +53,7 @@ string_block_chomping = { "-" | "+" }
 
 anchor = { "*" ~ alias_name }
 alias = { "&" ~ alias_name }
-inline_value = { (anchor | inline_array | inline_hash | string ) }
+inline_value = { SPACE_SEPARATOR* ~ (anchor | inline_array | inline_hash | string ) }
 inline_array_value = { (anchor | inline_array | inline_hash | inline_array_string ) }
 
 inline_array = { "[" ~ (spaces ~ inline_array_value ~ (spaces ~ "," ~ spaces ~ inline_array_value)*)? ~ spaces ~ "]" }
-- 
2.43.0


From 75ae7471f4c8d0864d0ca986aa028d992d9ab2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 04/35] fix: accept the name of a value on the line after its
 key

---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index aaa2ffb..c898f17 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -68,7 +68,7 @@ block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml
 alternative_aliased_yaml_value = { (alias ~ spaces)? ~  (alternative_hash | alternative_array) }
 
 yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | inline_value }
-aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
+aliased_yaml_value = { (SPACE_SEPARATOR* ~ alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
 hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ | blanknl) ~ block_array_aliased_yaml_value}
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
-- 
2.43.0


From dce76958c5ac75631ac0b30b06d36abc90c6d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 05/35] fix: format a flow value as document so that it can be
 parsed again

---
 src/yaml.pest        |  2 +-
 src/yaml/document.rs | 10 +++++++++-
 src/yaml/parser.rs   |  3 ++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index c898f17..23e0d8a 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -92,5 +92,5 @@ leading_comments = { (blanknl* ~ commentnl ~ blanknl*)* }
 blank = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | (SPACE_SEPARATOR* ~ NEWLINE)? }
 blanknl = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | SPACE_SEPARATOR* ~ NEWLINE }
 
-document = { hash | array }
+document = { hash | array | inline_hash }
 yaml = { SOI ~ leading_comments ~ "---" ~ blanknl ~ commentnls ~ document ~ blank ~ (comment ~ blank)* ~ spaces ~ EOI }
diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 2e6faea..1b9655c 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -82,7 +82,15 @@ impl Document {
         for item in self.items.iter() {
             match item {
                 DocumentData::Comment(c) => write!(&mut s, "\n#{}", c),
-                DocumentData::Yaml(y) => y.format(&mut s, 0, None),
+                DocumentData::Yaml(y) => {
+                    let mut value = String::new();
+                    y.format(&mut value, 0, None)?;
+                    // the value of a document starts on its own line, also when it is a flow value
+                    match value.strip_prefix(' ') {
+                        Some(flow) => write!(&mut s, "\n{}", flow),
+                        None => write!(&mut s, "{}", value),
+                    }
+                }
             }?;
         }
         Ok(s)
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 05c6e40..ffac64f 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -525,7 +525,8 @@ impl YamlParser {
     fn document(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
         [hash(h)] => Ok(h),
-        [array(a)] => Ok(a))
+        [array(a)] => Ok(a),
+        [inline_hash(h)] => Ok(h))
     }
 
     fn yaml(input: Node) -> InternalYamlResult<Document> {
-- 
2.43.0


From ac438d60b48eea79c0b4ffa20dd359c5cbd68426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 06/35] fix: keep the comment before the first item of a nested
 hash or array parsable

---
 src/yaml.pest   | 2 +-
 src/yaml/mod.rs | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 23e0d8a..c14e93b 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -60,7 +60,7 @@ inline_array = { "[" ~ (spaces ~ inline_array_value ~ (spaces ~ "," ~ spaces ~ i
 block_array_element = { "-" ~ SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value }
 first_block_array_element = { block_array_element ~ comment? }
 block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
-block_array = { commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
+block_array = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
 alternative_array = { first_block_array_element ~ blanknl ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP ~ commentnls }
 
diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 9c27b94..17d2a4d 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -332,6 +332,10 @@ impl Yaml {
                 }
                 for (idx, element) in v.iter().enumerate() {
                     match element {
+                        // nothing can separate the dash of an array element from its value
+                        HashData::Comment(c) if idx == 0 && matches!(parent, Some(Parent::Array)) => {
+                            write!(f, " #{}", c)
+                        }
                         HashData::Comment(c) => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
@@ -375,6 +379,10 @@ impl Yaml {
                 }
                 for (idx, element) in v.iter().enumerate() {
                     match element {
+                        // nothing can separate the dash of an array element from its value
+                        ArrayData::Comment(c) if idx == 0 && matches!(parent, Some(Parent::Array)) => {
+                            write!(f, " #{}", c)
+                        }
                         ArrayData::Comment(c) => write!(f, "\n{}#{}", indent(spaces), c),
                         ArrayData::InlineComment(c) => write!(f, " #{}", c),
                         ArrayData::Element(v) => {
-- 
2.43.0


From f8f175a1b4e1ef4fb09cb5cce5c3f2f9ae35aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 07/35] fix: do not let the space after a plain scalar change
 its meaning

---
 src/yaml/mod.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 17d2a4d..ac26db3 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -304,6 +304,14 @@ impl YamlInsert for Yaml {
     }
 }
 
+/// Add a space, unless it would change the meaning of the plain scalar before it:
+/// ": " can't be part of a plain scalar and "- " starts an array element.
+fn separate_from_scalar(f: &mut String) {
+    if !f.ends_with(':') && !f.ends_with(" -") {
+        f.push(' ');
+    }
+}
+
 impl Yaml {
     pub fn format(
         &self,
@@ -322,7 +330,7 @@ impl Yaml {
                     element.1.format(f, 0, None)?;
                 }
                 if !v.is_empty() {
-                    write!(f, " ")?;
+                    separate_from_scalar(f);
                 }
                 write!(f, "}}")
             }
@@ -339,7 +347,10 @@ impl Yaml {
                         HashData::Comment(c) => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
-                        HashData::InlineComment(c) => write!(f, " #{}", c),
+                        HashData::InlineComment(c) => {
+                            separate_from_scalar(f);
+                            write!(f, "#{}", c)
+                        }
                         HashData::Element(v) => {
                             let element = Some(Parent::Hash);
                             let same_line = match (element, parent) {
@@ -369,7 +380,7 @@ impl Yaml {
                     element.format(f, 0, None)?;
                 }
                 if !v.is_empty() {
-                    write!(f, " ")?;
+                    separate_from_scalar(f);
                 }
                 write!(f, "]")
             }
@@ -384,7 +395,10 @@ impl Yaml {
                             write!(f, " #{}", c)
                         }
                         ArrayData::Comment(c) => write!(f, "\n{}#{}", indent(spaces), c),
-                        ArrayData::InlineComment(c) => write!(f, " #{}", c),
+                        ArrayData::InlineComment(c) => {
+                            separate_from_scalar(f);
+                            write!(f, "#{}", c)
+                        }
                         ArrayData::Element(v) => {
                             let element = Some(Parent::Array);
                             let same_line = match (element, parent) {
-- 
2.43.0


From 1e48a2c30557b3b6915e0ab43a1e9b5d0aa8b682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 08/35] fix: an array nested in an array element ends at the
 next element of the outer array

---
 src/yaml.pest      |  7 ++++---
 src/yaml/parser.rs | 35 +++++++++++++++++++++++++++--------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index c14e93b..e243666 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -62,14 +62,15 @@ first_block_array_element = { block_array_element ~ comment? }
 block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
 block_array = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
-alternative_array = { first_block_array_element ~ blanknl ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP ~ commentnls }
+alternative_array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
+alternative_array = { first_block_array_element ~ alternative_array_continuation? ~ commentnls }
 
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
-alternative_aliased_yaml_value = { (alias ~ spaces)? ~  (alternative_hash | alternative_array) }
+alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~  (alternative_hash | alternative_array) }
 
 yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | inline_value }
 aliased_yaml_value = { (SPACE_SEPARATOR* ~ alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
-hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ | blanknl) ~ block_array_aliased_yaml_value}
+hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value | blanknl ~ aliased_yaml_value) }
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
 hash = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_hash_element  ~ (hash_element_data)* ~ DROP ~ commentnls }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index ffac64f..bbbad82 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -363,6 +363,7 @@ impl YamlParser {
         //println!("{:#?}", input);
         match_nodes!(input.into_children();
                 [hash_key(key), block_array_aliased_yaml_value(value)] => Ok(HashElement { key, value }),
+                [hash_key(key), aliased_yaml_value(value)] => Ok(HashElement { key, value }),
         )
     }
 
@@ -487,17 +488,35 @@ impl YamlParser {
         ))
     }
 
-    fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
+    fn alternative_array_continuation(input: Node) -> InternalYamlResult<Vec<ArrayData>> {
         match_nodes!(input.into_children();
-        [first_block_array_element(element1),first_block_array_element(element2), block_array_data(elements).., commentnls(cs)] => Ok(
-            Yaml::Array(
-                element1.into_iter()
-                .chain(element2.into_iter())
+            [commentnls(cs), first_block_array_element(element), block_array_data(elements)..] => Ok(
+                cs.into_iter().map(|c| ArrayData::Comment(c))
+                .chain(element.into_iter())
                 .chain(elements.into_iter().flatten())
-                .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
                 .collect()
-            )
-        ))
+            ),
+        )
+    }
+
+    fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
+        match_nodes!(input.into_children();
+            [first_block_array_element(element1), alternative_array_continuation(cont), commentnls(cs)] => Ok(
+                Yaml::Array(
+                    element1.into_iter()
+                    .chain(cont.into_iter())
+                    .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
+                    .collect()
+                )
+            ),
+            [first_block_array_element(element1), commentnls(cs)] => Ok(
+                Yaml::Array(
+                    element1.into_iter()
+                    .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
+                    .collect()
+                )
+            ),
+        )
     }
 
     fn commentnls(input: Node) -> InternalYamlResult<Vec<String>> {
-- 
2.43.0


From ec15883b2f031eac3548eeef49e5d85b61b6931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 09/35] fix: indentation indicator of a block scalar in a
 compact nested element is relative to that element

---
 src/yaml/parser.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index bbbad82..6566427 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -258,7 +258,9 @@ impl YamlParser {
                 .ok()
                 .and_then(|given| given.checked_sub(1));
             match given {
-                Some(indent) => Some(indent),
+                Some(indent) => {
+                    Some(indent.saturating_add(compact_offset(input.as_span().start_pos().line_of())))
+                }
                 None => return Err(input.error("invalid indentation indicator")),
             }
         })
@@ -576,6 +578,22 @@ fn count_spaces_at_start(input: &str) -> usize {
     input.bytes().take_while(|b| *b == b' ').count()
 }
 
+/// How much deeper than the line itself the parent of the block scalar that starts on this line is
+/// indented. Only differs from zero for the compact notation of nested elements, such as
+/// "- key: |2", where the indentation indicator is relative to the key.
+fn compact_offset(line: &str) -> usize {
+    let indentation = count_spaces_at_start(line);
+    let mut parent = indentation;
+    while let Some(element) = line[parent..].strip_prefix("- ") {
+        let element = element.trim_start_matches(' ');
+        if element.starts_with(&['&', '|', '>'][..]) {
+            break;
+        }
+        parent = line.len() - element.len();
+    }
+    parent - indentation
+}
+
 fn clean_multiline_strings(indent: Option<usize>, lines: Vec<String>) -> Vec<String> {
     let indent = indent.unwrap_or_else(|| count_spaces_at_start(&lines[0]));
 
-- 
2.43.0


From 4911751f0798c444afe1afdbe3fce50c8bbf207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 10/35] fix: a block scalar ends at the first less indented
 line and keeps its leading blank lines

---
 src/yaml.pest      | 22 ++++++++----
 src/yaml/mod.rs    | 34 +++++++++++++++---
 src/yaml/parser.rs | 86 +++++++++++++++++++++++++++-------------------
 3 files changed, 95 insertions(+), 47 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index e243666..cb40bc2 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -40,14 +40,22 @@ single_quoted_string = { PUSH("'") ~ single_quote_content ~ POP ~ SPACE_SEPARATO
 string = { unquoted_string | double_quoted_string | single_quoted_string }
 inline_array_string = { unquoted_inline_string | double_quoted_string | single_quoted_string }
 
-block_string = @{ (!NEWLINE ~ ANY)+ | "" }
-block_empty_lines = @{ NEWLINE* }
+block_string = @{ (!NEWLINE ~ ANY)* }
+block_content_start = _{ SPACE_SEPARATOR* ~ NEWLINE }
+block_empty_lines = @{ (!(PEEK[-2..]) ~ " "* ~ NEWLINE)* }
+// lines that are indented less than the first line end the block scalar
+// a leading blank line can't be indented more than the first line that isn't blank
+block_leading_line = _{ &(PUSH(" "*) ~ NEWLINE ~ (" "* ~ NEWLINE)* ~ PEEK ~ " "* ~ !NEWLINE ~ ANY ~ DROP) ~ " "* ~ NEWLINE }
+block_auto_leading_lines = @{ block_leading_line* ~ &(PEEK ~ " "+ ~ !NEWLINE ~ ANY) | (!(PEEK ~ " ") ~ " "* ~ NEWLINE)* }
+block_explicit_leading_lines = @{ (!(PEEK ~ " ") ~ " "* ~ NEWLINE)* }
 string_multiline_content_part = { NEWLINE ~ block_empty_lines ~ PEEK[-2..] ~ block_string }
-string_multiline_trailing = @{ (NEWLINE ~ &NEWLINE)* }
-string_multiline_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
-string_multiline_indent = { (NUMBER+)* } 
-string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_indent ~ string_multiline_content }
-string_multiline_literal = { "|" ~ string_block_chomping? ~  string_multiline_indent  ~ string_multiline_content }
+string_multiline_trailing = @{ (NEWLINE ~ !(PEEK[-2..]) ~ " "* ~ &NEWLINE)* }
+string_multiline_auto_content = { block_content_start ~ block_auto_leading_lines ~ (PEEK ~ PUSH(" "+) ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_explicit_content = { block_content_start ~ block_explicit_leading_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_indent = { NUMBER+ }
+string_multiline_lines = { string_multiline_indent ~ string_multiline_explicit_content | string_multiline_auto_content }
+string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_lines }
+string_multiline_literal = { "|" ~ string_block_chomping? ~ string_multiline_lines }
 
 string_block_chomping = { "-" | "+" }
 
diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index ac26db3..7e351bc 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -312,6 +312,26 @@ fn separate_from_scalar(f: &mut String) {
     }
 }
 
+/// The indentation of a block scalar is the one of its first line that isn't blank
+fn needs_indentation_indicator(lines: &[String]) -> bool {
+    let first = lines.iter().position(|l| !l.trim_start_matches(' ').is_empty());
+    let end = first.map_or(lines.len(), |i| i + 1);
+    lines[..end].iter().any(|l| l.starts_with(' '))
+}
+
+impl AliasedYaml {
+    /// Whether this can follow the dash(es) of an array element on the same line. The content of a
+    /// block scalar with an indentation indicator can't be told apart from its compact siblings.
+    fn can_be_compact(&self) -> bool {
+        match &self.value {
+            Yaml::LiteralString(lines, _) | Yaml::FoldedString(lines, _) => {
+                !needs_indentation_indicator(lines)
+            }
+            _ => true,
+        }
+    }
+}
+
 impl Yaml {
     pub fn format(
         &self,
@@ -358,9 +378,12 @@ impl Yaml {
                                 _ => false,
                             };
 
-                            if same_line {
+                            if same_line && v.value.can_be_compact() {
                                 write!(f, " {}:", v.key)?;
                             } else {
+                                if same_line {
+                                    write!(f, " ")?;
+                                }
                                 writeln!(f, "")?;
                                 write!(f, "{}{}:", indent(spaces), v.key)?;
                             };
@@ -406,9 +429,12 @@ impl Yaml {
                                 _ => false,
                             };
 
-                            if same_line {
+                            if same_line && v.can_be_compact() {
                                 write!(f, " -")?;
                             } else {
+                                if same_line {
+                                    write!(f, " ")?;
+                                }
                                 writeln!(f, "")?;
                                 write!(f, "{}-", indent(spaces))?;
                             };
@@ -471,7 +497,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " |")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if needs_indentation_indicator(lines) {
                             write!(f, "2")?;
                         }
                     }
@@ -484,7 +510,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " >")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if needs_indentation_indicator(lines) {
                             write!(f, "2")?;
                         }
                     }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 6566427..b04c2e3 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -234,10 +234,15 @@ impl YamlParser {
     }
 
     fn block_empty_lines(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok((0..input.as_str().len())
-            .into_iter()
-            .map(|_| "".to_string())
-            .collect())
+        Ok(empty_lines(input.as_str()))
+    }
+
+    fn block_auto_leading_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        Ok(empty_lines(input.as_str()))
+    }
+
+    fn block_explicit_leading_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        Ok(empty_lines(input.as_str()))
     }
 
     fn string_block_chomping(input: Node) -> InternalYamlResult<BlockChomping> {
@@ -248,22 +253,18 @@ impl YamlParser {
         })
     }
 
-    fn string_multiline_indent(input: Node) -> InternalYamlResult<Option<usize>> {
-        Ok(if input.as_str().is_empty() {
-            None
-        } else {
-            let given = input
-                .as_str()
-                .parse::<usize>()
-                .ok()
-                .and_then(|given| given.checked_sub(1));
-            match given {
-                Some(indent) => {
-                    Some(indent.saturating_add(compact_offset(input.as_span().start_pos().line_of())))
-                }
-                None => return Err(input.error("invalid indentation indicator")),
+    fn string_multiline_indent(input: Node) -> InternalYamlResult<usize> {
+        let given = input
+            .as_str()
+            .parse::<usize>()
+            .ok()
+            .and_then(|given| given.checked_sub(1));
+        match given {
+            Some(indent) => {
+                Ok(indent.saturating_add(compact_offset(input.as_span().start_pos().line_of())))
             }
-        })
+            None => Err(input.error("invalid indentation indicator")),
+        }
     }
 
     fn string_multiline_content_part(input: Node) -> InternalYamlResult<Vec<String>> {
@@ -274,12 +275,23 @@ impl YamlParser {
     }
 
     fn string_multiline_trailing(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok(input.as_str().chars().filter(|c| *c == '\n').map(|_| String::new()).collect())
+        Ok(empty_lines(input.as_str()))
+    }
+
+    fn string_multiline_auto_content(input: Node) -> InternalYamlResult<Vec<String>> {
+        match_nodes!(input.into_children();
+        [block_auto_leading_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
+            Ok(es.into_iter()
+                .chain(std::iter::once(b))
+                .chain(bs.into_iter().flat_map(|x| x))
+                .chain(trailing)
+                .collect())
+        })
     }
 
-    fn string_multiline_content(input: Node) -> InternalYamlResult<Vec<String>> {
+    fn string_multiline_explicit_content(input: Node) -> InternalYamlResult<Vec<String>> {
         match_nodes!(input.into_children();
-        [block_empty_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
+        [block_explicit_leading_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
             Ok(es.into_iter()
                 .chain(std::iter::once(b))
                 .chain(bs.into_iter().flat_map(|x| x))
@@ -288,26 +300,25 @@ impl YamlParser {
         })
     }
 
+    fn string_multiline_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        match_nodes!(input.into_children();
+            [string_multiline_indent(indent), string_multiline_explicit_content(lines)] => Ok(strip_indentation(indent, lines)),
+            [string_multiline_auto_content(lines)] => Ok(lines),
+        )
+    }
+
     fn string_multiline_folded(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
-        [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
-            clean_multiline_strings(indent, cs), BlockChomping::Clip
-        )),
-        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
-            clean_multiline_strings(indent, cs), chomp
-        )))
+        [string_multiline_lines(lines)] => Ok(Yaml::FoldedString(lines, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_lines(lines)] => Ok(Yaml::FoldedString(lines, chomp)))
 
         // string_block_chomping
     }
 
     fn string_multiline_literal(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
-        [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
-            clean_multiline_strings(indent, cs), BlockChomping::Clip
-        )),
-        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
-            clean_multiline_strings(indent, cs), chomp
-        )))
+        [string_multiline_lines(lines)] => Ok(Yaml::LiteralString(lines, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_lines(lines)] => Ok(Yaml::LiteralString(lines, chomp)))
     }
 
     fn yaml_value(input: Node) -> InternalYamlResult<Yaml> {
@@ -594,9 +605,12 @@ fn compact_offset(line: &str) -> usize {
     parent - indentation
 }
 
-fn clean_multiline_strings(indent: Option<usize>, lines: Vec<String>) -> Vec<String> {
-    let indent = indent.unwrap_or_else(|| count_spaces_at_start(&lines[0]));
+fn empty_lines(input: &str) -> Vec<String> {
+    let newlines = input.replace("\r\n", "\n");
+    newlines.chars().filter(|c| matches!(c, '\n' | '\r')).map(|_| String::new()).collect()
+}
 
+fn strip_indentation(indent: usize, lines: Vec<String>) -> Vec<String> {
     lines
         .into_iter()
         .map(|x| {
-- 
2.43.0


From 29b0c26b5d5fac8b0a98d6844028adf418571b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 11/35] fix: fold block scalars the YAML way around blank and
 more indented lines

---
 src/yaml/string.rs | 62 ++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index 398b3db..0393993 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -10,7 +10,9 @@ fn handle_ending_newlines(s: String, chomping: BlockChomping) -> String {
         }
         BlockChomping::Clip => {
             let mut result = s.trim_end_matches('\n').to_string();
-            result.push('\n');
+            if !result.is_empty() {
+                result.push('\n');
+            }
             result
         }
         BlockChomping::Strip => s.trim_end_matches('\n').to_string(),
@@ -36,40 +38,34 @@ pub fn create_literal(s: String) -> Vec<String> {
     lines
 }
 
-/// Parse folded string to string
+/// Parse folded string to string: the line breaks around blank and more indented lines are kept,
+/// the others become a space.
 pub fn parse_folded(lines: Vec<&str>, chomping: BlockChomping) -> String {
-    if lines.is_empty() {
-        return String::new();
+    let mut result = String::new();
+    let mut previous: Option<&str> = None;
+    let mut blank_lines = 0;
+    for line in lines {
+        if line.is_empty() {
+            blank_lines += 1;
+            continue;
+        }
+        if let Some(previous) = previous {
+            if previous.starts_with(' ') || line.starts_with(' ') {
+                result.push('\n');
+            } else if blank_lines == 0 {
+                result.push(' ');
+            }
+        }
+        result.push_str(&"\n".repeat(blank_lines));
+        result.push_str(line);
+        previous = Some(line);
+        blank_lines = 0;
     }
-    let start = lines[0].to_string();
-
-    let result = lines
-        .into_iter()
-        .skip(1)
-        .fold((start, false), |(s, prev_was_empty), element| {
-            let mut c = s.clone(); // TODO
-            let is_empty = if element.is_empty() {
-                c.push_str("\n");
-                true
-            } else {
-                let without_indent = &element; // TODO: remove
-
-                if without_indent.starts_with(" ") {
-                    c.push_str("\n");
-                    c.push_str(without_indent);
-                    c.push_str("\n");
-                    true
-                } else {
-                    if !prev_was_empty {
-                        c.push_str(" ");
-                    }
-                    c.push_str(without_indent);
-                    false
-                }
-            };
-            (c, is_empty)
-        })
-        .0;
+    if previous.is_none() {
+        // only blank lines: the last one ends with the line break that depends on the chomping
+        blank_lines = blank_lines.saturating_sub(1);
+    }
+    result.push_str(&"\n".repeat(blank_lines));
     handle_ending_newlines(result, chomping)
 }
 
-- 
2.43.0


From 3c392abd3267d4d0c016da7599e5425b90fcb489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 12/35] fix: folding a long string only breaks it where the
 space is restored

---
 src/yaml/string.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index 0393993..fcdb86e 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -72,21 +72,22 @@ pub fn parse_folded(lines: Vec<&str>, chomping: BlockChomping) -> String {
 fn split_on_length(input: String, length: usize) -> Vec<String> {
     let mut result = Vec::new();
     let mut s = String::new();
-    let mut first = true;
+    let mut previous: Option<&str> = None;
     for word in input.split(" ") {
-        if s.len() + word.len() + 1 > length {
-            result.push(s.clone());
-            s = word.to_string();
-        } else {
-            if !first {
+        if let Some(previous) = previous {
+            // a line can only be broken at a single space between two words
+            let breakable = !previous.is_empty() && !word.is_empty();
+            if breakable && s.len() + word.len() + 1 > length {
+                result.push(std::mem::take(&mut s));
+            } else {
                 s.push_str(" ");
             }
-            s.push_str(word);
-            first = false;
         }
+        s.push_str(word);
+        previous = Some(word);
     }
     if !s.is_empty() {
-        result.push(s.clone());
+        result.push(s);
     }
     result
 }
-- 
2.43.0


From b9fb68f0f6be2662172bc711678f67bc2ade9d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 13/35] fix: quote strings that mean something else as a plain
 scalar

---
 src/yaml/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 7e351bc..373ce43 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -617,8 +617,9 @@ impl<T: Pretty> Pretty for Vec<T> {
 
 // Returns true when a string can be written as a plain (unquoted) YAML scalar in block context.
 // Rules based on yaml_subset's grammar:
-//   - start disallowed: [ ] { } " ' # > | newline
-//   - anywhere disallowed: ": " (colon-space), # , newlines
+//   - start disallowed: [ ] { } " ' # > | & * "- "
+//   - anywhere disallowed: ": " (colon-space), # , whitespace other than spaces
+//   - end disallowed: ":"
 // Also rejects strings that serde's untagged-enum Content mechanism misinterprets:
 // untagged enum deserialization calls deserialize_any to collect into Content, and
 // deserialize_any maps UnquotedString("2") → visit_i64(2) → Content::I64(2).
@@ -631,14 +632,17 @@ fn can_be_unquoted_in_block(s: &str) -> bool {
         return false;
     }
     match s.chars().next().unwrap() {
-        '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|' => return false,
+        '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|' | '&' | '*' => return false,
         _ => {}
     }
-    if s.contains(": ") || s.contains('#') || s.contains('\n') || s.contains('\r') {
+    if s.contains(": ") || s.ends_with(':') || s.contains('#') || s == "-" || s.starts_with("- ") {
+        return false;
+    }
+    if s.chars().any(|c| c != ' ' && c.is_whitespace()) {
         return false;
     }
     !s.parse::<i64>().is_ok() && !s.parse::<f64>().is_ok()
-        && !matches!(s, "true" | "false" | "null" | "~")
+        && !matches!(s, "true" | "false" | "null" | "Null" | "NULL" | "~")
 }
 
 fn inline_breaking_chars(s: &str) -> bool {
-- 
2.43.0


From d5107e92354c7a96d512de80a37ca8510b9b80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 14/35] fix: don't inline arrays holding plain scalars that
 break a flow array

---
 src/yaml/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 373ce43..1db4639 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -599,14 +599,14 @@ impl VisitYaml for Yaml {
 }
 
 fn is_inlineable(yaml: &Yaml) -> bool {
-    matches!(
-        yaml,
-        Yaml::UnquotedString(_)
-            | Yaml::DoubleQuotedString(_)
-            | Yaml::SingleQuotedString(_)
-            | Yaml::InlineArray(_)
-            | Yaml::InlineHash(_)
-    )
+    match yaml {
+        Yaml::UnquotedString(s) => !inline_breaking_chars(s),
+        Yaml::DoubleQuotedString(_)
+        | Yaml::SingleQuotedString(_)
+        | Yaml::InlineArray(_)
+        | Yaml::InlineHash(_) => true,
+        _ => false,
+    }
 }
 
 impl<T: Pretty> Pretty for Vec<T> {
-- 
2.43.0


From 78b9faa7c705694e6a3467808b2a849bc419d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 15/35] fix: a string with a carriage return can't become a
 block scalar

---
 src/yaml/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 1db4639..02ff48a 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -755,7 +755,10 @@ impl Pretty for Yaml {
                 let s = parse_double_quoted_string(&parts);
                 let total_length = s.len();
                 let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
-                if contains_escape {
+                if s.contains('\r') {
+                    // a carriage return can only be written as an escape
+                    Yaml::DoubleQuotedString(parts)
+                } else if contains_escape {
                     Yaml::LiteralString(create_literal(s), chomping)
                 } else if total_length > max_line_length {
                     Yaml::FoldedString(create_folded(s, max_line_length), chomping)
-- 
2.43.0


From 4cd35ff30801f3112076f95bcb5ab8525696390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 16/35] fix: a single quoted string in a flow value stays
 quoted

---
 src/yaml/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 02ff48a..e976d48 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -767,6 +767,9 @@ impl Pretty for Yaml {
                 }
             }
             Yaml::SingleQuotedString(parts) => {
+                if in_inline {
+                    return Yaml::SingleQuotedString(parts);
+                }
                 let contains_newline = parts
                     .iter()
                     .any(|x| matches!(x, SingleQuotedStringPart::BlankLines(_)));
@@ -776,12 +779,9 @@ impl Pretty for Yaml {
                 if contains_newline {
                     return Yaml::LiteralString(create_literal(s), chomping);
                 }
-                if !in_inline && can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
+                if can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
                     return Yaml::UnquotedString(s);
                 }
-                if in_inline {
-                    return Yaml::SingleQuotedString(parts);
-                }
                 if total_length > max_line_length {
                     Yaml::FoldedString(create_folded(s, max_line_length), chomping)
                 } else {
-- 
2.43.0


From 2f8a03643589c1ecdb74687a0dcf77f88ee64605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 17/35] fix: a comment after a value that becomes a block
 scalar was written into the block scalar

---
 src/yaml/mod.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index e976d48..51a8dd4 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -333,6 +333,21 @@ impl AliasedYaml {
 }
 
 impl Yaml {
+    /// Whether the last line of this value is one of a block scalar: nothing can follow it there.
+    fn ends_with_block_scalar(&self) -> bool {
+        match self {
+            Yaml::LiteralString(..) | Yaml::FoldedString(..) => true,
+            Yaml::Hash(v) => match v.last() {
+                Some(HashData::Element(e)) => e.value.value.ends_with_block_scalar(),
+                _ => false,
+            },
+            Yaml::Array(v) => match v.last() {
+                Some(ArrayData::Element(e)) => e.value.ends_with_block_scalar(),
+                _ => false,
+            },
+            _ => false,
+        }
+    }
     pub fn format(
         &self,
         f: &mut String,
@@ -359,6 +374,10 @@ impl Yaml {
                     return write!(f, " {{}}");
                 }
                 for (idx, element) in v.iter().enumerate() {
+                    let after_block_scalar = matches!(
+                        idx.checked_sub(1).map(|i| &v[i]),
+                        Some(HashData::Element(e)) if e.value.value.ends_with_block_scalar()
+                    );
                     match element {
                         // nothing can separate the dash of an array element from its value
                         HashData::Comment(c) if idx == 0 && matches!(parent, Some(Parent::Array)) => {
@@ -367,6 +386,9 @@ impl Yaml {
                         HashData::Comment(c) => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
+                        HashData::InlineComment(c) if after_block_scalar => {
+                            write!(f, "\n{}#{}", indent(spaces), c)
+                        }
                         HashData::InlineComment(c) => {
                             separate_from_scalar(f);
                             write!(f, "#{}", c)
@@ -412,12 +434,19 @@ impl Yaml {
                     return write!(f, " []");
                 }
                 for (idx, element) in v.iter().enumerate() {
+                    let after_block_scalar = matches!(
+                        idx.checked_sub(1).map(|i| &v[i]),
+                        Some(ArrayData::Element(e)) if e.value.ends_with_block_scalar()
+                    );
                     match element {
                         // nothing can separate the dash of an array element from its value
                         ArrayData::Comment(c) if idx == 0 && matches!(parent, Some(Parent::Array)) => {
                             write!(f, " #{}", c)
                         }
                         ArrayData::Comment(c) => write!(f, "\n{}#{}", indent(spaces), c),
+                        ArrayData::InlineComment(c) if after_block_scalar => {
+                            write!(f, "\n{}#{}", indent(spaces), c)
+                        }
                         ArrayData::InlineComment(c) => {
                             separate_from_scalar(f);
                             write!(f, "#{}", c)
-- 
2.43.0


From 231d7c5b1b8974bbdc56fe1c9272af828f19b113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 18/35] fix: long strings that folding would change become
 literal block scalars

---
 src/yaml/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 51a8dd4..cea74e9 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -31,7 +31,7 @@ use crate::utils::indent;
 use crate::yaml::insert::Additive;
 use crate::yaml::string::parse_double_quoted_string;
 use crate::yaml::string::parse_single_quoted_string;
-use crate::yaml::string::{create_folded, create_literal};
+use crate::yaml::string::{create_folded, create_literal, parse_folded};
 use crate::yaml::string::SingleQuotedStringEscapedChar;
 use crate::YamlPath;
 use std::fmt::Write;
@@ -680,6 +680,16 @@ fn inline_breaking_chars(s: &str) -> bool {
         || s.contains('>') || s.contains('|')
 }
 
+// Line breaks next to blank or indented lines can't always be folded: those strings become literal.
+fn folded_or_literal(s: String, chomping: BlockChomping, line_length: usize) -> Yaml {
+    let lines = create_folded(s.clone(), line_length);
+    if parse_folded(lines.iter().map(String::as_str).collect(), chomping) == s {
+        Yaml::FoldedString(lines, chomping)
+    } else {
+        Yaml::LiteralString(create_literal(s), chomping)
+    }
+}
+
 fn str_to_single_quoted_parts(s: &str) -> Vec<SingleQuotedStringPart> {
     let mut parts: Vec<SingleQuotedStringPart> = Vec::new();
     let mut buf = String::new();
@@ -790,7 +800,7 @@ impl Pretty for Yaml {
                 } else if contains_escape {
                     Yaml::LiteralString(create_literal(s), chomping)
                 } else if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
+                    folded_or_literal(s, chomping, max_line_length)
                 } else {
                     Yaml::DoubleQuotedString(parts)
                 }
@@ -812,7 +822,7 @@ impl Pretty for Yaml {
                     return Yaml::UnquotedString(s);
                 }
                 if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
+                    folded_or_literal(s, chomping, max_line_length)
                 } else {
                     Yaml::SingleQuotedString(parts)
                 }
-- 
2.43.0


From 046babeed17c62af8fa140fb799fd49e26e3ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 19/35] fix: map keys that need quotes as a value were refused

---
 src/yaml/serializer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 8fc2c34..7b0f8e5 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -141,10 +141,11 @@ fn str_to_yaml(s: &str) -> Yaml {
 }
 
 fn yaml_to_key_string(yaml: Yaml) -> Result<String, YamlSerializeError> {
-    use super::string::parse_double_quoted_string;
+    use super::string::{parse_double_quoted_string, parse_single_quoted_string};
     match yaml {
         Yaml::UnquotedString(s) => Ok(s),
         Yaml::DoubleQuotedString(ref parts) => Ok(parse_double_quoted_string(parts)),
+        Yaml::SingleQuotedString(ref parts) => Ok(parse_single_quoted_string(parts)),
         _ => Err(YamlSerializeError("non-string map key".to_string())),
     }
 }
-- 
2.43.0


From 32952796caddbd79a93c48af2efd1ba526dc28e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 20/35] fix: write block values inside a flow value as flow
 values

---
 src/yaml/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index cea74e9..8a34549 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -348,6 +348,17 @@ impl Yaml {
             _ => false,
         }
     }
+    /// Format an element of a flow value: block values can't be written there.
+    fn format_in_flow(&self, f: &mut String) -> std::fmt::Result {
+        match self {
+            Yaml::Hash(_) | Yaml::Array(_) => {
+                let flow = self.clone().pretty_with_options(true, false);
+                flow.format(f, 0, None)
+            }
+            _ => self.format(f, 0, None),
+        }
+    }
+
     pub fn format(
         &self,
         f: &mut String,
@@ -362,7 +373,7 @@ impl Yaml {
                         write!(f, ",")?;
                     }
                     write!(f, " {}:", element.0)?;
-                    element.1.format(f, 0, None)?;
+                    element.1.format_in_flow(f)?;
                 }
                 if !v.is_empty() {
                     separate_from_scalar(f);
@@ -422,7 +433,7 @@ impl Yaml {
                     if idx > 0 {
                         write!(f, ",")?;
                     }
-                    element.format(f, 0, None)?;
+                    element.format_in_flow(f)?;
                 }
                 if !v.is_empty() {
                     separate_from_scalar(f);
-- 
2.43.0


From c56a16083fbde092fe781d94914332705497be8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:16 +0000
Subject: [PATCH 21/35] fix: serialize the name of enum variants with content

---
 src/yaml/serializer.rs | 49 ++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 7b0f8e5..0b16532 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -32,6 +32,21 @@ fn aliased(value: Yaml) -> AliasedYaml {
     AliasedYaml { alias: None, value }
 }
 
+// The content of an enum variant is the value of a map with the name of the variant as its only key.
+fn tagged(variant: &'static str, content: Yaml) -> Yaml {
+    Yaml::Hash(vec![HashData::Element(HashElement {
+        key: variant.to_string(),
+        value: aliased(content),
+    })])
+}
+
+fn with_variant(variant: Option<&'static str>, content: Yaml) -> Yaml {
+    match variant {
+        Some(variant) => tagged(variant, content),
+        None => content,
+    }
+}
+
 // Returns true when a string cannot be written as a plain (unquoted) YAML scalar.
 // Also quotes strings that are unsafe in inline (flow) context, since the serializer
 // has no context. pretty() will de-quote back to unquoted in block context when safe.
@@ -256,10 +271,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         value: &T,
     ) -> Result<Yaml, Self::Error> {
-        value.serialize(self)
+        Ok(tagged(variant, value.serialize(self)?))
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<SeqSerializer, Self::Error> {
         Ok(SeqSerializer {
@@ -269,6 +284,7 @@ impl ser::Serializer for YamlSerializer {
     fn serialize_tuple(self, _len: usize) -> Result<TupleSerializer, Self::Error> {
         Ok(TupleSerializer {
             elements: Vec::new(),
+            variant: None,
         })
     }
     fn serialize_tuple_struct(
@@ -282,15 +298,19 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
-        len: usize,
+        variant: &'static str,
+        _len: usize,
     ) -> Result<TupleSerializer, Self::Error> {
-        self.serialize_tuple(len)
+        Ok(TupleSerializer {
+            elements: Vec::new(),
+            variant: Some(variant),
+        })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<MapSerializer, Self::Error> {
         Ok(MapSerializer {
             entries: Vec::new(),
             current_key: None,
+            variant: None,
         })
     }
     fn serialize_struct(
@@ -304,10 +324,14 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
-        len: usize,
+        variant: &'static str,
+        _len: usize,
     ) -> Result<MapSerializer, Self::Error> {
-        self.serialize_map(Some(len))
+        Ok(MapSerializer {
+            entries: Vec::new(),
+            current_key: None,
+            variant: Some(variant),
+        })
     }
 }
 
@@ -346,6 +370,7 @@ impl ser::SerializeSeq for SeqSerializer {
 // (e.g. the argument list) when they contain only simple scalars.
 pub struct TupleSerializer {
     elements: Vec<Yaml>,
+    variant: Option<&'static str>,
 }
 
 impl ser::SerializeTuple for TupleSerializer {
@@ -358,7 +383,7 @@ impl ser::SerializeTuple for TupleSerializer {
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        Ok(Yaml::InlineArray(self.elements))
+        Ok(with_variant(self.variant, Yaml::InlineArray(self.elements)))
     }
 }
 
@@ -393,6 +418,7 @@ impl ser::SerializeTupleVariant for TupleSerializer {
 pub struct MapSerializer {
     entries: Vec<(String, Yaml)>,
     current_key: Option<String>,
+    variant: Option<&'static str>,
 }
 
 impl ser::SerializeMap for MapSerializer {
@@ -415,7 +441,7 @@ impl ser::SerializeMap for MapSerializer {
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        Ok(Yaml::Hash(
+        let content = Yaml::Hash(
             self.entries
                 .into_iter()
                 .map(|(k, v)| {
@@ -425,7 +451,8 @@ impl ser::SerializeMap for MapSerializer {
                     })
                 })
                 .collect(),
-        ))
+        );
+        Ok(with_variant(self.variant, content))
     }
 }
 
-- 
2.43.0


From 6ea616ade57addeea12c584b6ec89e2fc9eed382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 22/35] fix: deserialize 128 bit integers

---
 src/yaml/deserializer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 049b962..e56eb9c 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -235,6 +235,16 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Err(Self::Error::custom("expected integer"))
         }
     }
+    fn deserialize_i128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<i128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_i128(v))
+        } else {
+            Err(Self::Error::custom("expected integer"))
+        }
+    }
     fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         self.deserialize_u64(visitor)
     }
@@ -254,6 +264,16 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Err(Self::Error::custom("expected unsigned integer"))
         }
     }
+    fn deserialize_u128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<u128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_u128(v))
+        } else {
+            Err(Self::Error::custom("expected unsigned integer"))
+        }
+    }
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         self.deserialize_f64(visitor)
     }
-- 
2.43.0


From 561766a8d1dda62d75c552f624e6dfeb5ecb68c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 23/35] fix: an alias stands for the last value before it with
 that name

---
 src/yaml/deserializer.rs | 86 ++++++++++++++++++++++++++++++----------
 1 file changed, 64 insertions(+), 22 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index e56eb9c..b63a8a2 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -5,7 +5,6 @@ use super::string::{
     parse_double_quoted_string, parse_folded, parse_literal, parse_single_quoted_string,
 };
 use super::{AliasedYaml, ArrayData, HashData, Yaml};
-use std::cell::RefCell;
 use std::collections::HashMap;
 use std::rc::Rc;
 
@@ -51,42 +50,83 @@ fn yaml_to_string(yaml: &Yaml) -> Option<String> {
     }
 }
 
-type Anchors = Rc<RefCell<HashMap<String, Yaml>>>;
+type Anchors = Rc<HashMap<String, Yaml>>;
 
-fn register(anchors: &Anchors, aliased: &AliasedYaml) {
+// An alias stands for the last value before it that has the name it gives. Every named value gets
+// a name of its own (names don't contain spaces) and the aliases are changed accordingly.
+fn bind(yaml: &mut Yaml, bound: &mut HashMap<String, String>, anchors: &mut HashMap<String, Yaml>) {
+    match yaml {
+        Yaml::Anchor(name) => {
+            if let Some(own_name) = bound.get(name) {
+                *name = own_name.clone();
+            }
+        }
+        Yaml::Hash(data) => {
+            for d in data.iter_mut() {
+                if let HashData::Element(e) = d {
+                    bind_aliased(&mut e.value, bound, anchors);
+                }
+            }
+        }
+        Yaml::Array(data) => {
+            for d in data.iter_mut() {
+                if let ArrayData::Element(e) = d {
+                    bind_aliased(e, bound, anchors);
+                }
+            }
+        }
+        Yaml::InlineHash(data) => {
+            for (_, v) in data.iter_mut() {
+                bind(v, bound, anchors);
+            }
+        }
+        Yaml::InlineArray(data) => {
+            for v in data.iter_mut() {
+                bind(v, bound, anchors);
+            }
+        }
+        Yaml::UnquotedString(_)
+        | Yaml::DoubleQuotedString(_)
+        | Yaml::SingleQuotedString(_)
+        | Yaml::LiteralString(_, _)
+        | Yaml::FoldedString(_, _) => {}
+    }
+}
+
+fn bind_aliased(
+    aliased: &mut AliasedYaml,
+    bound: &mut HashMap<String, String>,
+    anchors: &mut HashMap<String, Yaml>,
+) {
+    bind(&mut aliased.value, bound, anchors);
     if let Some(name) = &aliased.alias {
-        anchors.borrow_mut().insert(name.clone(), aliased.value.clone());
+        let own_name = format!("{} {}", name, anchors.len());
+        anchors.insert(own_name.clone(), aliased.value.clone());
+        bound.insert(name.clone(), own_name);
     }
 }
 
 fn resolve(anchors: &Anchors, name: &str) -> Result<Yaml, YamlDeserializeError> {
     anchors
-        .borrow()
         .get(name)
         .cloned()
         .ok_or_else(|| YamlDeserializeError(format!("undefined anchor: {name}")))
 }
 
-fn hash_entries(anchors: &Anchors, data: Vec<HashData>) -> Vec<(String, Yaml)> {
+fn hash_entries(data: Vec<HashData>) -> Vec<(String, Yaml)> {
     data.into_iter()
         .filter_map(|d| match d {
-            HashData::Element(e) => {
-                register(anchors, &e.value);
-                Some((e.key, e.value.value))
-            }
+            HashData::Element(e) => Some((e.key, e.value.value)),
             HashData::InlineComment(_) | HashData::Comment(_) => None,
         })
         .collect()
 }
 
-fn seq_values(anchors: &Anchors, elements: Vec<ArrayData>) -> Vec<Yaml> {
+fn seq_values(elements: Vec<ArrayData>) -> Vec<Yaml> {
     elements
         .into_iter()
         .filter_map(|d| match d {
-            ArrayData::Element(e) => {
-                register(anchors, &e);
-                Some(e.value)
-            }
+            ArrayData::Element(e) => Some(e.value),
             ArrayData::InlineComment(_) | ArrayData::Comment(_) => None,
         })
         .collect()
@@ -110,8 +150,10 @@ pub struct YamlDeserializer {
 }
 
 impl YamlDeserializer {
-    pub fn new(yaml: Yaml) -> Self {
-        Self { yaml, anchors: Rc::new(RefCell::new(HashMap::new())) }
+    pub fn new(mut yaml: Yaml) -> Self {
+        let mut anchors = HashMap::new();
+        bind(&mut yaml, &mut HashMap::new(), &mut anchors);
+        Self { yaml, anchors: Rc::new(anchors) }
     }
 
     fn with(yaml: Yaml, anchors: Anchors) -> Self {
@@ -184,12 +226,12 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
                 visitor.visit_string(parse_single_quoted_string(parts))
             }
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
             Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
             Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
@@ -341,7 +383,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
             Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
@@ -370,7 +412,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
             Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
@@ -413,7 +455,7 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             // Newtype / tuple / struct variant: single-key map where the key is
             // the variant name and the value is the variant's content.
             Yaml::Hash(data) => {
-                let mut entries = hash_entries(&anchors, data);
+                let mut entries = hash_entries(data);
                 if entries.len() == 1 {
                     let (variant, value) = entries.remove(0);
                     visitor.visit_enum(StrEnumAccess { variant, value, anchors })
-- 
2.43.0


From a08ecd5d82046c2888d3c11b6dcca07b8d917786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 24/35] fix: the next element of an array belongs to the array
 it is aligned with

---
 src/yaml/parser.rs | 91 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 74 insertions(+), 17 deletions(-)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index b04c2e3..e0581d7 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -513,23 +513,26 @@ impl YamlParser {
     }
 
     fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
-        match_nodes!(input.into_children();
-            [first_block_array_element(element1), alternative_array_continuation(cont), commentnls(cs)] => Ok(
-                Yaml::Array(
-                    element1.into_iter()
-                    .chain(cont.into_iter())
-                    .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
-                    .collect()
-                )
-            ),
-            [first_block_array_element(element1), commentnls(cs)] => Ok(
-                Yaml::Array(
-                    element1.into_iter()
-                    .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
-                    .collect()
-                )
-            ),
-        )
+        let aligned = aligned_continuation(&input, column(&input));
+        let belongs_to_parent = continuation_belongs_to_parent(&input);
+        let (mut elements, continuation) = match_nodes!(input.into_children();
+            [first_block_array_element(element1), alternative_array_continuation(cont), commentnls(cs)] =>
+                (element1, cont.into_iter().chain(cs.into_iter().map(|c| ArrayData::Comment(c))).collect()),
+            [first_block_array_element(element1), commentnls(cs)] =>
+                (element1, cs.into_iter().map(|c| ArrayData::Comment(c)).collect::<Vec<_>>()),
+        );
+        if let Some(nested) = aligned {
+            match_nodes!(nested.into_children();
+                [first_block_array_element(_), alternative_array_continuation(cont), commentnls(cs)] => {
+                    elements.extend(cont);
+                    elements.extend(cs.into_iter().map(|c| ArrayData::Comment(c)));
+                },
+            );
+        }
+        if !belongs_to_parent {
+            elements.extend(continuation);
+        }
+        Ok(Yaml::Array(elements))
     }
 
     fn commentnls(input: Node) -> InternalYamlResult<Vec<String>> {
@@ -589,6 +592,60 @@ fn count_spaces_at_start(input: &str) -> usize {
     input.bytes().take_while(|b| *b == b' ').count()
 }
 
+fn column(node: &Node) -> usize {
+    let start = node.as_span().start();
+    let before = &node.as_span().get_input()[..start];
+    start - before.rfind('\n').map_or(0, |newline| newline + 1)
+}
+
+fn continuation_column(array: &Node) -> Option<usize> {
+    let continuation = array
+        .children()
+        .find(|n| n.as_rule() == Rule::alternative_array_continuation)?;
+    continuation
+        .children()
+        .find(|n| n.as_rule() == Rule::first_block_array_element)
+        .map(|n| column(&n))
+}
+
+/// An array that starts on the line of its parents takes all the elements on the next lines, also
+/// when they are aligned with one of those parents, as in
+///   - - - a
+///     - b
+fn continuation_belongs_to_parent(array: &Node) -> bool {
+    let before = &array.as_span().start_pos().line_of().as_bytes()[..column(array)];
+    match continuation_column(array) {
+        Some(column) => {
+            let (indentation, parents) = before.split_at(column.min(before.len()));
+            indentation.iter().all(|c| matches!(c, b' ' | b'-')) && parents.starts_with(b"- ")
+        }
+        None => false,
+    }
+}
+
+/// The array that starts in the first element of this one and took the elements of this one.
+fn aligned_continuation<'i>(array: &Node<'i>, array_column: usize) -> Option<Node<'i>> {
+    let mut node = array.children().next()?;
+    loop {
+        if node.as_rule() == Rule::alternative_array
+            && continuation_column(&node) == Some(array_column)
+            && continuation_belongs_to_parent(&node)
+        {
+            return Some(node);
+        }
+        node = node.children().find(|n| {
+            matches!(
+                n.as_rule(),
+                Rule::block_array_element
+                    | Rule::block_array_aliased_yaml_value
+                    | Rule::alternative_aliased_yaml_value
+                    | Rule::alternative_array
+                    | Rule::first_block_array_element
+            )
+        })?;
+    }
+}
+
 /// How much deeper than the line itself the parent of the block scalar that starts on this line is
 /// indented. Only differs from zero for the compact notation of nested elements, such as
 /// "- key: |2", where the indentation indicator is relative to the key.
-- 
2.43.0


From 875a53022e03df382977dd94fe9f1f9cadbc31c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 25/35] fix: spaces in a path and index numbers that are too
 large panicked or were misread

---
 src/path.pest | 14 +++++++-------
 src/path.rs   |  3 ++-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/path.pest b/src/path.pest
index c63d648..8264ca7 100644
--- a/src/path.pest
+++ b/src/path.pest
@@ -1,14 +1,14 @@
-WHITESPACE = { " " }
+WHITESPACE = _{ " " }
 
-key_items = _{ !("[" | "]" | "." | "|") ~ ANY }
-pure_key = { key_items+ }
+// the spaces around a separator aren't part of what it separates
+pure_key = @{ (!(" "* ~ ("[" | "]" | "." | "|" | EOI)) ~ ANY)+ }
 
-field = { (!("=") ~ ANY)+ }
-value = { (!("." | "|") ~ ANY)+ }
+field = @{ (!(" "* ~ "=") ~ ANY)+ }
+value = @{ (!(" "* ~ ("." | "|" | EOI)) ~ ANY)+ }
 condition = { field ~ "=" ~ value }
 key = { pure_key ~ ( "|" ~ condition )* }
 
-index_number = { ASCII_DIGIT+ }
+index_number = @{ ASCII_DIGIT+ }
 index_all = { "*" }
 index = _{ "[" ~ (index_number | index_all) ~ "]" ~ ( "|" ~ condition )* }
 
@@ -16,5 +16,5 @@ part = { ((".") ~ key) | index }
 path = { key ~ part* }
 root_key = { "" }
 root = { root_key ~ ( "|" ~ condition )* }
-final_path = { (path | root ) ~ EOI }
+final_path = { SOI ~ (path | root ) ~ EOI }
 
diff --git a/src/path.rs b/src/path.rs
index 1f3cd36..9bb5fdf 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -32,7 +32,8 @@ impl PathParser {
     }
 
     fn index_number(input: Node) -> PathResult<Vec<usize>> {
-        Ok(vec![input.as_str().parse().unwrap()]) // TODO: remove unwrap
+        let index = input.as_str().parse().map_err(|e| input.error(e))?;
+        Ok(vec![index])
     }
     fn index_all(input: Node) -> PathResult<()> {
         Ok(())
-- 
2.43.0


From f7ce20f2745621930ef07bb95e119ceade87414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 26/35] fix: a path through an inline array goes on with its
 next part at each element

---
 src/yaml/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 8a34549..336b8bc 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -160,14 +160,16 @@ impl YamlInsert for Yaml {
                     _ => A::zero(),
                 }
             }
-            YamlPath::Indexes(indexes, conditions, _) => match self {
+            YamlPath::Indexes(indexes, conditions, other_path_opt) => match self {
                 Yaml::InlineArray(elements) => {
+                    let root = YamlPath::Root(Vec::new());
+                    let other_path = other_path_opt.as_deref().unwrap_or(&root);
                     let mut count = A::zero();
                     for index in indexes.iter() {
                         let element_opt = elements.get_mut(*index);
                         if let Some(element) = element_opt {
                             if element.fits_conditions(conditions) {
-                                count = count + element.for_hash(path, f, r)
+                                count = count + element.for_hash(other_path, f, r)
                             }
                         }
                     }
@@ -192,12 +194,14 @@ impl YamlInsert for Yaml {
                 _ => A::zero(),
             },
             //YamlPath::AllIndexes(Some(other_path)) => match self {
-            YamlPath::AllIndexes(conditions, _) => match self {
+            YamlPath::AllIndexes(conditions, other_path_opt) => match self {
                 Yaml::InlineArray(elements) => {
+                    let root = YamlPath::Root(Vec::new());
+                    let other_path = other_path_opt.as_deref().unwrap_or(&root);
                     let mut count = A::zero();
                     for element in elements.iter_mut() {
                         if element.fits_conditions(conditions) {
-                            count = count + element.for_hash(path, f, r)
+                            count = count + element.for_hash(other_path, f, r)
                         }
                     }
                     count
-- 
2.43.0


From 2a161574cc063222265a626d0b3c54029db3bcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 27/35] fix: fold the lines of quoted strings

---
 src/yaml/string.rs | 87 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 68 insertions(+), 19 deletions(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index fcdb86e..ac7f0d6 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -135,20 +135,70 @@ impl SingleQuotedStringEscapedChar {
 }
 
 pub fn parse_single_quoted_string(parts: &Vec<SingleQuotedStringPart>) -> String {
-    let mut result = String::new();
+    let mut result = QuotedLines::default();
     for part in parts.iter() {
         match part {
-            SingleQuotedStringPart::String(s) => result.push_str(&s),
-            SingleQuotedStringPart::EscapedChar(c) => result.push(c.char()),
-            SingleQuotedStringPart::BlankLines(nb) => {
-                for _ in 0..*nb {
-                    result.push_str("\n");
-                }
-            }
-            SingleQuotedStringPart::RemovableNewline => (),
+            SingleQuotedStringPart::String(s) => result.push_text(s),
+            SingleQuotedStringPart::EscapedChar(c) => result.push_char(c.char()),
+            SingleQuotedStringPart::BlankLines(nb) => result.push_newlines(*nb + 1),
+            SingleQuotedStringPart::RemovableNewline => result.push_newlines(1),
         }
     }
-    result
+    result.finish()
+}
+
+/// Folds the lines of a quoted string: the blanks around the line breaks are dropped, a single
+/// line break becomes a space and of more line breaks the first is dropped.
+#[derive(Default)]
+struct QuotedLines {
+    result: String,
+    /// length of the start of the result whose blanks were written as an escape
+    escaped: usize,
+    /// newlines since the last text, if it is followed by a line break
+    newlines: Option<usize>,
+    /// whether the first of those line breaks is escaped
+    continued: bool,
+}
+
+impl QuotedLines {
+    fn push_text(&mut self, s: &str) {
+        let s = if self.newlines.is_some() { s.trim_start_matches([' ', '\t']) } else { s };
+        if !s.is_empty() {
+            self.end_newlines();
+            self.result.push_str(s);
+        }
+    }
+    fn push_char(&mut self, c: char) {
+        self.end_newlines();
+        self.result.push(c);
+        self.escaped = self.result.len();
+    }
+    fn push_newlines(&mut self, nb: usize) {
+        if self.newlines.is_none() {
+            let text = self.result[self.escaped..].trim_end_matches([' ', '\t']).len();
+            self.result.truncate(self.escaped + text);
+        }
+        self.newlines = Some(self.newlines.unwrap_or(0) + nb);
+    }
+    fn push_escaped_newline(&mut self) {
+        self.end_newlines();
+        self.newlines = Some(0);
+        self.continued = true;
+    }
+    fn end_newlines(&mut self) {
+        match self.newlines.take() {
+            Some(nb) if self.continued => self.result.push_str(&"\n".repeat(nb)),
+            Some(1) => self.result.push(' '),
+            Some(nb) => self.result.push_str(&"\n".repeat(nb.saturating_sub(1))),
+            None => return,
+        }
+        self.continued = false;
+        self.escaped = self.result.len();
+    }
+    fn finish(mut self) -> String {
+        self.end_newlines();
+        self.result
+    }
 }
 
 #[derive(Debug, Clone, PartialEq)]
@@ -193,20 +243,19 @@ impl DoubleQuotedStringEscapedChar {
 }
 
 pub fn parse_double_quoted_string(parts: &Vec<DoubleQuotedStringPart>) -> String {
-    let mut s = String::new();
+    let mut result = QuotedLines::default();
     for part in parts {
         match part {
-            DoubleQuotedStringPart::String(s2) => s.push_str(&s2),
-            DoubleQuotedStringPart::EscapedChar(c) => s.push(c.real_char()),
-            DoubleQuotedStringPart::BlankLines(n) => {
-                for _ in 0..*n {
-                    s.push_str("\n");
-                }
+            DoubleQuotedStringPart::String(s) => result.push_text(s),
+            DoubleQuotedStringPart::EscapedChar(DoubleQuotedStringEscapedChar::RealNewline) => {
+                result.push_escaped_newline()
             }
-            DoubleQuotedStringPart::RemovableNewline => (),
+            DoubleQuotedStringPart::EscapedChar(c) => result.push_char(c.real_char()),
+            DoubleQuotedStringPart::BlankLines(nb) => result.push_newlines(*nb + 1),
+            DoubleQuotedStringPart::RemovableNewline => result.push_newlines(1),
         }
     }
-    s
+    result.finish()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 462408e19ecd6cfed0d26eeff2d24ed48eb96def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 28/35] fix: a "#" inside a plain scalar is part of it

---
 src/yaml.pest   | 12 +++++++-----
 src/yaml/mod.rs | 10 ++--------
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index cb40bc2..4b2f407 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -11,13 +11,15 @@ number = @{
 }
 disallowed_unquoted_inline_string_start_elements = { "," | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | NEWLINE }
 disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ": " | "\"" | "#" | ">" | "|" | NEWLINE }
-unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ ANY } 
-unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ ANY } 
+// a "#" only starts a comment after a blank
+unquoted_character = { (SPACE_SEPARATOR | "\t") | ANY ~ "#"* }
+unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ unquoted_character }
+unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ unquoted_character }
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
-disallowed_unquoted_string_start_elements = { " " | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
+disallowed_unquoted_string_start_elements = { " " | "-" ~ SPACE_SEPARATOR+ ~ "#" | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
 disallowed_unquoted_string_elements = { ": " | "#" |  NEWLINE }
-unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ ANY } 
-unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ ANY } 
+unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ unquoted_character }
+unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ unquoted_character }
 unquoted_string = @{ unquoted_string_start_elements ~ unquoted_string_elements* }
 string_value = @{ (("\\" ~ ANY) | (!(PEEK) ~ ANY))* }
 
diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 336b8bc..ba66f9b 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -404,10 +404,7 @@ impl Yaml {
                         HashData::InlineComment(c) if after_block_scalar => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
-                        HashData::InlineComment(c) => {
-                            separate_from_scalar(f);
-                            write!(f, "#{}", c)
-                        }
+                        HashData::InlineComment(c) => write!(f, " #{}", c),
                         HashData::Element(v) => {
                             let element = Some(Parent::Hash);
                             let same_line = match (element, parent) {
@@ -462,10 +459,7 @@ impl Yaml {
                         ArrayData::InlineComment(c) if after_block_scalar => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
-                        ArrayData::InlineComment(c) => {
-                            separate_from_scalar(f);
-                            write!(f, "#{}", c)
-                        }
+                        ArrayData::InlineComment(c) => write!(f, " #{}", c),
                         ArrayData::Element(v) => {
                             let element = Some(Parent::Array);
                             let same_line = match (element, parent) {
-- 
2.43.0


From 86d699e64e9a0bbfa86b399829019eaf06bba41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 29/35] fix: move_to_subfield lost fields when the subfield is
 no hash or one of them

---
 src/yaml/insert.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index b1d48c0..e2614d5 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -30,6 +30,11 @@ impl<T> Additive for MyVec<T> {
     }
 }
 
+/// The path of a field of a hash, whatever characters its name has
+fn key_path(key: &str) -> YamlPath {
+    YamlPath::Key(key.to_string(), Vec::new(), None)
+}
+
 pub trait YamlInsert {
     fn for_hash<F, R, A: Additive>(&mut self, path: &YamlPath, f: &F, r: &R) -> A
     where
@@ -140,14 +145,19 @@ pub trait YamlInsert {
             Yaml::Hash(_data) => {
                 let fields: Vec<_> = fields_to_move
                     .iter()
-                    .filter_map(|key| hash.key_value_owned(key).map(|val| (key, val)))
+                    .enumerate()
+                    // the subfield can't be moved to itself and a field can only be moved once
+                    .filter(|(i, key)| **key != subfield && !fields_to_move[..*i].contains(key))
+                    .filter_map(|(_, key)| hash.key_value_owned(key).map(|val| (key, val)))
                     .collect();
                 if !fields.is_empty() {
                     let subfield_value_opt = hash.key_value_mut(&subfield);
                     let res = if let Some(subfield_value) = subfield_value_opt {
+                        if !matches!(subfield_value.value, Yaml::Hash(_)) {
+                            return 0; // nothing can be inserted there
+                        }
                         for (key, value) in fields.iter() {
-                            let path = key.parse().unwrap();
-                            subfield_value.insert_into_hash(&path, &value, true);
+                            subfield_value.insert_into_hash(&key_path(key), &value, true);
                         }
                         1
                     } else {
@@ -164,11 +174,11 @@ pub trait YamlInsert {
                                 .collect(),
                         );
                         let new = AliasedYaml { alias: None, value };
-                        hash.insert_into_hash(&subfield.parse().unwrap(), &new, false);
+                        hash.insert_into_hash(&key_path(&subfield), &new, false);
                         1
                     };
                     for (key, _) in fields {
-                        hash.remove_from_hash(&key.parse().unwrap());
+                        hash.remove_from_hash(&key_path(key));
                     }
                     res
                 } else {
-- 
2.43.0


From 457bf7784194aed2a19e0cbb2ca17f17ac5bd523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 30/35] fix: move_to_map_with_field_as_key lost elements when
 the new map exists

---
 src/yaml/insert.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index e2614d5..08de01b 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -204,6 +204,9 @@ pub trait YamlInsert {
     ) -> usize {
         let r = |hash: &mut Yaml| match hash {
             Yaml::Hash(_data) => {
+                if hash.key_index(&new_map_name).is_some() {
+                    return 0; // the new map can't be added
+                }
                 if let Some(result) = hash.key_value_owned(&old_map_name) {
                     if let Yaml::Hash(hash_data) = result.value {
                         let mut new_hashes: BTreeMap<String, Vec<HashData>> = BTreeMap::new();
@@ -219,14 +222,14 @@ pub trait YamlInsert {
                                         if let Some(s) = key.as_string() {
                                             if keeps.contains(&s) || s.is_empty() {
                                                 hash_data
-                                                    .remove_from_hash(&selector.parse().unwrap());
+                                                    .remove_from_hash(&key_path(&selector));
                                                 old_hashes.extend(comments.clone());
                                                 comments.clear();
                                                 old_hashes.push(hash_data);
                                                 last_added_to = None
                                             } else {
                                                 let mut value = hash_element.value.clone();
-                                                value.remove_from_hash(&selector.parse().unwrap());
+                                                value.remove_from_hash(&key_path(&selector));
 
                                                 let new_hash_element =
                                                     HashData::Element(HashElement {
@@ -288,12 +291,12 @@ pub trait YamlInsert {
                                         .collect(),
                                 ),
                             };
-                            hash.insert_into_hash(&new_map_name.parse().unwrap(), &new, false);
+                            hash.insert_into_hash(&key_path(&new_map_name), &new, false);
                             let old = AliasedYaml {
                                 alias: result.alias.clone(),
                                 value: Yaml::Hash(old_hashes),
                             };
-                            hash.insert_into_hash(&old_map_name.parse().unwrap(), &old, true);
+                            hash.insert_into_hash(&key_path(&old_map_name), &old, true);
                             1
                         } else {
                             0
-- 
2.43.0


From 46d82bfa6bd5b2ed50eaa1b728bb51e4d838f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 31/35] fix: a hash or array left with comments only was
 written without {} or []

---
 src/yaml/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index ba66f9b..5a531b0 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -385,8 +385,10 @@ impl Yaml {
                 write!(f, "}}")
             }
             Yaml::Hash(v) => {
-                if v.is_empty() {
-                    return write!(f, " {{}}");
+                // comments alone don't make a hash
+                let no_elements = !v.iter().any(|d| matches!(d, HashData::Element(_)));
+                if no_elements {
+                    write!(f, " {{}}")?;
                 }
                 for (idx, element) in v.iter().enumerate() {
                     let after_block_scalar = matches!(
@@ -395,7 +397,9 @@ impl Yaml {
                     );
                     match element {
                         // nothing can separate the dash of an array element from its value
-                        HashData::Comment(c) if idx == 0 && matches!(parent, Some(Parent::Array)) => {
+                        HashData::Comment(c)
+                            if idx == 0 && !no_elements && matches!(parent, Some(Parent::Array)) =>
+                        {
                             write!(f, " #{}", c)
                         }
                         HashData::Comment(c) => {
@@ -442,8 +446,10 @@ impl Yaml {
                 write!(f, "]")
             }
             Yaml::Array(v) => {
-                if v.is_empty() {
-                    return write!(f, " []");
+                // comments alone don't make an array
+                let no_elements = !v.iter().any(|d| matches!(d, ArrayData::Element(_)));
+                if no_elements {
+                    write!(f, " []")?;
                 }
                 for (idx, element) in v.iter().enumerate() {
                     let after_block_scalar = matches!(
@@ -452,7 +458,9 @@ impl Yaml {
                     );
                     match element {
                         // nothing can separate the dash of an array element from its value
-                        ArrayData::Comment(c) if idx == 0 && matches!(parent, Some(Parent::Array)) => {
+                        ArrayData::Comment(c)
+                            if idx == 0 && !no_elements && matches!(parent, Some(Parent::Array)) =>
+                        {
                             write!(f, " #{}", c)
                         }
                         ArrayData::Comment(c) => write!(f, "\n{}#{}", indent(spaces), c),
-- 
2.43.0


From e0bb2849f486028c250907da4feebfe4580eb0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 32/35] fix: a plain scalar can't start with a dash and a blank

'- - |' with nothing below was read as the text '- |', which is something
else when it is written at another indentation.
---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 4b2f407..3e2803f 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -16,7 +16,7 @@ unquoted_character = { (SPACE_SEPARATOR | "\t") | ANY ~ "#"* }
 unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ unquoted_character }
 unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ unquoted_character }
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
-disallowed_unquoted_string_start_elements = { " " | "-" ~ SPACE_SEPARATOR+ ~ "#" | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
+disallowed_unquoted_string_start_elements = { " " | "-" ~ SPACE_SEPARATOR | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
 disallowed_unquoted_string_elements = { ": " | "#" |  NEWLINE }
 unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ unquoted_character }
 unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ unquoted_character }
-- 
2.43.0


From 80d2a33e2d5409c8f58cc44860c295ad53e13884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 33/35] fix: pretty keeps a comment on the line of its quoted
 value

---
 src/yaml/mod.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 5a531b0..830c860 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -661,6 +661,20 @@ impl<T: Pretty> Pretty for Vec<T> {
     }
 }
 
+/// The comment on the line of a value would have to leave that line after a block scalar, and
+/// could then belong to what follows: keep the quotes there.
+fn pretty_before_comment(value: Yaml, child_of_array: bool) -> Yaml {
+    let quoted = match value {
+        Yaml::SingleQuotedString(_) | Yaml::DoubleQuotedString(_) => Some(value.clone()),
+        _ => None,
+    };
+    let pretty = value.pretty_with_options(false, child_of_array);
+    match (&pretty, quoted) {
+        (Yaml::LiteralString(..) | Yaml::FoldedString(..), Some(quoted)) => quoted,
+        _ => pretty,
+    }
+}
+
 // Returns true when a string can be written as a plain (unquoted) YAML scalar in block context.
 // Rules based on yaml_subset's grammar:
 //   - start disallowed: [ ] { } " ' # > | & * "- "
@@ -749,7 +763,18 @@ impl Pretty for Yaml {
                         .collect();
                     Yaml::InlineHash(entries)
                 } else {
-                    Yaml::Hash(v.pretty_with_options(false, false))
+                    let mut prettied = Vec::with_capacity(v.len());
+                    let mut data = v.into_iter().peekable();
+                    while let Some(d) = data.next() {
+                        prettied.push(match d {
+                            HashData::Element(mut e) if matches!(data.peek(), Some(HashData::InlineComment(_))) => {
+                                e.value.value = pretty_before_comment(e.value.value, false);
+                                HashData::Element(e)
+                            }
+                            d => d.pretty_with_options(false, false),
+                        });
+                    }
+                    Yaml::Hash(prettied)
                 }
             }
             Yaml::InlineArray(v) => Yaml::InlineArray(v.pretty_with_options(true, false)),
@@ -768,7 +793,17 @@ impl Pretty for Yaml {
                         .collect();
                     return Yaml::InlineArray(elements);
                 }
-                let prettied: Vec<ArrayData> = v.pretty_with_options(false, true);
+                let mut prettied = Vec::with_capacity(v.len());
+                let mut data = v.into_iter().peekable();
+                while let Some(d) = data.next() {
+                    prettied.push(match d {
+                        ArrayData::Element(mut e) if matches!(data.peek(), Some(ArrayData::InlineComment(_))) => {
+                            e.value = pretty_before_comment(e.value, true);
+                            ArrayData::Element(e)
+                        }
+                        d => d.pretty_with_options(false, true),
+                    });
+                }
                 // Auto-inline when this array is a direct child of another block array.
                 if child_of_array {
                     let can_inline = prettied.iter().all(|d| match d {
-- 
2.43.0


From a525283e32404812098db164ecf1a53bb8631ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:27 +0000
Subject: [PATCH 34/35] fix: a dash with blanks only behind it is a plain
 scalar like a dash alone

---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 3e2803f..6dcd2ec 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -16,7 +16,7 @@ unquoted_character = { (SPACE_SEPARATOR | "\t") | ANY ~ "#"* }
 unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ unquoted_character }
 unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ unquoted_character }
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
-disallowed_unquoted_string_start_elements = { " " | "-" ~ SPACE_SEPARATOR | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
+disallowed_unquoted_string_start_elements = { " " | "-" ~ SPACE_SEPARATOR+ ~ !(SPACE_SEPARATOR | NEWLINE) ~ ANY | "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
 disallowed_unquoted_string_elements = { ": " | "#" |  NEWLINE }
 unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ unquoted_character }
 unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ unquoted_character }
-- 
2.43.0


From 3a47c97e0b9d64157c194aedcb921054ad68abf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:18 +0000
Subject: [PATCH 35/35] fix: a key or dash without a value took what stands
 below its parent

---
 src/yaml/parser.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index e0581d7..b015d66 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -374,6 +374,7 @@ impl YamlParser {
 
     fn hash_element(input: Node) -> InternalYamlResult<HashElement> {
         //println!("{:#?}", input);
+        check_value_below(&input)?;
         match_nodes!(input.into_children();
                 [hash_key(key), block_array_aliased_yaml_value(value)] => Ok(HashElement { key, value }),
                 [hash_key(key), aliased_yaml_value(value)] => Ok(HashElement { key, value }),
@@ -454,6 +455,7 @@ impl YamlParser {
     }
 
     fn block_array_element(input: Node) -> InternalYamlResult<ArrayData> {
+        check_value_below(&input)?;
         match_nodes!(input.into_children();
             [block_array_aliased_yaml_value(value)] => Ok(ArrayData::Element(value)),
         )
@@ -598,6 +600,39 @@ fn column(node: &Node) -> usize {
     start - before.rfind('\n').map_or(0, |newline| newline + 1)
 }
 
+/// What stands on the lines below a key or dash is its value only when it is indented more. An array
+/// in a hash can be aligned with its key.
+fn check_value_below(element: &Node) -> InternalYamlResult<()> {
+    let mut node = element.clone();
+    while let Some(child) = node.children().find(|n| {
+        matches!(
+            n.as_rule(),
+            Rule::block_array_aliased_yaml_value
+                | Rule::aliased_yaml_value
+                | Rule::yaml_value
+                | Rule::hash
+                | Rule::first_hash_element
+                | Rule::array
+                | Rule::block_array
+                | Rule::first_block_array_element
+                | Rule::inline_value
+                | Rule::string
+                | Rule::anchor
+                | Rule::inline_array
+                | Rule::inline_hash
+        )
+    }) {
+        node = child;
+    }
+    let aligned = element.as_rule() == Rule::hash_element
+        && node.as_rule() == Rule::first_block_array_element;
+    if column(&node) > column(element) || aligned && column(&node) == column(element) {
+        Ok(())
+    } else {
+        Err(element.error("expected a value that is indented more"))
+    }
+}
+
 fn continuation_column(array: &Node) -> Option<usize> {
     let continuation = array
         .children()
-- 
2.43.0

