From e97bd6aa534150f77be5ed636507708f774221c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 01/20] fix: original_position_for compared a 0-based line with
 a 1-based one

The found mapping's line is 0-based, the requested one is not: a position that had
a mapping on its own line got none, and one whose nearest mapping was on another
line got that.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 7d52e1b..e3e15ef 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -318,7 +318,7 @@ impl BasicConsumer {
 
         match mapping {
             Some(mapping) => {
-                if mapping.generated_line as i32 == generated_line {
+                if (mapping.generated_line + 1) as i32 == generated_line {
                     mapping.original.clone().map(|original| Mapping {
                         name: original
                             .name
-- 
2.43.0


From e5f753068ca694250d8eaaa80981a373f1ab83e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 02/20] fix: generated_position_for gave a 0-based original
 line and the wrong name

The name was looked up by the index of the source, also for mappings without a
name, and panicked when there were fewer names than sources.
---
 src/consumer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index e3e15ef..567602f 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -425,7 +425,7 @@ impl BasicConsumer {
                             column: mapping.generated_column as i32,
                         },
                         original: mapping.original.as_ref().map(|it| Position {
-                            line: it.original_line as i32,
+                            line: (it.original_line + 1) as i32,
                             column: it.original_column as i32,
                         }),
                         source: mapping
@@ -433,9 +433,11 @@ impl BasicConsumer {
                             .as_ref()
                             .map(|it| self.absolute_sources.at(it.source as i32))
                             .flatten(),
-                        name: mapping.original.as_ref().map(|it| {
-                            self.source_map.names.as_ref().unwrap()[it.source as usize].clone()
-                        }),
+                        name: mapping
+                            .original
+                            .as_ref()
+                            .and_then(|it| it.name)
+                            .map(|it| self.source_map.names.as_ref().unwrap()[it as usize].clone()),
                         last_generated_column: last_column,
                     })
                 } else {
-- 
2.43.0


From cebee84d932077a14ae2ce693d273d88dd1a0446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 03/20] fix: all_generated_position_for searched the line after
 the requested one

Mappings store 0-based lines. And without a column it looked only at the first
column with mappings instead of the whole line.
---
 src/consumer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 567602f..6286dbe 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -239,7 +239,6 @@ impl BasicConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let original_column = if let Some(r) = original_column { r } else { 0 };
         let source = self.find_source_index(source);
         if source.is_none() {
             return vec![];
@@ -255,7 +254,7 @@ impl BasicConsumer {
             panic!("Line numbers must be >= 1");
         }
 
-        if original_column < 0 {
+        if original_column.map_or(false, |it| it < 0) {
             panic!("Column numbers must be >= 0");
         }
 
@@ -268,8 +267,8 @@ impl BasicConsumer {
         mappings
             .all_generated_locations_for(
                 source as u32,
-                original_line as u32,
-                Some(original_column as u32),
+                (original_line - 1) as u32,
+                original_column.map(|it| it as u32),
             )
             .cloned()
             .collect()
-- 
2.43.0


From f9113e00802e0516a614d2a6abc635a6938482ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 04/20] fix: BasicConsumer::from_source_map_json forgot the URL
 of the map

Sources named the way get_sources names them were then not found.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 6286dbe..4847ba9 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -152,7 +152,7 @@ impl BasicConsumer {
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
-            source_map_url: None,
+            source_map_url: source_map_url.map(|it| it.to_string()),
             absolute_sources: ArraySet::from_array(
                 source_map
                     .sources
-- 
2.43.0


From 8265d0d2709e8f5241f52552fb96d72eeb30fd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:44 +0000
Subject: [PATCH 05/20] fix: sourcesContent did not keep a place for sources
 without content

The generator left sources without content out of the list, so that every content
after them belonged to another source; a map with null in the list could not be
read; and source_content_for panicked for a source beyond the end of the list.
---
 src/consumer.rs   |  7 +++++--
 src/generator.rs  | 10 +++-------
 src/source_map.rs |  2 +-
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 4847ba9..bbec110 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -343,7 +343,10 @@ impl BasicConsumer {
 
     pub fn has_contents_of_all_sources(&self) -> bool {
         match self.source_map.sources_content {
-            Some(ref s) => s.len() >= self.source_map.sources.as_ref().unwrap().len(),
+            Some(ref s) => {
+                let sources = self.source_map.sources.as_ref().unwrap().len();
+                s.len() >= sources && s[..sources].iter().all(|it| it.is_some())
+            }
             None => false,
         }
     }
@@ -360,7 +363,7 @@ impl BasicConsumer {
 
         let index = self.find_source_index(source);
         return match index {
-            Some(i) => Some(sources_content[i as usize].clone()),
+            Some(i) => sources_content.get(i as usize).cloned().flatten(),
             None => {
                 if panic_on_missing {
                     panic!(r#""{}" is not in the SourceMap."#, source);
diff --git a/src/generator.rs b/src/generator.rs
index fded665..061fcf4 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -183,14 +183,10 @@ impl SourceMapGenerator {
 
     pub(crate) fn as_json(&mut self) -> SourceMapJson {
         let sources_vec = self.sources.to_vec();
-        let mut sources_content: Option<Vec<String>> = None;
+        let mut sources_content: Option<Vec<Option<String>>> = None;
         if !self.source_contents.is_empty() {
-            sources_content = Some(
-                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone())
-                    .into_iter()
-                    .flatten()
-                    .collect(),
-            );
+            sources_content =
+                Some(self.generate_sources_contents(sources_vec.clone(), self.source_root.clone()));
         }
         SourceMapJson {
             version: 3,
diff --git a/src/source_map.rs b/src/source_map.rs
index aff20ab..f38d0e7 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -15,7 +15,7 @@ pub struct SourceMapJson {
     pub source_root: Option<String>,
     #[serde(rename = "sourcesContent")]
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub sources_content: Option<Vec<String>>,
+    pub sources_content: Option<Vec<Option<String>>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub sections: Option<Vec<Section>>,
 }
-- 
2.43.0


From 29a372aa4d60fd1ceeebfa10243ccd1f88d38d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 06/20] fix: URLs of fewer than two characters were a panic

A source named "a", or an empty source, source root or map URL, could not be used.
---
 src/util.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 81fa754..7b6a813 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -77,13 +77,10 @@ enum UrlType {
 }
 
 fn get_url_type(input: &str) -> UrlType {
-    let mut iter = input.chars();
-    let first = iter.next().unwrap();
-    let second = iter.next().unwrap();
-    if first == '/' {
-        if second == '/' {
-            return SchemeRelative;
-        }
+    if input.starts_with("//") {
+        return SchemeRelative;
+    }
+    if input.starts_with('/') {
         return PathAbsolute;
     }
     if ABSOLUTE_SCHEME_REGEXP.is_match(input) {
-- 
2.43.0


From ba9dae6a842e567d87e02344773b446c3e357eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 07/20] fix: an empty sourceRoot or map URL was taken for a
 directory

An empty sourceRoot made every absolute path a relative one.
---
 src/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 7b6a813..fe5f2f2 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -330,6 +330,10 @@ pub fn compute_source_url(
     // is present in order to make the sources entries behave as if they are relative to the
     // "sourceRoot", as they would have if the two strings were simply concated.
 
+    // An empty sourceRoot or map URL is the same as none.
+    let source_root = source_root.filter(|it| !it.is_empty());
+    let source_map_url = source_map_url.filter(|it| !it.is_empty());
+
     let mut source_url = source_url;
     let after = source_url.replacen("/", "", 1);
 
-- 
2.43.0


From fb451310c20c1c261b649260913f4bc53da2fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 08/20] fix: sources were resolved against a mangled map URL

Trimming the file name off the URL of the map also lost the slashes between its
directories, and the last directory.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index fe5f2f2..504b5b8 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -202,7 +202,7 @@ lazy_static! {
             path.pop();
         }
 
-        url.set_path(&path.join(""));
+        url.set_path(&path.join("/"));
     }));
 
     static ref NORMALIZE: UtilityFn = create_safe_handler(Box::new(|_url|{}));
-- 
2.43.0


From ac93ce6c5795a129e9c63f02de6c6c6dc3752949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 09/20] fix: the query and fragment of a relative source lost
 their ? and #

---
 src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 504b5b8..72f1888 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -154,10 +154,12 @@ fn compute_relative_url(root_url: &str, target_url: &str) -> String {
         .join("/");
 
     if let Some(query) = target_url.query() {
+        relative_path.push('?');
         relative_path.push_str(query);
     }
 
     if let Some(frag) = target_url.fragment() {
+        relative_path.push('#');
         relative_path.push_str(frag);
     }
     relative_path
-- 
2.43.0


From 0d06837766bb8d038634c047ef5d95141ece4b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 10/20] fix: set_source_content panicked for any relative
 source root

util::relative took the path between the URLs as they were written, which only
absolute ones survive, instead of as they were resolved.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 72f1888..f8cd623 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -235,7 +235,7 @@ fn replace_if_possible(root: &str, target: &str) -> Option<String> {
         return None;
     }
 
-    Some(compute_relative_url(root, target))
+    Some(compute_relative_url(root_url.as_str(), target_url.as_str()))
 }
 
 pub fn relative(root: String, target: String) -> String {
-- 
2.43.0


From c7ca62cd343054487ba3cfe9e3b09082ad8a3426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 11/20] fix: base64vlq_encode lost the top bit of large numbers

Numbers from 2^30 on, which need more than 31 bits with the sign, were written as
something else (or panicked).
---
 src/base64_vlq.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/base64_vlq.rs b/src/base64_vlq.rs
index e49ec52..9e5cbad 100644
--- a/src/base64_vlq.rs
+++ b/src/base64_vlq.rs
@@ -23,7 +23,8 @@ const VLQ_BASE_MASK: usize = VLQ_BASE - 1;
 // binary: 100000
 const VLQ_CONTINUATION_BIT: usize = VLQ_BASE;
 
-fn to_vlq_signed(value: i32) -> i32 {
+fn to_vlq_signed(value: i32) -> i64 {
+    let value = i64::from(value);
     if value < 0 {
         (-value << 1) + 1
     } else {
@@ -38,8 +39,8 @@ pub fn base64vlq_encode(value: i32) -> String {
     let mut vlq = to_vlq_signed(value);
 
     loop {
-        digit = ((vlq as usize) & VLQ_BASE_MASK) as i32;
-        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i32;
+        digit = ((vlq as u64) & VLQ_BASE_MASK as u64) as i32;
+        vlq = ((vlq as u64) >> VLQ_BASE_SHIFT) as i64;
 
         if vlq > 0 {
             // There are still more digits in this value, so we must make sure the
-- 
2.43.0


From 21bcb5df1a6587fc620e4a3805a83898886dd9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 12/20] fix: worker threads raced to check the order of the
 sections

The sections are read in parallel, and each was compared with whichever one another
thread had handled last: ordered sections were refused and unordered ones accepted,
depending on the scheduling.
---
 src/consumer.rs | 67 +++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index bbec110..6449a7b 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -9,7 +9,6 @@ use std::cell::RefCell;
 use std::collections::HashMap;
 use std::panic;
 use std::rc::Rc;
-use std::sync::{Arc, Mutex};
 
 ///
 /// You should always use this function to create consumer
@@ -505,10 +504,25 @@ impl IndexedConsumer {
             panic!("Unsupported version: {}", version);
         }
 
-        let last_offset = Arc::new(Mutex::new(Position {
+        // The order of the sections can only be checked one after another.
+        let mut last_offset = Position {
             line: -1,
             column: 0,
-        }));
+        };
+        for section in source_map.sections.as_ref().unwrap() {
+            if section.url.is_some() {
+                panic!("Section with url is not supported.");
+            }
+
+            let line = section.offset.line;
+            let colum = section.offset.column;
+
+            if line < last_offset.line || (line == last_offset.line && colum < last_offset.column) {
+                panic!("Section offsets must be ordered and non-overlapping.")
+            }
+
+            last_offset = section.offset.clone();
+        }
 
         IndexedConsumer {
             source_map: source_map.clone(),
@@ -537,38 +551,21 @@ impl IndexedConsumer {
                     .sections
                     .unwrap()
                     .par_iter()
-                    .map({
-                        let last_offset = last_offset;
-                        move |section| {
-                            if section.url.is_some() {
-                                panic!("Section with url is not supported.");
-                            }
-
-                            let line = section.offset.line;
-                            let colum = section.offset.column;
-
-                            let mut last_offset = last_offset.lock().unwrap();
-
-                            if line < last_offset.line
-                                || (line == last_offset.line && colum < last_offset.column)
-                            {
-                                panic!("Section offsets must be ordered and non-overlapping.")
-                            }
-
-                            *last_offset = section.offset.clone();
-
-                            Section {
-                                generated_offset: Position {
-                                    // The offset fields are 0-based, but we use 1-based indices when
-                                    // encoding/decoding from VLQ.
-                                    line: line + 1,
-                                    column: colum + 1,
-                                },
-                                consumer: BasicConsumer::from_source_map_json(
-                                    *section.map.clone(),
-                                    source_map_url,
-                                ),
-                            }
+                    .map(|section| {
+                        let line = section.offset.line;
+                        let colum = section.offset.column;
+
+                        Section {
+                            generated_offset: Position {
+                                // The offset fields are 0-based, but we use 1-based indices when
+                                // encoding/decoding from VLQ.
+                                line: line + 1,
+                                column: colum + 1,
+                            },
+                            consumer: BasicConsumer::from_source_map_json(
+                                *section.map.clone(),
+                                source_map_url,
+                            ),
                         }
                     })
                     .collect(),
-- 
2.43.0


From 563d4f86d4d847229e136087fd331568529d6f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 13/20] fix: IndexedConsumer::get_sources gave the names as
 written in the sections

They were not resolved against the section's sourceRoot and the URL of the map, as
the basic consumer's are and as every other call expects and reports them.
---
 src/consumer.rs | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 6449a7b..d4e3bbf 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -577,25 +577,8 @@ impl IndexedConsumer {
     pub fn get_sources(&self) -> Vec<String> {
         let mut sources: Vec<String> = vec![];
 
-        for i in 0..(*self.sections).borrow().len() {
-            for j in 0..(*self.sections).borrow()[i]
-                .consumer
-                .source_map
-                .sources
-                .as_ref()
-                .unwrap()
-                .len()
-            {
-                sources.push(
-                    (*self.sections).borrow()[i]
-                        .consumer
-                        .source_map
-                        .sources
-                        .as_ref()
-                        .unwrap()[j]
-                        .clone(),
-                );
-            }
+        for section in (*self.sections).borrow().iter() {
+            sources.append(&mut section.consumer.get_sources());
         }
 
         sources
-- 
2.43.0


From da8633aa32f09b03a645f301d4cbc82094ab7df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 14/20] fix: IndexedConsumer::source_content_for asked only the
 first section

By default the first section without the source panicked before the others were asked.
---
 src/consumer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index d4e3bbf..87ab25b 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -649,10 +649,7 @@ impl IndexedConsumer {
         panic_on_missing: Option<bool>,
     ) -> Option<String> {
         for section in (*self.sections).borrow_mut().iter_mut() {
-            if let Some(it) = section
-                .consumer
-                .source_content_for(source, panic_on_missing)
-            {
+            if let Some(it) = section.consumer.source_content_for(source, Some(false)) {
                 return Some(it);
             }
         }
-- 
2.43.0


From 4d39245bc78d6b521dd686e203229a2322cf7b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:57 +0000
Subject: [PATCH 15/20] fix: original_position_for of an indexed map missed
 section starts and moved results

A section's offset columns are kept 1-based but were compared with a 0-based one, so
that its first column belonged to the section before; and the generated position and
span in the answer were relative to the section, not to the generated file.
---
 src/consumer.rs | 60 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 87ab25b..24c6ff9 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -598,7 +598,8 @@ impl IndexedConsumer {
                 if a.line - b.generated_offset.line != 0 {
                     a.line - b.generated_offset.line
                 } else {
-                    a.column - b.generated_offset.column
+                    // needle's column is 0-based
+                    a.column - (b.generated_offset.column - 1)
                 }
             },
             |a, b| {
@@ -611,24 +612,47 @@ impl IndexedConsumer {
             None,
         );
 
-        (&*self.sections)
-            .borrow_mut()
-            .get_mut(section_index as usize)
-            .map(|it| {
-                it.consumer.original_position_for(
-                    Position {
-                        line: needle.line - (it.generated_offset.line - 1),
-                        column: needle.column
-                            - if it.generated_offset.line == needle.line {
-                                it.generated_offset.column - 1
-                            } else {
-                                0
-                            },
+        let mut sections = (*self.sections).borrow_mut();
+        let next_offset = sections
+            .get((section_index + 1) as usize)
+            .map(|it| it.generated_offset.clone());
+        let section = sections.get_mut(section_index as usize)?;
+
+        let line_shift = section.generated_offset.line - 1;
+        let column_shift = section.generated_offset.column - 1;
+
+        let mut mapping = section.consumer.original_position_for(
+            Position {
+                line: needle.line - line_shift,
+                column: needle.column
+                    - if section.generated_offset.line == needle.line {
+                        column_shift
+                    } else {
+                        0
                     },
-                    bias,
-                )
-            })
-            .flatten()
+            },
+            bias,
+        )?;
+
+        // The section knows nothing of where it is in the generated file.
+        if mapping.generated.line == 1 {
+            mapping.generated.column += column_shift;
+            if let Some(it) = &mut mapping.last_generated_column {
+                *it += column_shift;
+            }
+        }
+        mapping.generated.line += line_shift;
+
+        if let Some(next_offset) = next_offset {
+            if section.consumer.computed_column_spans
+                && mapping.last_generated_column.is_none()
+                && mapping.generated.line == next_offset.line
+            {
+                mapping.last_generated_column = Some(next_offset.column - 1);
+            }
+        }
+
+        Some(mapping)
     }
 
     /// Return true if we have the source content for every source in the source
-- 
2.43.0


From cc1b429509b8301526bf596f9308bdbbde16f562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:57 +0000
Subject: [PATCH 16/20] fix: generated positions of an indexed map came from
 the wrong section, or panicked

The index of the source in its section was used as the index of the section, the
offset was the found position's own instead of the section's, the last section never
answered, and looking the source up panicked with two sections or more.
---
 src/consumer.rs | 168 +++++++++++++++++++++---------------------------
 1 file changed, 72 insertions(+), 96 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 24c6ff9..c9a4e18 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -477,6 +477,38 @@ pub struct Section {
     consumer: BasicConsumer,
 }
 
+impl Section {
+    /// Move a mapping of this section (its numbers are 0-based) to where it is in the whole
+    /// generated file, given the offset of the section after this one.
+    fn shift_mapping(
+        &self,
+        mut mapping: source_map_mappings::Mapping,
+        next_offset: Option<&Position>,
+    ) -> source_map_mappings::Mapping {
+        let line_shift = (self.generated_offset.line - 1) as u32;
+        let column_shift = (self.generated_offset.column - 1) as u32;
+
+        if mapping.generated_line == 0 {
+            mapping.generated_column += column_shift;
+            if let Some(it) = &mut mapping.last_generated_column {
+                *it += column_shift;
+            }
+        }
+        mapping.generated_line += line_shift;
+
+        if let Some(next_offset) = next_offset {
+            if self.consumer.computed_column_spans
+                && mapping.last_generated_column.is_none()
+                && mapping.generated_line == (next_offset.line - 1) as u32
+            {
+                mapping.last_generated_column = Some((next_offset.column - 1) as u32);
+            }
+        }
+
+        mapping
+    }
+}
+
 pub struct IndexedConsumer {
     pub source_map: SourceMapJson,
     // pub(crate) source_lookup_cache: HashMap<String, i32>,
@@ -686,15 +718,12 @@ impl IndexedConsumer {
         }
     }
 
-    fn find_source_index(&mut self, source: &str) -> Option<i32> {
-        for i in 0..(*self.sections).borrow().len() {
-            let consumer = &mut (*self.sections).borrow_mut()[i].consumer;
-            if let Some(index) = consumer.find_source_index(source) {
-                return Some(index);
-            }
-        }
-
-        None
+    /// The index of the first section that lists the source.
+    fn find_section_index(&mut self, source: &str) -> Option<usize> {
+        (*self.sections)
+            .borrow_mut()
+            .iter_mut()
+            .position(|it| it.consumer.find_source_index(source).is_some())
     }
 
     ///
@@ -709,50 +738,27 @@ impl IndexedConsumer {
         original_column: i32,
         bias: Option<Bias>,
     ) -> Option<Position> {
-        let index = self.find_source_index(source);
-        if let Some(index) = index {
-            if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
-                let mut generated_position = section.consumer.generated_position_for(
-                    source,
-                    original_line,
-                    original_column,
-                    bias,
-                );
-                if let Some(ref mut generated_position) = generated_position {
-                    let line_shift = generated_position.generated.line - 1;
-                    let column_shift = generated_position.generated.column - 1;
-
-                    if generated_position.generated.line == 1 {
-                        generated_position.generated.column += column_shift;
-                        if let Some(g) = &mut generated_position.last_generated_column {
-                            *g += column_shift;
-                        }
-                    }
-
-                    if let (Some(last_column), Some(next_section)) = (
-                        generated_position.last_generated_column,
-                        (*self.sections).borrow().get(index as usize + 1),
-                    ) {
-                        if last_column == -1
-                            && generated_position.generated.line
-                                == next_section.generated_offset.line
-                        {
-                            generated_position
-                                .last_generated_column
-                                .replace(next_section.generated_offset.column - 2);
-                        }
-                        generated_position.generated.line += line_shift;
+        let index = self.find_section_index(source)?;
+        let mut sections = (*self.sections).borrow_mut();
+        let section = &mut sections[index];
 
-                        return Some(Position {
-                            line: generated_position.generated.line,
-                            column: generated_position.generated.column,
-                        });
-                    }
-                }
-            }
-        }
+        let generated_position = section
+            .consumer
+            .generated_position_for(source, original_line, original_column, bias)?
+            .generated;
 
-        None
+        let line_shift = section.generated_offset.line - 1;
+        let column_shift = section.generated_offset.column - 1;
+
+        Some(Position {
+            line: generated_position.line + line_shift,
+            column: generated_position.column
+                + if generated_position.line == 1 {
+                    column_shift
+                } else {
+                    0
+                },
+        })
     }
 
     pub fn all_generated_position_for(
@@ -761,52 +767,22 @@ impl IndexedConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let index = self.find_source_index(source);
-        if let Some(index) = index {
-            if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
-                section
-                    .consumer
-                    .all_generated_position_for(source, original_line, original_column)
-                    .iter()
-                    .map(|mapping| {
-                        let mut mapping = mapping.clone();
-                        let line_shift = mapping.generated_line - 1;
-                        let column_shift = mapping.generated_column - 1;
-
-                        if mapping.generated_line == 1 {
-                            mapping.generated_column += column_shift;
-                            if let Some(g) = &mut mapping.last_generated_column {
-                                *g += column_shift;
-                            } else {
-                            }
-                        }
-
-                        if mapping.last_generated_column.is_some() {
-                            // TODO(CGQAQ): is it OK to be u8?
-                            // if last_column == -1
-                            let sections_ref = (*self.sections).borrow();
-                            let next_section = sections_ref.get(index as usize + 1);
-                            if let Some(next_section) = next_section {
-                                if mapping.generated_line
-                                    == next_section.generated_offset.line as u32
-                                {
-                                    mapping
-                                        .last_generated_column
-                                        .replace((next_section.generated_offset.column - 2) as u32);
-                                }
-                            }
-                            mapping.generated_line += line_shift;
-                        }
+        let index = match self.find_section_index(source) {
+            Some(index) => index,
+            None => return vec![],
+        };
+        let mut sections = (*self.sections).borrow_mut();
+        let next_offset = sections
+            .get(index + 1)
+            .map(|it| it.generated_offset.clone());
+        let section = &mut sections[index];
 
-                        mapping
-                    })
-                    .collect()
-            } else {
-                vec![]
-            }
-        } else {
-            vec![]
-        }
+        section
+            .consumer
+            .all_generated_position_for(source, original_line, original_column)
+            .into_iter()
+            .map(|mapping| section.shift_mapping(mapping, next_offset.as_ref()))
+            .collect()
     }
 
     pub fn computed_column_spans(&mut self) {
-- 
2.43.0


From 78d5843725d8beb972c40d45301b025a1b5a3b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:57 +0000
Subject: [PATCH 17/20] fix: iterating an indexed map panicked, and would have
 misplaced its mappings

The sections were borrowed twice; 0-based mappings were shifted as if 1-based; and
every span on a line where the next section starts was cut to one column short of it.
---
 src/consumer.rs | 135 ++++++++++++++++++++----------------------------
 1 file changed, 56 insertions(+), 79 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index c9a4e18..ba98c56 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -477,36 +477,35 @@ pub struct Section {
     consumer: BasicConsumer,
 }
 
-impl Section {
-    /// Move a mapping of this section (its numbers are 0-based) to where it is in the whole
-    /// generated file, given the offset of the section after this one.
-    fn shift_mapping(
-        &self,
-        mut mapping: source_map_mappings::Mapping,
-        next_offset: Option<&Position>,
-    ) -> source_map_mappings::Mapping {
-        let line_shift = (self.generated_offset.line - 1) as u32;
-        let column_shift = (self.generated_offset.column - 1) as u32;
-
-        if mapping.generated_line == 0 {
-            mapping.generated_column += column_shift;
-            if let Some(it) = &mut mapping.last_generated_column {
-                *it += column_shift;
-            }
-        }
-        mapping.generated_line += line_shift;
-
-        if let Some(next_offset) = next_offset {
-            if self.consumer.computed_column_spans
-                && mapping.last_generated_column.is_none()
-                && mapping.generated_line == (next_offset.line - 1) as u32
-            {
-                mapping.last_generated_column = Some((next_offset.column - 1) as u32);
-            }
+/// Move a mapping of a section (its numbers are 0-based) to where it is in the whole generated
+/// file, given the offsets of the section and of the one after it.
+fn shift_mapping(
+    mut mapping: source_map_mappings::Mapping,
+    generated_offset: &Position,
+    next_offset: Option<&Position>,
+    computed_column_spans: bool,
+) -> source_map_mappings::Mapping {
+    let line_shift = (generated_offset.line - 1) as u32;
+    let column_shift = (generated_offset.column - 1) as u32;
+
+    if mapping.generated_line == 0 {
+        mapping.generated_column += column_shift;
+        if let Some(it) = &mut mapping.last_generated_column {
+            *it += column_shift;
+        }
+    }
+    mapping.generated_line += line_shift;
+
+    if let Some(next_offset) = next_offset {
+        if computed_column_spans
+            && mapping.last_generated_column.is_none()
+            && mapping.generated_line == (next_offset.line - 1) as u32
+        {
+            mapping.last_generated_column = Some((next_offset.column - 1) as u32);
         }
-
-        mapping
     }
+
+    mapping
 }
 
 pub struct IndexedConsumer {
@@ -781,7 +780,14 @@ impl IndexedConsumer {
             .consumer
             .all_generated_position_for(source, original_line, original_column)
             .into_iter()
-            .map(|mapping| section.shift_mapping(mapping, next_offset.as_ref()))
+            .map(|mapping| {
+                shift_mapping(
+                    mapping,
+                    &section.generated_offset,
+                    next_offset.as_ref(),
+                    section.consumer.computed_column_spans,
+                )
+            })
             .collect()
     }
 
@@ -799,55 +805,26 @@ impl ConsumerTrait for IndexedConsumer {
     }
 
     fn each_mapping(&mut self, f: impl Fn(&source_map_mappings::Mapping), ord: IterOrd) {
-        (*self.sections)
-            .borrow_mut()
-            .iter_mut()
-            .enumerate()
-            .for_each({
-                let sections = &self.sections;
-                let f = &f;
-
-                move |(index, section)| {
-                    //     const nextSection =
-                    //     index + 1 < this._sections.length ? this._sections[index + 1] : null;
-                    // const { generatedOffset } = section;
-
-                    // const lineShift = generatedOffset.generatedLine - 1;
-                    // const columnShift = generatedOffset.generatedColumn - 1;
-
-                    let generated_offset = &mut section.generated_offset;
-                    let line_shift = generated_offset.line - 1;
-                    let column_shift = generated_offset.column - 1;
-                    section.consumer.each_mapping(
-                        {
-                            let sections_ref = (**sections).borrow();
-                            move |mapping| {
-                                let next_section = sections_ref.get(index + 1);
-
-                                let mut mapping = mapping.clone();
-                                if mapping.generated_line == 1 {
-                                    mapping.generated_column += column_shift as u32;
-                                    if let Some(it) = &mut mapping.last_generated_column {
-                                        *it += column_shift as u32;
-                                    }
-                                }
-
-                                if let Some(next_section) = next_section {
-                                    if mapping.generated_line
-                                        == next_section.generated_offset.line as u32
-                                    {
-                                        mapping.last_generated_column.replace(
-                                            next_section.generated_offset.column as u32 - 2,
-                                        );
-                                    }
-                                }
-                                mapping.generated_line += line_shift as u32;
-                                f(&mapping);
-                            }
-                        },
-                        ord.clone(),
-                    )
-                }
-            })
+        let mut sections = (*self.sections).borrow_mut();
+        for index in 0..sections.len() {
+            let next_offset = sections
+                .get(index + 1)
+                .map(|it| it.generated_offset.clone());
+            let section = &mut sections[index];
+
+            let generated_offset = section.generated_offset.clone();
+            let spans = section.consumer.computed_column_spans;
+            section.consumer.each_mapping(
+                |mapping| {
+                    f(&shift_mapping(
+                        mapping.clone(),
+                        &generated_offset,
+                        next_offset.as_ref(),
+                        spans,
+                    ))
+                },
+                ord.clone(),
+            )
+        }
     }
 }
-- 
2.43.0


From d7ad543367e9f7dc8ddc4a3836f186cfa228ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 18/20] fix: create_consumer panicked on a map without sources
 or mappings

Or its first lookup did. It returns a Result for maps it cannot use.
---
 src/consumer.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/consumer.rs b/src/consumer.rs
index ba98c56..544218d 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -4,6 +4,7 @@ use crate::mapping::Mapping;
 use crate::source_map::{Position, SourceMapJson};
 use crate::{binary_search, util};
 use rayon::prelude::*;
+use serde::de::Error;
 use source_map_mappings::Bias;
 use std::cell::RefCell;
 use std::collections::HashMap;
@@ -18,6 +19,13 @@ pub fn create_consumer(
     source_map_url: Option<&str>,
 ) -> Result<Consumer, serde_json::Error> {
     let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw)?;
+    match source_map.sections {
+        Some(ref sections) => sections
+            .iter()
+            .try_for_each(|section| check_required_fields(&section.map))?,
+        None => check_required_fields(&source_map)?,
+    }
+
     if source_map.sections.is_some() {
         Ok(Consumer::IndexedConsumer(
             IndexedConsumer::from_source_map_json(source_map, source_map_url),
@@ -29,6 +37,17 @@ pub fn create_consumer(
     }
 }
 
+/// A map without sections must have sources and mappings.
+fn check_required_fields(source_map: &SourceMapJson) -> Result<(), serde_json::Error> {
+    if source_map.sources.is_none() {
+        return Err(serde_json::Error::missing_field("sources"));
+    }
+    if source_map.mappings.is_none() {
+        return Err(serde_json::Error::missing_field("mappings"));
+    }
+    Ok(())
+}
+
 pub enum Consumer {
     BasicConsumer(BasicConsumer),
     IndexedConsumer(IndexedConsumer),
-- 
2.43.0


From 3f585b46c52a3f97e18931bc62c1233ffd557a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 19/20] fix: a source index beyond the list of sources could
 exhaust the memory

The mappings library makes a bucket for every source up to the largest index. Mappings
that refer to a source or name the map does not have are no longer accepted.
---
 src/consumer.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 544218d..22ff8bf 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -246,9 +246,25 @@ impl BasicConsumer {
     }
 
     fn parse_mappings(&self) -> Result<source_map_mappings::Mappings, source_map_mappings::Error> {
-        source_map_mappings::parse_mappings::<()>(
+        let mappings = source_map_mappings::parse_mappings::<()>(
             self.source_map.mappings.as_ref().unwrap().as_bytes(),
-        )
+        )?;
+
+        // Lookups by original position take memory in proportion to the largest source index.
+        let sources = self.source_map.sources.as_ref().map_or(0, |it| it.len());
+        let names = self.source_map.names.as_ref().map_or(0, |it| it.len());
+        let is_known = |it: &source_map_mappings::OriginalLocation| {
+            (it.source as usize) < sources && it.name.map_or(true, |it| (it as usize) < names)
+        };
+        if mappings
+            .by_generated_location()
+            .iter()
+            .all(|it| it.original.as_ref().map_or(true, is_known))
+        {
+            Ok(mappings)
+        } else {
+            Err(source_map_mappings::Error::UnexpectedlyBigNumber)
+        }
     }
 
     pub fn all_generated_position_for(
-- 
2.43.0


From 75d26ff4b86e44beac7e6ebc04de552d14f51293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 20/20] fix: no indexed map could be read once the thread pool
 had failed to start

Rayon keeps the failure for the rest of the process. The sections are then read on
the calling thread.
---
 src/consumer.rs | 53 ++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 22ff8bf..81d9d7a 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -2,7 +2,7 @@ use crate::array_set::ArraySet;
 use crate::generator::SourceMapGenerator;
 use crate::mapping::Mapping;
 use crate::source_map::{Position, SourceMapJson};
-use crate::{binary_search, util};
+use crate::{binary_search, source_map, util};
 use rayon::prelude::*;
 use serde::de::Error;
 use source_map_mappings::Bias;
@@ -612,30 +612,33 @@ impl IndexedConsumer {
             // ),
             // mappings: None,
             // computed_column_spans: false,
-            sections: Rc::new(RefCell::new(
-                source_map
-                    .sections
-                    .unwrap()
-                    .par_iter()
-                    .map(|section| {
-                        let line = section.offset.line;
-                        let colum = section.offset.column;
-
-                        Section {
-                            generated_offset: Position {
-                                // The offset fields are 0-based, but we use 1-based indices when
-                                // encoding/decoding from VLQ.
-                                line: line + 1,
-                                column: colum + 1,
-                            },
-                            consumer: BasicConsumer::from_source_map_json(
-                                *section.map.clone(),
-                                source_map_url,
-                            ),
-                        }
-                    })
-                    .collect(),
-            )),
+            sections: Rc::new(RefCell::new({
+                let sections = source_map.sections.unwrap();
+                let read_section = |section: &source_map::Section| {
+                    let line = section.offset.line;
+                    let colum = section.offset.column;
+
+                    Section {
+                        generated_offset: Position {
+                            // The offset fields are 0-based, but we use 1-based indices when
+                            // encoding/decoding from VLQ.
+                            line: line + 1,
+                            column: colum + 1,
+                        },
+                        consumer: BasicConsumer::from_source_map_json(
+                            *section.map.clone(),
+                            source_map_url,
+                        ),
+                    }
+                };
+
+                // Rayon panics whenever it is used after it could not start its threads once.
+                if panic::catch_unwind(rayon::current_num_threads).is_ok() {
+                    sections.par_iter().map(read_section).collect()
+                } else {
+                    sections.iter().map(read_section).collect()
+                }
+            })),
         }
     }
 
-- 
2.43.0

