From 0b3952d12c6fad807be382396c6c5e4d3962437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:45 +0000
Subject: [PATCH 01/24] fix: VLQ-encode integers of 2^30 and beyond without
 losing bits

The sign bit makes the folded value 33 bits wide; folding in i32 dropped the
top bits (and panicked on i32::MIN), so the digits did not decode back.
---
 src/base64_vlq.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base64_vlq.rs b/src/base64_vlq.rs
index e49ec52..6a6c82b 100644
--- a/src/base64_vlq.rs
+++ b/src/base64_vlq.rs
@@ -23,7 +23,9 @@ const VLQ_BASE_MASK: usize = VLQ_BASE - 1;
 // binary: 100000
 const VLQ_CONTINUATION_BIT: usize = VLQ_BASE;
 
-fn to_vlq_signed(value: i32) -> i32 {
+fn to_vlq_signed(value: i32) -> i64 {
+    // The sign takes an extra bit, so the result may not fit in an i32.
+    let value = value as i64;
     if value < 0 {
         (-value << 1) + 1
     } else {
@@ -39,7 +41,7 @@ pub fn base64vlq_encode(value: i32) -> String {
 
     loop {
         digit = ((vlq as usize) & VLQ_BASE_MASK) as i32;
-        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i32;
+        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i64;
 
         if vlq > 0 {
             // There are still more digits in this value, so we must make sure the
-- 
2.43.0


From 416cc7196a10ce318093a91f3d6f4db1b528ee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 02/24] fix: do not panic on URLs shorter than two characters

An empty sourceRoot, a source root of "." or a one-letter source name made
every consumer constructor and set_source_content panic.
---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 81fa754..29f777d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -78,10 +78,10 @@ enum UrlType {
 
 fn get_url_type(input: &str) -> UrlType {
     let mut iter = input.chars();
-    let first = iter.next().unwrap();
-    let second = iter.next().unwrap();
-    if first == '/' {
-        if second == '/' {
+    let first = iter.next();
+    let second = iter.next();
+    if first == Some('/') {
+        if second == Some('/') {
             return SchemeRelative;
         }
         return PathAbsolute;
-- 
2.43.0


From 962601e99368f02051fd1eb2d7f4dd94dc52e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 03/24] fix: make relative() work for URLs that are not
 absolute

It re-parsed the raw inputs instead of the URLs already resolved against the
safe base, so any two relative or path-absolute URLs panicked with
RelativeUrlWithoutBase.
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 29f777d..2d6689f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -236,7 +236,7 @@ fn replace_if_possible(root: &str, target: &str) -> Option<String> {
         return None;
     }
 
-    Some(compute_relative_url(root, target))
+    Some(compute_relative_url(root_url.as_str(), target_url.as_str()))
 }
 
 pub fn relative(root: String, target: String) -> String {
-- 
2.43.0


From 83dd333167b216d89c03c5bcf525194b7cc28c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 04/24] fix: keep the "?" and "#" of relative source URLs

Url::query and Url::fragment return the part after the delimiter, so
"a.js?x#y" was normalised to "a.jsxy".
---
 src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 2d6689f..2c5de0b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -157,10 +157,12 @@ fn compute_relative_url(root_url: &str, target_url: &str) -> String {
         .join("/");
 
     if let Some(query) = target_url.query() {
+        relative_path.push('?');
         relative_path.push_str(query);
     }
 
     if let Some(frag) = target_url.fragment() {
+        relative_path.push('#');
         relative_path.push_str(frag);
     }
     relative_path
-- 
2.43.0


From 0a54de8b45229f73740d67e8501a602b5b0a7870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:14 +0000
Subject: [PATCH 05/24] fix: keep the directories of the source map URL apart

Trimming the file name joined the remaining path segments without a
separator: sources of "http://host/a/b/out.js.map" resolved to
"http://host/ab/...".
---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 2c5de0b..15da368 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -207,7 +207,7 @@ lazy_static! {
             path.pop();
         }
 
-        url.set_path(&path.join(""));
+        url.set_path(&path.join("/"));
     }));
 
     static ref NORMALIZE: UtilityFn = create_safe_handler(Box::new(|_url|{}));
-- 
2.43.0


From be097430134fea15d80ec1095b616828f738b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:29 +0000
Subject: [PATCH 06/24] fix: validate added mappings unless validation is
 skipped

skip_validation was ignored and nothing was ever validated, so an invalid
mapping was accepted and later made serialisation panic (source without
original position) or count lines for ever (generated line 0).
---
 src/generator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator.rs b/src/generator.rs
index fded665..7a6d8c6 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -38,9 +38,9 @@ impl SourceMapGenerator {
     }
 
     pub fn add_mapping(&mut self, mapping: Mapping) {
-        // if (!this._skipValidation) {
-        // 	this._validateMapping(generated, original, source, name);
-        // }
+        if !self.skip_validation && Self::validate_mapping(&mapping).is_err() {
+            panic!("Invalid mapping: {:?}", mapping);
+        }
         let source: Option<String> = mapping.source.clone();
         let name: Option<String> = mapping.name.clone();
 
-- 
2.43.0


From 64edf30fe23e3dc7c22bfbed84197f1cff706bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 07/24] fix: keep sourcesContent aligned with sources

Sources without content were dropped from the generated sourcesContent, so
later contents moved to the wrong source. The format uses null for them;
allow it in SourceMapJson, write it, and read it (a map with a null entry
could not be parsed at all, and a short list made source_content_for panic).
---
 src/consumer.rs   | 7 +++++--
 src/generator.rs  | 7 ++-----
 src/source_map.rs | 2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 7d52e1b..bc9a054 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -344,7 +344,10 @@ impl BasicConsumer {
 
     pub fn has_contents_of_all_sources(&self) -> bool {
         match self.source_map.sources_content {
-            Some(ref s) => s.len() >= self.source_map.sources.as_ref().unwrap().len(),
+            Some(ref s) => {
+                s.len() >= self.source_map.sources.as_ref().unwrap().len()
+                    && s.iter().all(|it| it.is_some())
+            }
             None => false,
         }
     }
@@ -361,7 +364,7 @@ impl BasicConsumer {
 
         let index = self.find_source_index(source);
         return match index {
-            Some(i) => Some(sources_content[i as usize].clone()),
+            Some(i) => sources_content.get(i as usize).cloned().flatten(),
             None => {
                 if panic_on_missing {
                     panic!(r#""{}" is not in the SourceMap."#, source);
diff --git a/src/generator.rs b/src/generator.rs
index 7a6d8c6..58a7cc8 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -183,13 +183,10 @@ impl SourceMapGenerator {
 
     pub(crate) fn as_json(&mut self) -> SourceMapJson {
         let sources_vec = self.sources.to_vec();
-        let mut sources_content: Option<Vec<String>> = None;
+        let mut sources_content: Option<Vec<Option<String>>> = None;
         if !self.source_contents.is_empty() {
             sources_content = Some(
-                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone())
-                    .into_iter()
-                    .flatten()
-                    .collect(),
+                self.generate_sources_contents(sources_vec.clone(), self.source_root.clone()),
             );
         }
         SourceMapJson {
diff --git a/src/source_map.rs b/src/source_map.rs
index aff20ab..f38d0e7 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -15,7 +15,7 @@ pub struct SourceMapJson {
     pub source_root: Option<String>,
     #[serde(rename = "sourcesContent")]
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub sources_content: Option<Vec<String>>,
+    pub sources_content: Option<Vec<Option<String>>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub sections: Option<Vec<Section>>,
 }
-- 
2.43.0


From 404d6df397c0211e4e2b0ce126144f163fb5c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:54 +0000
Subject: [PATCH 08/24] fix: remember the source map URL in create_consumer

Sources were resolved against it but later lookups were not, so a source
given relative to the map was not found.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index bc9a054..f346538 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -152,7 +152,7 @@ impl BasicConsumer {
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
-            source_map_url: None,
+            source_map_url: source_map_url.map(|it| it.to_string()),
             absolute_sources: ArraySet::from_array(
                 source_map
                     .sources
-- 
2.43.0


From 08730edbb7d74a6fe0a0c106b6ed0f3e69e5162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 09/24] fix: compare 1-based lines in original_position_for

The found mapping's line is 0-based and was compared with the 1-based query,
so every lookup of a mapped position returned None, and one biased to the
next mapping could return a mapping of the following line.
---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index f346538..7cddb61 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -318,7 +318,7 @@ impl BasicConsumer {
 
         match mapping {
             Some(mapping) => {
-                if mapping.generated_line as i32 == generated_line {
+                if (mapping.generated_line + 1) as i32 == generated_line {
                     mapping.original.clone().map(|original| Mapping {
                         name: original
                             .name
-- 
2.43.0


From 1eb6e2997ea8e325c64d34d7852efae8ac3a7eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 10/24] fix: look up the requested line in
 all_generated_position_for

The 1-based line was passed to the 0-based lookup, so the mappings of the
following line were returned; and a missing column was turned into column 0,
which restricted the answer to the line's first mapped column.
---
 src/consumer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 7cddb61..bb8e700 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -239,7 +239,6 @@ impl BasicConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let original_column = if let Some(r) = original_column { r } else { 0 };
         let source = self.find_source_index(source);
         if source.is_none() {
             return vec![];
@@ -255,7 +254,7 @@ impl BasicConsumer {
             panic!("Line numbers must be >= 1");
         }
 
-        if original_column < 0 {
+        if original_column.unwrap_or(0) < 0 {
             panic!("Column numbers must be >= 0");
         }
 
@@ -268,8 +267,8 @@ impl BasicConsumer {
         mappings
             .all_generated_locations_for(
                 source as u32,
-                original_line as u32,
-                Some(original_column as u32),
+                (original_line - 1) as u32,
+                original_column.map(|it| it as u32),
             )
             .cloned()
             .collect()
-- 
2.43.0


From a74bcc0cae97d27bccfed01857e8b04d9d2686b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 11/24] fix: return the mapping's own name and line from
 generated_position_for

The name was looked up by source index: mappings without a name got one,
others a wrong one, and a map with fewer names than sources panicked. The
original line is 1-based in the rest of the interface.
---
 src/consumer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index bb8e700..8de0adc 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -427,7 +427,7 @@ impl BasicConsumer {
                             column: mapping.generated_column as i32,
                         },
                         original: mapping.original.as_ref().map(|it| Position {
-                            line: it.original_line as i32,
+                            line: (it.original_line + 1) as i32,
                             column: it.original_column as i32,
                         }),
                         source: mapping
@@ -435,9 +435,12 @@ impl BasicConsumer {
                             .as_ref()
                             .map(|it| self.absolute_sources.at(it.source as i32))
                             .flatten(),
-                        name: mapping.original.as_ref().map(|it| {
-                            self.source_map.names.as_ref().unwrap()[it.source as usize].clone()
-                        }),
+                        name: mapping
+                            .original
+                            .as_ref()
+                            .map(|it| it.name)
+                            .flatten()
+                            .map(|it| self.source_map.names.as_ref().unwrap()[it as usize].clone()),
                         last_generated_column: last_column,
                     })
                 } else {
-- 
2.43.0


From 7f65c99fbb86a3679d87a154344f67442f3d8da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:11 +0000
Subject: [PATCH 12/24] fix: check section order independently of thread
 scheduling

The offsets were compared in whatever order the worker threads reached the
sections, so a well-formed map was refused, or a badly ordered one accepted,
depending on scheduling.
---
 src/consumer.rs | 66 ++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 8de0adc..f050cbb 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -9,7 +9,6 @@ use std::cell::RefCell;
 use std::collections::HashMap;
 use std::panic;
 use std::rc::Rc;
-use std::sync::{Arc, Mutex};
 
 ///
 /// You should always use this function to create consumer
@@ -506,10 +505,24 @@ impl IndexedConsumer {
             panic!("Unsupported version: {}", version);
         }
 
-        let last_offset = Arc::new(Mutex::new(Position {
+        // The order check needs the sections in order, so it cannot be part of
+        // the parallel construction below.
+        let mut last_offset = Position {
             line: -1,
             column: 0,
-        }));
+        };
+        for section in source_map.sections.as_ref().unwrap() {
+            let line = section.offset.line;
+            let colum = section.offset.column;
+
+            if line < last_offset.line
+                || (line == last_offset.line && colum < last_offset.column)
+            {
+                panic!("Section offsets must be ordered and non-overlapping.")
+            }
+
+            last_offset = section.offset.clone();
+        }
 
         IndexedConsumer {
             source_map: source_map.clone(),
@@ -538,38 +551,25 @@ impl IndexedConsumer {
                     .sections
                     .unwrap()
                     .par_iter()
-                    .map({
-                        let last_offset = last_offset;
-                        move |section| {
-                            if section.url.is_some() {
-                                panic!("Section with url is not supported.");
-                            }
-
-                            let line = section.offset.line;
-                            let colum = section.offset.column;
-
-                            let mut last_offset = last_offset.lock().unwrap();
+                    .map(|section| {
+                        if section.url.is_some() {
+                            panic!("Section with url is not supported.");
+                        }
 
-                            if line < last_offset.line
-                                || (line == last_offset.line && colum < last_offset.column)
-                            {
-                                panic!("Section offsets must be ordered and non-overlapping.")
-                            }
+                        let line = section.offset.line;
+                        let colum = section.offset.column;
 
-                            *last_offset = section.offset.clone();
-
-                            Section {
-                                generated_offset: Position {
-                                    // The offset fields are 0-based, but we use 1-based indices when
-                                    // encoding/decoding from VLQ.
-                                    line: line + 1,
-                                    column: colum + 1,
-                                },
-                                consumer: BasicConsumer::from_source_map_json(
-                                    *section.map.clone(),
-                                    source_map_url,
-                                ),
-                            }
+                        Section {
+                            generated_offset: Position {
+                                // The offset fields are 0-based, but we use 1-based indices when
+                                // encoding/decoding from VLQ.
+                                line: line + 1,
+                                column: colum + 1,
+                            },
+                            consumer: BasicConsumer::from_source_map_json(
+                                *section.map.clone(),
+                                source_map_url,
+                            ),
                         }
                     })
                     .collect(),
-- 
2.43.0


From 9564ef8398d372913e77fa7fcf5d359c6e0d3328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 13/24] fix: do not hold sections in a RefCell

Iterating a sectioned map, or looking up an original position in one,
borrowed the sections again while they were mutably borrowed and panicked
with BorrowError for every non-empty map. The consumer owns its sections and
never shares them, so keep them in a plain Vec.
---
 src/consumer.rs | 197 ++++++++++++++++++++++--------------------------
 1 file changed, 90 insertions(+), 107 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index f050cbb..438ad78 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -5,10 +5,8 @@ use crate::source_map::{Position, SourceMapJson};
 use crate::{binary_search, util};
 use rayon::prelude::*;
 use source_map_mappings::Bias;
-use std::cell::RefCell;
 use std::collections::HashMap;
 use std::panic;
-use std::rc::Rc;
 
 ///
 /// You should always use this function to create consumer
@@ -485,7 +483,7 @@ pub struct IndexedConsumer {
     // pub(crate) source_map_url: Option<String>,
     // pub(crate) mappings: Option<source_map_mappings::Mappings>,
     // pub(crate) computed_column_spans: bool,
-    pub(crate) sections: Rc<RefCell<Vec<Section>>>,
+    pub(crate) sections: Vec<Section>,
 }
 
 const SUPPORTED_SOURCE_MAP_VERSION: i32 = 3;
@@ -515,9 +513,7 @@ impl IndexedConsumer {
             let line = section.offset.line;
             let colum = section.offset.column;
 
-            if line < last_offset.line
-                || (line == last_offset.line && colum < last_offset.column)
-            {
+            if line < last_offset.line || (line == last_offset.line && colum < last_offset.column) {
                 panic!("Section offsets must be ordered and non-overlapping.")
             }
 
@@ -546,34 +542,32 @@ impl IndexedConsumer {
             // ),
             // mappings: None,
             // computed_column_spans: false,
-            sections: Rc::new(RefCell::new(
-                source_map
-                    .sections
-                    .unwrap()
-                    .par_iter()
-                    .map(|section| {
-                        if section.url.is_some() {
-                            panic!("Section with url is not supported.");
-                        }
+            sections: source_map
+                .sections
+                .unwrap()
+                .par_iter()
+                .map(|section| {
+                    if section.url.is_some() {
+                        panic!("Section with url is not supported.");
+                    }
 
-                        let line = section.offset.line;
-                        let colum = section.offset.column;
+                    let line = section.offset.line;
+                    let colum = section.offset.column;
 
-                        Section {
-                            generated_offset: Position {
-                                // The offset fields are 0-based, but we use 1-based indices when
-                                // encoding/decoding from VLQ.
-                                line: line + 1,
-                                column: colum + 1,
-                            },
-                            consumer: BasicConsumer::from_source_map_json(
-                                *section.map.clone(),
-                                source_map_url,
-                            ),
-                        }
-                    })
-                    .collect(),
-            )),
+                    Section {
+                        generated_offset: Position {
+                            // The offset fields are 0-based, but we use 1-based indices when
+                            // encoding/decoding from VLQ.
+                            line: line + 1,
+                            column: colum + 1,
+                        },
+                        consumer: BasicConsumer::from_source_map_json(
+                            *section.map.clone(),
+                            source_map_url,
+                        ),
+                    }
+                })
+                .collect(),
         }
     }
 
@@ -581,8 +575,8 @@ impl IndexedConsumer {
     pub fn get_sources(&self) -> Vec<String> {
         let mut sources: Vec<String> = vec![];
 
-        for i in 0..(*self.sections).borrow().len() {
-            for j in 0..(*self.sections).borrow()[i]
+        for i in 0..self.sections.len() {
+            for j in 0..self.sections[i]
                 .consumer
                 .source_map
                 .sources
@@ -591,7 +585,7 @@ impl IndexedConsumer {
                 .len()
             {
                 sources.push(
-                    (*self.sections).borrow()[i]
+                    self.sections[i]
                         .consumer
                         .source_map
                         .sources
@@ -614,7 +608,7 @@ impl IndexedConsumer {
 
         let section_index = binary_search::search(
             needle.clone(),
-            &(*self.sections).borrow(),
+            &self.sections,
             |a, b| {
                 if a.line - b.generated_offset.line != 0 {
                     a.line - b.generated_offset.line
@@ -632,8 +626,7 @@ impl IndexedConsumer {
             None,
         );
 
-        (&*self.sections)
-            .borrow_mut()
+        self.sections
             .get_mut(section_index as usize)
             .map(|it| {
                 it.consumer.original_position_for(
@@ -655,8 +648,7 @@ impl IndexedConsumer {
     /// Return true if we have the source content for every source in the source
     /// map, false otherwise.
     pub fn has_contents_of_all_sources(&self) -> bool {
-        (*self.sections)
-            .borrow()
+        self.sections
             .iter()
             .all(|it| it.consumer.has_contents_of_all_sources())
     }
@@ -669,7 +661,7 @@ impl IndexedConsumer {
         source: &str,
         panic_on_missing: Option<bool>,
     ) -> Option<String> {
-        for section in (*self.sections).borrow_mut().iter_mut() {
+        for section in self.sections.iter_mut() {
             if let Some(it) = section
                 .consumer
                 .source_content_for(source, panic_on_missing)
@@ -687,8 +679,8 @@ impl IndexedConsumer {
     }
 
     fn find_source_index(&mut self, source: &str) -> Option<i32> {
-        for i in 0..(*self.sections).borrow().len() {
-            let consumer = &mut (*self.sections).borrow_mut()[i].consumer;
+        for i in 0..self.sections.len() {
+            let consumer = &mut self.sections[i].consumer;
             if let Some(index) = consumer.find_source_index(source) {
                 return Some(index);
             }
@@ -711,7 +703,11 @@ impl IndexedConsumer {
     ) -> Option<Position> {
         let index = self.find_source_index(source);
         if let Some(index) = index {
-            if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
+            let next_offset = self
+                .sections
+                .get(index as usize + 1)
+                .map(|it| it.generated_offset.clone());
+            if let Some(section) = self.sections.get_mut(index as usize) {
                 let mut generated_position = section.consumer.generated_position_for(
                     source,
                     original_line,
@@ -729,17 +725,16 @@ impl IndexedConsumer {
                         }
                     }
 
-                    if let (Some(last_column), Some(next_section)) = (
+                    if let (Some(last_column), Some(next_offset)) = (
                         generated_position.last_generated_column,
-                        (*self.sections).borrow().get(index as usize + 1),
+                        next_offset.as_ref(),
                     ) {
                         if last_column == -1
-                            && generated_position.generated.line
-                                == next_section.generated_offset.line
+                            && generated_position.generated.line == next_offset.line
                         {
                             generated_position
                                 .last_generated_column
-                                .replace(next_section.generated_offset.column - 2);
+                                .replace(next_offset.column - 2);
                         }
                         generated_position.generated.line += line_shift;
 
@@ -763,7 +758,11 @@ impl IndexedConsumer {
     ) -> Vec<source_map_mappings::Mapping> {
         let index = self.find_source_index(source);
         if let Some(index) = index {
-            if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
+            let next_offset = self
+                .sections
+                .get(index as usize + 1)
+                .map(|it| it.generated_offset.clone());
+            if let Some(section) = self.sections.get_mut(index as usize) {
                 section
                     .consumer
                     .all_generated_position_for(source, original_line, original_column)
@@ -784,15 +783,11 @@ impl IndexedConsumer {
                         if mapping.last_generated_column.is_some() {
                             // TODO(CGQAQ): is it OK to be u8?
                             // if last_column == -1
-                            let sections_ref = (*self.sections).borrow();
-                            let next_section = sections_ref.get(index as usize + 1);
-                            if let Some(next_section) = next_section {
-                                if mapping.generated_line
-                                    == next_section.generated_offset.line as u32
-                                {
+                            if let Some(next_offset) = &next_offset {
+                                if mapping.generated_line == next_offset.line as u32 {
                                     mapping
                                         .last_generated_column
-                                        .replace((next_section.generated_offset.column - 2) as u32);
+                                        .replace((next_offset.column - 2) as u32);
                                 }
                             }
                             mapping.generated_line += line_shift;
@@ -810,7 +805,7 @@ impl IndexedConsumer {
     }
 
     pub fn computed_column_spans(&mut self) {
-        for ele in (*self.sections).borrow_mut().iter_mut() {
+        for ele in self.sections.iter_mut() {
             ele.consumer.compute_column_spans()
         }
     }
@@ -823,55 +818,43 @@ impl ConsumerTrait for IndexedConsumer {
     }
 
     fn each_mapping(&mut self, f: impl Fn(&source_map_mappings::Mapping), ord: IterOrd) {
-        (*self.sections)
-            .borrow_mut()
-            .iter_mut()
-            .enumerate()
-            .for_each({
-                let sections = &self.sections;
-                let f = &f;
-
-                move |(index, section)| {
-                    //     const nextSection =
-                    //     index + 1 < this._sections.length ? this._sections[index + 1] : null;
-                    // const { generatedOffset } = section;
-
-                    // const lineShift = generatedOffset.generatedLine - 1;
-                    // const columnShift = generatedOffset.generatedColumn - 1;
-
-                    let generated_offset = &mut section.generated_offset;
-                    let line_shift = generated_offset.line - 1;
-                    let column_shift = generated_offset.column - 1;
-                    section.consumer.each_mapping(
-                        {
-                            let sections_ref = (**sections).borrow();
-                            move |mapping| {
-                                let next_section = sections_ref.get(index + 1);
-
-                                let mut mapping = mapping.clone();
-                                if mapping.generated_line == 1 {
-                                    mapping.generated_column += column_shift as u32;
-                                    if let Some(it) = &mut mapping.last_generated_column {
-                                        *it += column_shift as u32;
-                                    }
-                                }
+        for index in 0..self.sections.len() {
+            //     const nextSection =
+            //     index + 1 < this._sections.length ? this._sections[index + 1] : null;
+            // const { generatedOffset } = section;
+
+            // const lineShift = generatedOffset.generatedLine - 1;
+            // const columnShift = generatedOffset.generatedColumn - 1;
+
+            let next_offset = self
+                .sections
+                .get(index + 1)
+                .map(|it| it.generated_offset.clone());
+            let section = &mut self.sections[index];
+            let line_shift = section.generated_offset.line - 1;
+            let column_shift = section.generated_offset.column - 1;
+            section.consumer.each_mapping(
+                |mapping| {
+                    let mut mapping = mapping.clone();
+                    if mapping.generated_line == 1 {
+                        mapping.generated_column += column_shift as u32;
+                        if let Some(it) = &mut mapping.last_generated_column {
+                            *it += column_shift as u32;
+                        }
+                    }
 
-                                if let Some(next_section) = next_section {
-                                    if mapping.generated_line
-                                        == next_section.generated_offset.line as u32
-                                    {
-                                        mapping.last_generated_column.replace(
-                                            next_section.generated_offset.column as u32 - 2,
-                                        );
-                                    }
-                                }
-                                mapping.generated_line += line_shift as u32;
-                                f(&mapping);
-                            }
-                        },
-                        ord.clone(),
-                    )
-                }
-            })
+                    if let Some(next_offset) = &next_offset {
+                        if mapping.generated_line == next_offset.line as u32 {
+                            mapping
+                                .last_generated_column
+                                .replace(next_offset.column as u32 - 2);
+                        }
+                    }
+                    mapping.generated_line += line_shift as u32;
+                    f(&mapping);
+                },
+                ord.clone(),
+            )
+        }
     }
 }
-- 
2.43.0


From 38467a8ce80bd401001e3b2b0ecc774484de7931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 14/24] fix: find the section starting exactly at the looked up
 position

Section offsets are kept 1-based but columns of positions are 0-based, so a
position at the very start of a section was looked up in the previous one.
---
 src/consumer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 438ad78..0dbcf32 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -613,7 +613,8 @@ impl IndexedConsumer {
                 if a.line - b.generated_offset.line != 0 {
                     a.line - b.generated_offset.line
                 } else {
-                    a.column - b.generated_offset.column
+                    // The needle's column is 0-based, the offset's is 1-based.
+                    a.column - (b.generated_offset.column - 1)
                 }
             },
             |a, b| {
-- 
2.43.0


From 40a9932156b235929428bb67a98fe7e112087c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 15/24] fix: return whole-file generated positions from a
 sectioned lookup

original_position_for answered with the generated position relative to the
section instead of the position in the generated file.
---
 src/consumer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 0dbcf32..ede79e7 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -630,7 +630,7 @@ impl IndexedConsumer {
         self.sections
             .get_mut(section_index as usize)
             .map(|it| {
-                it.consumer.original_position_for(
+                let mut mapping = it.consumer.original_position_for(
                     Position {
                         line: needle.line - (it.generated_offset.line - 1),
                         column: needle.column
@@ -641,7 +641,17 @@ impl IndexedConsumer {
                             },
                     },
                     bias,
-                )
+                );
+                if let Some(ref mut mapping) = mapping {
+                    if mapping.generated.line == 1 {
+                        mapping.generated.column += it.generated_offset.column - 1;
+                        if let Some(last_column) = &mut mapping.last_generated_column {
+                            *last_column += it.generated_offset.column - 1;
+                        }
+                    }
+                    mapping.generated.line += it.generated_offset.line - 1;
+                }
+                mapping
             })
             .flatten()
     }
-- 
2.43.0


From a45ec19991e4aa7ea411474dd03a4b9f00d2a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:34 +0000
Subject: [PATCH 16/24] fix: pick the section that has the source

The index of the source within its section was used as the index of the
section, so queries went to the wrong section or found none.
---
 src/consumer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index ede79e7..ced6048 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -689,11 +689,11 @@ impl IndexedConsumer {
         }
     }
 
-    fn find_source_index(&mut self, source: &str) -> Option<i32> {
+    fn find_section_index(&mut self, source: &str) -> Option<i32> {
         for i in 0..self.sections.len() {
             let consumer = &mut self.sections[i].consumer;
-            if let Some(index) = consumer.find_source_index(source) {
-                return Some(index);
+            if consumer.find_source_index(source).is_some() {
+                return Some(i as i32);
             }
         }
 
@@ -712,7 +712,7 @@ impl IndexedConsumer {
         original_column: i32,
         bias: Option<Bias>,
     ) -> Option<Position> {
-        let index = self.find_source_index(source);
+        let index = self.find_section_index(source);
         if let Some(index) = index {
             let next_offset = self
                 .sections
@@ -767,7 +767,7 @@ impl IndexedConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let index = self.find_source_index(source);
+        let index = self.find_section_index(source);
         if let Some(index) = index {
             let next_offset = self
                 .sections
-- 
2.43.0


From adb859978d30e2fa832ff21bcb2aac404905bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:34 +0000
Subject: [PATCH 17/24] fix: shift generated_position_for by the section's
 offset

The shift was computed from the found position itself instead of the section,
and a result was returned only if the mapping had a last column and a section
followed. The last column is not part of the result; do not compute it.
---
 src/consumer.rs | 34 +++++++---------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index ced6048..77672ec 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -714,10 +714,6 @@ impl IndexedConsumer {
     ) -> Option<Position> {
         let index = self.find_section_index(source);
         if let Some(index) = index {
-            let next_offset = self
-                .sections
-                .get(index as usize + 1)
-                .map(|it| it.generated_offset.clone());
             if let Some(section) = self.sections.get_mut(index as usize) {
                 let mut generated_position = section.consumer.generated_position_for(
                     source,
@@ -726,34 +722,18 @@ impl IndexedConsumer {
                     bias,
                 );
                 if let Some(ref mut generated_position) = generated_position {
-                    let line_shift = generated_position.generated.line - 1;
-                    let column_shift = generated_position.generated.column - 1;
+                    let line_shift = section.generated_offset.line - 1;
+                    let column_shift = section.generated_offset.column - 1;
 
                     if generated_position.generated.line == 1 {
                         generated_position.generated.column += column_shift;
-                        if let Some(g) = &mut generated_position.last_generated_column {
-                            *g += column_shift;
-                        }
                     }
+                    generated_position.generated.line += line_shift;
 
-                    if let (Some(last_column), Some(next_offset)) = (
-                        generated_position.last_generated_column,
-                        next_offset.as_ref(),
-                    ) {
-                        if last_column == -1
-                            && generated_position.generated.line == next_offset.line
-                        {
-                            generated_position
-                                .last_generated_column
-                                .replace(next_offset.column - 2);
-                        }
-                        generated_position.generated.line += line_shift;
-
-                        return Some(Position {
-                            line: generated_position.generated.line,
-                            column: generated_position.generated.column,
-                        });
-                    }
+                    return Some(Position {
+                        line: generated_position.generated.line,
+                        column: generated_position.generated.column,
+                    });
                 }
             }
         }
-- 
2.43.0


From 44a443e6f79f98e7156b33c6e0ff8703a491c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 18/24] fix: shift all_generated_position_for by the section's
 offset

The shift was computed from each mapping's own position (underflowing on the
first line, since these mappings are 0-based) and the line was shifted only
for mappings with a last column.
---
 src/consumer.rs | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 77672ec..211fe71 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -749,40 +749,25 @@ impl IndexedConsumer {
     ) -> Vec<source_map_mappings::Mapping> {
         let index = self.find_section_index(source);
         if let Some(index) = index {
-            let next_offset = self
-                .sections
-                .get(index as usize + 1)
-                .map(|it| it.generated_offset.clone());
             if let Some(section) = self.sections.get_mut(index as usize) {
+                let section_offset = section.generated_offset.clone();
                 section
                     .consumer
                     .all_generated_position_for(source, original_line, original_column)
                     .iter()
                     .map(|mapping| {
                         let mut mapping = mapping.clone();
-                        let line_shift = mapping.generated_line - 1;
-                        let column_shift = mapping.generated_column - 1;
+                        let line_shift = (section_offset.line - 1) as u32;
+                        let column_shift = (section_offset.column - 1) as u32;
 
-                        if mapping.generated_line == 1 {
+                        // Lines of these mappings are 0-based.
+                        if mapping.generated_line == 0 {
                             mapping.generated_column += column_shift;
                             if let Some(g) = &mut mapping.last_generated_column {
                                 *g += column_shift;
-                            } else {
-                            }
-                        }
-
-                        if mapping.last_generated_column.is_some() {
-                            // TODO(CGQAQ): is it OK to be u8?
-                            // if last_column == -1
-                            if let Some(next_offset) = &next_offset {
-                                if mapping.generated_line == next_offset.line as u32 {
-                                    mapping
-                                        .last_generated_column
-                                        .replace((next_offset.column - 2) as u32);
-                                }
                             }
-                            mapping.generated_line += line_shift;
                         }
+                        mapping.generated_line += line_shift;
 
                         mapping
                     })
-- 
2.43.0


From fb9d59d80f2fb1c3e06c27864c2fa134de78b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 19/24] fix: shift the first line of each section when
 iterating

The mappings passed to the callback are 0-based, so the column shift was
applied to the second line of each section, and a last column was clipped by
comparing a line of the section with one of the whole file.
---
 src/consumer.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 211fe71..e07f864 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -795,37 +795,25 @@ impl ConsumerTrait for IndexedConsumer {
 
     fn each_mapping(&mut self, f: impl Fn(&source_map_mappings::Mapping), ord: IterOrd) {
         for index in 0..self.sections.len() {
-            //     const nextSection =
-            //     index + 1 < this._sections.length ? this._sections[index + 1] : null;
             // const { generatedOffset } = section;
 
             // const lineShift = generatedOffset.generatedLine - 1;
             // const columnShift = generatedOffset.generatedColumn - 1;
 
-            let next_offset = self
-                .sections
-                .get(index + 1)
-                .map(|it| it.generated_offset.clone());
             let section = &mut self.sections[index];
             let line_shift = section.generated_offset.line - 1;
             let column_shift = section.generated_offset.column - 1;
             section.consumer.each_mapping(
                 |mapping| {
                     let mut mapping = mapping.clone();
-                    if mapping.generated_line == 1 {
+                    // Lines of these mappings are 0-based.
+                    if mapping.generated_line == 0 {
                         mapping.generated_column += column_shift as u32;
                         if let Some(it) = &mut mapping.last_generated_column {
                             *it += column_shift as u32;
                         }
                     }
 
-                    if let Some(next_offset) = &next_offset {
-                        if mapping.generated_line == next_offset.line as u32 {
-                            mapping
-                                .last_generated_column
-                                .replace(next_offset.column as u32 - 2);
-                        }
-                    }
                     mapping.generated_line += line_shift as u32;
                     f(&mapping);
                 },
-- 
2.43.0


From d5caf58fa167ad0f95516ffe916bb406b5b0efa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 20/24] fix: look for source content in every section

The first section without the source panicked although a later one has it.
---
 src/consumer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index e07f864..675dfb4 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -673,10 +673,7 @@ impl IndexedConsumer {
         panic_on_missing: Option<bool>,
     ) -> Option<String> {
         for section in self.sections.iter_mut() {
-            if let Some(it) = section
-                .consumer
-                .source_content_for(source, panic_on_missing)
-            {
+            if let Some(it) = section.consumer.source_content_for(source, Some(false)) {
                 return Some(it);
             }
         }
-- 
2.43.0


From ce63ccc48c1eb7555ea256cf67b3c892f3a477bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 21/24] fix: list resolved sources of a sectioned map

get_sources returned the raw entries instead of the resolved URLs that
BasicConsumer lists and that mappings refer to.
---
 src/consumer.rs | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 675dfb4..81d2c39 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -576,24 +576,7 @@ impl IndexedConsumer {
         let mut sources: Vec<String> = vec![];
 
         for i in 0..self.sections.len() {
-            for j in 0..self.sections[i]
-                .consumer
-                .source_map
-                .sources
-                .as_ref()
-                .unwrap()
-                .len()
-            {
-                sources.push(
-                    self.sections[i]
-                        .consumer
-                        .source_map
-                        .sources
-                        .as_ref()
-                        .unwrap()[j]
-                        .clone(),
-                );
-            }
+            sources.extend(self.sections[i].consumer.get_sources());
         }
 
         sources
-- 
2.43.0


From 5b39a42a52a57acc2e946182a871ca03f85488b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:46 +0000
Subject: [PATCH 22/24] fix: compare far-apart positions without overflow

---
 src/util.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 15da368..8f0e26c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -28,12 +28,12 @@ pub fn strcmp(a: Option<String>, b: Option<String>) -> i32 {
 }
 
 pub fn compare_by_generated_pos_inflated(a: &Mapping, b: &Mapping) -> i32 {
-    let mut cmp = a.generated.line - b.generated.line;
+    let mut cmp = a.generated.line.saturating_sub(b.generated.line);
     if cmp != 0 {
         return cmp;
     }
 
-    cmp = a.generated.column - b.generated.column;
+    cmp = a.generated.column.saturating_sub(b.generated.column);
     if cmp != 0 {
         return cmp;
     }
@@ -43,12 +43,22 @@ pub fn compare_by_generated_pos_inflated(a: &Mapping, b: &Mapping) -> i32 {
         return cmp;
     }
     if a.original.is_some() && b.original.is_some() {
-        cmp = a.original.as_ref().unwrap().line - b.original.as_ref().unwrap().line;
+        cmp = a
+            .original
+            .as_ref()
+            .unwrap()
+            .line
+            .saturating_sub(b.original.as_ref().unwrap().line);
         if cmp != 0 {
             return cmp;
         }
 
-        cmp = a.original.as_ref().unwrap().column - b.original.as_ref().unwrap().column;
+        cmp = a
+            .original
+            .as_ref()
+            .unwrap()
+            .column
+            .saturating_sub(b.original.as_ref().unwrap().column);
         if cmp != 0 {
             return cmp;
         }
-- 
2.43.0


From b132c23423350a015ce47be416b42bad3f1d04c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:12 +0000
Subject: [PATCH 23/24] fix: with several sections at one offset, ask the last
 of them

---
 src/consumer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 81d2c39..570e723 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -589,7 +589,7 @@ impl IndexedConsumer {
     ) -> Option<Mapping> {
         let needle = input;
 
-        let section_index = binary_search::search(
+        let mut section_index = binary_search::search(
             needle.clone(),
             &self.sections,
             |a, b| {
@@ -610,6 +610,16 @@ impl IndexedConsumer {
             None,
         );
 
+        // Of several sections at the same offset only the last covers anything.
+        while section_index >= 0 && (section_index as usize) + 1 < self.sections.len() {
+            let this = &self.sections[section_index as usize].generated_offset;
+            let next = &self.sections[section_index as usize + 1].generated_offset;
+            if this.line != next.line || this.column != next.column {
+                break;
+            }
+            section_index += 1;
+        }
+
         self.sections
             .get_mut(section_index as usize)
             .map(|it| {
-- 
2.43.0


From c5dd2237e1cdd17f11594c8512bfafb1632eefc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:05 +0000
Subject: [PATCH 24/24] fix: omit an absent file or section url from the JSON

Optional fields are left out when absent, except these two, which were
written as null.
---
 src/source_map.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/source_map.rs b/src/source_map.rs
index f38d0e7..c594373 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -9,6 +9,7 @@ pub struct SourceMapJson {
     pub names: Option<Vec<String>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub mappings: Option<String>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub file: Option<String>,
     #[serde(rename = "sourceRoot")]
     #[serde(skip_serializing_if = "Option::is_none")]
@@ -26,6 +27,7 @@ pub struct Section {
     pub map: Box<SourceMapJson>,
 
     // ref: https://github.com/mozilla/source-map/issues/437
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub url: Option<String>,
 }
 
-- 
2.43.0

