From 623d5015cbb9ccc2b60981d911008529527d2f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:00 +0000
Subject: [PATCH 01/30] fix: encode VLQ numbers of 31 magnitude bits without
 overflow

---
 src/base64_vlq.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base64_vlq.rs b/src/base64_vlq.rs
index e49ec52..35c6214 100644
--- a/src/base64_vlq.rs
+++ b/src/base64_vlq.rs
@@ -23,7 +23,9 @@ const VLQ_BASE_MASK: usize = VLQ_BASE - 1;
 // binary: 100000
 const VLQ_CONTINUATION_BIT: usize = VLQ_BASE;
 
-fn to_vlq_signed(value: i32) -> i32 {
+fn to_vlq_signed(value: i32) -> i64 {
+    // The sign bit makes this one bit wider than the value itself.
+    let value = i64::from(value);
     if value < 0 {
         (-value << 1) + 1
     } else {
@@ -39,7 +41,7 @@ pub fn base64vlq_encode(value: i32) -> String {
 
     loop {
         digit = ((vlq as usize) & VLQ_BASE_MASK) as i32;
-        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i32;
+        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i64;
 
         if vlq > 0 {
             // There are still more digits in this value, so we must make sure the
-- 
2.43.0


From 5680bfa99063596b2b7ca982cdd43f967678888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:19 +0000
Subject: [PATCH 02/30] fix: classify URLs of fewer than two characters

---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 81fa754..29f777d 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -78,10 +78,10 @@ enum UrlType {
 
 fn get_url_type(input: &str) -> UrlType {
     let mut iter = input.chars();
-    let first = iter.next().unwrap();
-    let second = iter.next().unwrap();
-    if first == '/' {
-        if second == '/' {
+    let first = iter.next();
+    let second = iter.next();
+    if first == Some('/') {
+        if second == Some('/') {
             return SchemeRelative;
         }
         return PathAbsolute;
-- 
2.43.0


From 2391f626862f8154a013455d01c99ecdf2588e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:21 +0000
Subject: [PATCH 03/30] fix: treat an empty source root or map URL as absent

---
 src/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 29f777d..2f85228 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -333,6 +333,10 @@ pub fn compute_source_url(
     // is present in order to make the sources entries behave as if they are relative to the
     // "sourceRoot", as they would have if the two strings were simply concated.
 
+    // An empty sourceRoot or map URL means the same as none.
+    let source_root = source_root.filter(|it| !it.is_empty());
+    let source_map_url = source_map_url.filter(|it| !it.is_empty());
+
     let mut source_url = source_url;
     let after = source_url.replacen("/", "", 1);
 
-- 
2.43.0


From f846c50478ed51a5c1a4e10e9d2926f45ccd9694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 04/30] fix: keep the ? and # of relative URLs

---
 src/util.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 2f85228..39c6810 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -157,10 +157,12 @@ fn compute_relative_url(root_url: &str, target_url: &str) -> String {
         .join("/");
 
     if let Some(query) = target_url.query() {
+        relative_path.push('?');
         relative_path.push_str(query);
     }
 
     if let Some(frag) = target_url.fragment() {
+        relative_path.push('#');
         relative_path.push_str(frag);
     }
     relative_path
-- 
2.43.0


From 2779e1b6235e6e2db1def545000934a4ec2a4f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:25 +0000
Subject: [PATCH 05/30] fix: keep the directories when trimming the map's file
 name

---
 src/util.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 39c6810..72e7545 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -200,14 +200,7 @@ lazy_static! {
     }));
 
     static ref TRIM_FILENAME: UtilityFn = create_safe_handler(Box::new(|url| {
-        let path = url.path().to_string();
-        let mut path = path.split('/').collect::<Vec<_>>();
-
-        if !path.last().unwrap().is_empty() {
-            path.pop();
-        }
-
-        url.set_path(&path.join(""));
+        *url = url.join(".").unwrap();
     }));
 
     static ref NORMALIZE: UtilityFn = create_safe_handler(Box::new(|_url|{}));
-- 
2.43.0


From febef5d9fca54ce242474230b66948b0d78e5c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 06/30] fix: relativise resolved URLs instead of the raw
 references

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 72e7545..aa36213 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -231,7 +231,7 @@ fn replace_if_possible(root: &str, target: &str) -> Option<String> {
         return None;
     }
 
-    Some(compute_relative_url(root, target))
+    Some(compute_relative_url(root_url.as_str(), target_url.as_str()))
 }
 
 pub fn relative(root: String, target: String) -> String {
-- 
2.43.0


From 130d46057e4db36af7b398558290a46658ae45cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:49 +0000
Subject: [PATCH 07/30] fix: normalise absolute paths when joining

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index aa36213..a6d86b4 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -249,7 +249,7 @@ fn with_base(url: &str, base: Option<&str>) -> String {
             .unwrap()
             .as_str()
             .to_string(),
-        None => url.to_string(),
+        None => Url::parse(url).unwrap().to_string(),
     }
 }
 
-- 
2.43.0


From c5575600425d54a35e507614e084a6f86b7b90fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 08/30] fix: recognise absolute URLs by RFC 3986 schemes

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index a6d86b4..5e9383a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -62,7 +62,7 @@ pub fn compare_by_generated_pos_inflated(a: &Mapping, b: &Mapping) -> i32 {
 // the WHATWG URL parsing. This ensures that backslash normalization
 // applies to the path and such.
 const PROTOCOL: &str = "http:";
-const ABSOLUTE_SCHEME: &str = r"^[A-Za-z0-9\+\-\.]+:/";
+const ABSOLUTE_SCHEME: &str = r"^[A-Za-z][A-Za-z0-9\+\-\.]*:";
 lazy_static! {
     static ref ABSOLUTE_SCHEME_REGEXP: Regex = Regex::new(ABSOLUTE_SCHEME).unwrap();
     static ref PROTOCOL_AND_HOST: String = format!("{}//host", PROTOCOL);
-- 
2.43.0


From 4b12107cd44552b2518039bb9a49e4f9ea82c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:53 +0000
Subject: [PATCH 09/30] fix: remember the map URL in consumers built from a
 parsed document

---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 7d52e1b..d86fddf 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -152,7 +152,7 @@ impl BasicConsumer {
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
-            source_map_url: None,
+            source_map_url: source_map_url.map(|it| it.to_string()),
             absolute_sources: ArraySet::from_array(
                 source_map
                     .sources
-- 
2.43.0


From 8c25d70a058ea62d49d0454fa0afd3eaef406e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:55 +0000
Subject: [PATCH 10/30] fix: compare the found mapping's line as one-based

---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index d86fddf..09ff0e6 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -318,7 +318,7 @@ impl BasicConsumer {
 
         match mapping {
             Some(mapping) => {
-                if mapping.generated_line as i32 == generated_line {
+                if (mapping.generated_line + 1) as i32 == generated_line {
                     mapping.original.clone().map(|original| Mapping {
                         name: original
                             .name
-- 
2.43.0


From a4701e0b319c05fc48673c337f9da61a58193444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:57 +0000
Subject: [PATCH 11/30] fix: report the mapping's own name and one-based
 original line in reverse lookups

---
 src/consumer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 09ff0e6..4f90eac 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -425,7 +425,7 @@ impl BasicConsumer {
                             column: mapping.generated_column as i32,
                         },
                         original: mapping.original.as_ref().map(|it| Position {
-                            line: it.original_line as i32,
+                            line: (it.original_line + 1) as i32,
                             column: it.original_column as i32,
                         }),
                         source: mapping
@@ -433,8 +433,8 @@ impl BasicConsumer {
                             .as_ref()
                             .map(|it| self.absolute_sources.at(it.source as i32))
                             .flatten(),
-                        name: mapping.original.as_ref().map(|it| {
-                            self.source_map.names.as_ref().unwrap()[it.source as usize].clone()
+                        name: mapping.original.as_ref().and_then(|it| it.name).map(|it| {
+                            self.source_map.names.as_ref().unwrap()[it as usize].clone()
                         }),
                         last_generated_column: last_column,
                     })
-- 
2.43.0


From a62e0eb2a453fc571402c2bf7e23ddf29d12cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:59 +0000
Subject: [PATCH 12/30] fix: look up all positions on the given line, and on
 any column when none is given

---
 src/consumer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 4f90eac..f06690b 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -239,7 +239,6 @@ impl BasicConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let original_column = if let Some(r) = original_column { r } else { 0 };
         let source = self.find_source_index(source);
         if source.is_none() {
             return vec![];
@@ -255,7 +254,7 @@ impl BasicConsumer {
             panic!("Line numbers must be >= 1");
         }
 
-        if original_column < 0 {
+        if original_column.map_or(false, |it| it < 0) {
             panic!("Column numbers must be >= 0");
         }
 
@@ -268,8 +267,8 @@ impl BasicConsumer {
         mappings
             .all_generated_locations_for(
                 source as u32,
-                original_line as u32,
-                Some(original_column as u32),
+                (original_line - 1) as u32,
+                original_column.map(|it| it as u32),
             )
             .cloned()
             .collect()
-- 
2.43.0


From 00131040697adbbecea57c375d55672bc435c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:20 +0000
Subject: [PATCH 13/30] fix: check section order before opening sections in
 parallel

---
 src/consumer.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index f06690b..aaaad2f 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -9,7 +9,6 @@ use std::cell::RefCell;
 use std::collections::HashMap;
 use std::panic;
 use std::rc::Rc;
-use std::sync::{Arc, Mutex};
 
 ///
 /// You should always use this function to create consumer
@@ -500,10 +499,25 @@ impl IndexedConsumer {
             panic!("Unsupported version: {}", version);
         }
 
-        let last_offset = Arc::new(Mutex::new(Position {
+        // The sections are opened in parallel below, so their order has to be
+        // checked beforehand.
+        let mut last_offset = Position {
             line: -1,
             column: 0,
-        }));
+        };
+
+        for section in source_map.sections.as_ref().unwrap() {
+            let line = section.offset.line;
+            let colum = section.offset.column;
+
+            if line < last_offset.line
+                || (line == last_offset.line && colum < last_offset.column)
+            {
+                panic!("Section offsets must be ordered and non-overlapping.")
+            }
+
+            last_offset = section.offset.clone();
+        }
 
         IndexedConsumer {
             source_map: source_map.clone(),
@@ -533,7 +547,6 @@ impl IndexedConsumer {
                     .unwrap()
                     .par_iter()
                     .map({
-                        let last_offset = last_offset;
                         move |section| {
                             if section.url.is_some() {
                                 panic!("Section with url is not supported.");
@@ -542,16 +555,6 @@ impl IndexedConsumer {
                             let line = section.offset.line;
                             let colum = section.offset.column;
 
-                            let mut last_offset = last_offset.lock().unwrap();
-
-                            if line < last_offset.line
-                                || (line == last_offset.line && colum < last_offset.column)
-                            {
-                                panic!("Section offsets must be ordered and non-overlapping.")
-                            }
-
-                            *last_offset = section.offset.clone();
-
                             Section {
                                 generated_offset: Position {
                                     // The offset fields are 0-based, but we use 1-based indices when
-- 
2.43.0


From 5054ac167d6bb4411ddda9954fa37147eed2abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 14/30] fix: let a section start at its own offset column

---
 src/consumer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index aaaad2f..a45d36a 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -616,7 +616,8 @@ impl IndexedConsumer {
                 if a.line - b.generated_offset.line != 0 {
                     a.line - b.generated_offset.line
                 } else {
-                    a.column - b.generated_offset.column
+                    // The section offset column is stored 1-based.
+                    a.column - (b.generated_offset.column - 1)
                 }
             },
             |a, b| {
-- 
2.43.0


From b77fefe8eccb67dce9679a57d4924fd26e2ba054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:37 +0000
Subject: [PATCH 15/30] fix: report sectioned lookups in whole-file coordinates

---
 src/consumer.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index a45d36a..1bab390 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -634,18 +634,28 @@ impl IndexedConsumer {
             .borrow_mut()
             .get_mut(section_index as usize)
             .map(|it| {
-                it.consumer.original_position_for(
+                let line_shift = it.generated_offset.line - 1;
+                let column_shift = if it.generated_offset.line == needle.line {
+                    it.generated_offset.column - 1
+                } else {
+                    0
+                };
+                let mut mapping = it.consumer.original_position_for(
                     Position {
-                        line: needle.line - (it.generated_offset.line - 1),
-                        column: needle.column
-                            - if it.generated_offset.line == needle.line {
-                                it.generated_offset.column - 1
-                            } else {
-                                0
-                            },
+                        line: needle.line - line_shift,
+                        column: needle.column - column_shift,
                     },
                     bias,
-                )
+                );
+                // The section answers in its own coordinates.
+                if let Some(ref mut mapping) = mapping {
+                    mapping.generated.line += line_shift;
+                    mapping.generated.column += column_shift;
+                    if let Some(last_column) = &mut mapping.last_generated_column {
+                        *last_column += column_shift;
+                    }
+                }
+                mapping
             })
             .flatten()
     }
-- 
2.43.0


From 2e697fdb2a9b3c019bdd31a7407d4c6b3d997cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 16/30] fix: pick the section that lists the source, not the
 one numbered like it

---
 src/consumer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 1bab390..9cf696f 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -694,11 +694,12 @@ impl IndexedConsumer {
         }
     }
 
-    fn find_source_index(&mut self, source: &str) -> Option<i32> {
+    /// The index of the first section that lists the source.
+    fn find_section_index(&mut self, source: &str) -> Option<i32> {
         for i in 0..(*self.sections).borrow().len() {
             let consumer = &mut (*self.sections).borrow_mut()[i].consumer;
-            if let Some(index) = consumer.find_source_index(source) {
-                return Some(index);
+            if consumer.find_source_index(source).is_some() {
+                return Some(i as i32);
             }
         }
 
@@ -717,7 +718,7 @@ impl IndexedConsumer {
         original_column: i32,
         bias: Option<Bias>,
     ) -> Option<Position> {
-        let index = self.find_source_index(source);
+        let index = self.find_section_index(source);
         if let Some(index) = index {
             if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
                 let mut generated_position = section.consumer.generated_position_for(
@@ -769,7 +770,7 @@ impl IndexedConsumer {
         original_line: i32,
         original_column: Option<i32>,
     ) -> Vec<source_map_mappings::Mapping> {
-        let index = self.find_source_index(source);
+        let index = self.find_section_index(source);
         if let Some(index) = index {
             if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
                 section
-- 
2.43.0


From ce564a63127e8dfe52116370a31941d7b71c95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:30 +0000
Subject: [PATCH 17/30] fix: shift sectioned reverse lookups by the section's
 offset

---
 src/consumer.rs | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 9cf696f..9783f26 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -728,35 +728,18 @@ impl IndexedConsumer {
                     bias,
                 );
                 if let Some(ref mut generated_position) = generated_position {
-                    let line_shift = generated_position.generated.line - 1;
-                    let column_shift = generated_position.generated.column - 1;
+                    let line_shift = section.generated_offset.line - 1;
+                    let column_shift = section.generated_offset.column - 1;
 
                     if generated_position.generated.line == 1 {
                         generated_position.generated.column += column_shift;
-                        if let Some(g) = &mut generated_position.last_generated_column {
-                            *g += column_shift;
-                        }
                     }
+                    generated_position.generated.line += line_shift;
 
-                    if let (Some(last_column), Some(next_section)) = (
-                        generated_position.last_generated_column,
-                        (*self.sections).borrow().get(index as usize + 1),
-                    ) {
-                        if last_column == -1
-                            && generated_position.generated.line
-                                == next_section.generated_offset.line
-                        {
-                            generated_position
-                                .last_generated_column
-                                .replace(next_section.generated_offset.column - 2);
-                        }
-                        generated_position.generated.line += line_shift;
-
-                        return Some(Position {
-                            line: generated_position.generated.line,
-                            column: generated_position.generated.column,
-                        });
-                    }
+                    return Some(Position {
+                        line: generated_position.generated.line,
+                        column: generated_position.generated.column,
+                    });
                 }
             }
         }
-- 
2.43.0


From 3435b965b8ec404916b49c42dcc7a5fc74866f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 18/30] fix: shift all sectioned positions by the section's
 offset without borrowing twice

---
 src/consumer.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 9783f26..fc68300 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -755,39 +755,39 @@ impl IndexedConsumer {
     ) -> Vec<source_map_mappings::Mapping> {
         let index = self.find_section_index(source);
         if let Some(index) = index {
+            // Taken first: the sections cannot be borrowed again below.
+            let next_offset = (*self.sections)
+                .borrow()
+                .get(index as usize + 1)
+                .map(|it| it.generated_offset.clone());
             if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
+                let line_shift = (section.generated_offset.line - 1) as u32;
+                let column_shift = (section.generated_offset.column - 1) as u32;
                 section
                     .consumer
                     .all_generated_position_for(source, original_line, original_column)
                     .iter()
                     .map(|mapping| {
                         let mut mapping = mapping.clone();
-                        let line_shift = mapping.generated_line - 1;
-                        let column_shift = mapping.generated_column - 1;
 
-                        if mapping.generated_line == 1 {
+                        // Lines and columns are 0-based here, offsets 1-based.
+                        if mapping.generated_line == 0 {
                             mapping.generated_column += column_shift;
                             if let Some(g) = &mut mapping.last_generated_column {
                                 *g += column_shift;
-                            } else {
                             }
                         }
+                        mapping.generated_line += line_shift;
 
-                        if mapping.last_generated_column.is_some() {
-                            // TODO(CGQAQ): is it OK to be u8?
-                            // if last_column == -1
-                            let sections_ref = (*self.sections).borrow();
-                            let next_section = sections_ref.get(index as usize + 1);
-                            if let Some(next_section) = next_section {
-                                if mapping.generated_line
-                                    == next_section.generated_offset.line as u32
-                                {
+                        // The last span of a line ends where the next section begins.
+                        if mapping.last_generated_column.is_none() {
+                            if let Some(next_offset) = &next_offset {
+                                if mapping.generated_line == (next_offset.line - 1) as u32 {
                                     mapping
                                         .last_generated_column
-                                        .replace((next_section.generated_offset.column - 2) as u32);
+                                        .replace((next_offset.column - 1) as u32);
                                 }
                             }
-                            mapping.generated_line += line_shift;
                         }
 
                         mapping
-- 
2.43.0


From 7420a290b2f7a018f0c72d8dcb7fb9e01a968a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:34 +0000
Subject: [PATCH 19/30] fix: enumerate sectioned maps without borrowing twice
 and shift by the section's offset

---
 src/consumer.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index fc68300..8b93a25 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -815,12 +815,18 @@ impl ConsumerTrait for IndexedConsumer {
     }
 
     fn each_mapping(&mut self, f: impl Fn(&source_map_mappings::Mapping), ord: IterOrd) {
+        // Taken first: the sections cannot be borrowed again below.
+        let offsets: Vec<Position> = (*self.sections)
+            .borrow()
+            .iter()
+            .map(|it| it.generated_offset.clone())
+            .collect();
+
         (*self.sections)
             .borrow_mut()
             .iter_mut()
             .enumerate()
             .for_each({
-                let sections = &self.sections;
                 let f = &f;
 
                 move |(index, section)| {
@@ -834,30 +840,34 @@ impl ConsumerTrait for IndexedConsumer {
                     let generated_offset = &mut section.generated_offset;
                     let line_shift = generated_offset.line - 1;
                     let column_shift = generated_offset.column - 1;
+                    let computed_column_spans = section.consumer.computed_column_spans;
+                    let next_offset = offsets.get(index + 1);
                     section.consumer.each_mapping(
                         {
-                            let sections_ref = (**sections).borrow();
                             move |mapping| {
-                                let next_section = sections_ref.get(index + 1);
-
                                 let mut mapping = mapping.clone();
-                                if mapping.generated_line == 1 {
+                                // Lines and columns are 0-based here, offsets 1-based.
+                                if mapping.generated_line == 0 {
                                     mapping.generated_column += column_shift as u32;
                                     if let Some(it) = &mut mapping.last_generated_column {
                                         *it += column_shift as u32;
                                     }
                                 }
 
-                                if let Some(next_section) = next_section {
-                                    if mapping.generated_line
-                                        == next_section.generated_offset.line as u32
-                                    {
-                                        mapping.last_generated_column.replace(
-                                            next_section.generated_offset.column as u32 - 2,
-                                        );
+                                mapping.generated_line += line_shift as u32;
+
+                                // The last span of a line ends where the next section begins.
+                                if computed_column_spans && mapping.last_generated_column.is_none()
+                                {
+                                    if let Some(next_offset) = next_offset {
+                                        if mapping.generated_line == (next_offset.line - 1) as u32
+                                        {
+                                            mapping
+                                                .last_generated_column
+                                                .replace((next_offset.column - 1) as u32);
+                                        }
                                     }
                                 }
-                                mapping.generated_line += line_shift as u32;
                                 f(&mapping);
                             }
                         },
-- 
2.43.0


From bfaf9efb9e4d10206aed0289e58fed96e97651a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:52 +0000
Subject: [PATCH 20/30] fix: report the resolved sources of sections

---
 src/consumer.rs | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 8b93a25..b787e58 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -579,24 +579,7 @@ impl IndexedConsumer {
         let mut sources: Vec<String> = vec![];
 
         for i in 0..(*self.sections).borrow().len() {
-            for j in 0..(*self.sections).borrow()[i]
-                .consumer
-                .source_map
-                .sources
-                .as_ref()
-                .unwrap()
-                .len()
-            {
-                sources.push(
-                    (*self.sections).borrow()[i]
-                        .consumer
-                        .source_map
-                        .sources
-                        .as_ref()
-                        .unwrap()[j]
-                        .clone(),
-                );
-            }
+            sources.extend((*self.sections).borrow()[i].consumer.get_sources());
         }
 
         sources
-- 
2.43.0


From 5691bf03398729609b30322ed8e2bb3e498881ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 21/30] fix: keep looking for contents in later sections

---
 src/consumer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index b787e58..f9e5266 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -663,7 +663,7 @@ impl IndexedConsumer {
         for section in (*self.sections).borrow_mut().iter_mut() {
             if let Some(it) = section
                 .consumer
-                .source_content_for(source, panic_on_missing)
+                .source_content_for(source, Some(false))
             {
                 return Some(it);
             }
-- 
2.43.0


From e30251194095b7efdad5575633795e736b67f8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:56 +0000
Subject: [PATCH 22/30] fix: keep missing source contents as null instead of
 dropping or rejecting them

---
 src/consumer.rs   | 7 +++++--
 src/generator.rs  | 3 +--
 src/source_map.rs | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index f9e5266..d7aeee0 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -342,7 +342,10 @@ impl BasicConsumer {
 
     pub fn has_contents_of_all_sources(&self) -> bool {
         match self.source_map.sources_content {
-            Some(ref s) => s.len() >= self.source_map.sources.as_ref().unwrap().len(),
+            Some(ref s) => {
+                s.len() >= self.source_map.sources.as_ref().unwrap().len()
+                    && s.iter().all(|it| it.is_some())
+            }
             None => false,
         }
     }
@@ -359,7 +362,7 @@ impl BasicConsumer {
 
         let index = self.find_source_index(source);
         return match index {
-            Some(i) => Some(sources_content[i as usize].clone()),
+            Some(i) => sources_content.get(i as usize).cloned().flatten(),
             None => {
                 if panic_on_missing {
                     panic!(r#""{}" is not in the SourceMap."#, source);
diff --git a/src/generator.rs b/src/generator.rs
index fded665..de3c4ce 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -183,12 +183,11 @@ impl SourceMapGenerator {
 
     pub(crate) fn as_json(&mut self) -> SourceMapJson {
         let sources_vec = self.sources.to_vec();
-        let mut sources_content: Option<Vec<String>> = None;
+        let mut sources_content: Option<Vec<Option<String>>> = None;
         if !self.source_contents.is_empty() {
             sources_content = Some(
                 self.generate_sources_contents(sources_vec.clone(), self.source_root.clone())
                     .into_iter()
-                    .flatten()
                     .collect(),
             );
         }
diff --git a/src/source_map.rs b/src/source_map.rs
index aff20ab..6922b31 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -15,7 +15,8 @@ pub struct SourceMapJson {
     pub source_root: Option<String>,
     #[serde(rename = "sourcesContent")]
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub sources_content: Option<Vec<String>>,
+    // Entries are null for sources whose content is not included.
+    pub sources_content: Option<Vec<Option<String>>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub sections: Option<Vec<Section>>,
 }
-- 
2.43.0


From 94c916d93b9d617eadcfe78f7342dff9dd5d9bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:58 +0000
Subject: [PATCH 23/30] fix: omit the file member when there is no file

---
 src/source_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source_map.rs b/src/source_map.rs
index 6922b31..963f4a1 100644
--- a/src/source_map.rs
+++ b/src/source_map.rs
@@ -9,6 +9,7 @@ pub struct SourceMapJson {
     pub names: Option<Vec<String>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub mappings: Option<String>,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub file: Option<String>,
     #[serde(rename = "sourceRoot")]
     #[serde(skip_serializing_if = "Option::is_none")]
-- 
2.43.0


From 1e118090356878d5d5677f47485dd8f096ffcde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 24/30] fix: validate added mappings unless validation is
 skipped

---
 src/generator.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generator.rs b/src/generator.rs
index de3c4ce..e2aa821 100644
--- a/src/generator.rs
+++ b/src/generator.rs
@@ -38,9 +38,10 @@ impl SourceMapGenerator {
     }
 
     pub fn add_mapping(&mut self, mapping: Mapping) {
-        // if (!this._skipValidation) {
-        // 	this._validateMapping(generated, original, source, name);
-        // }
+        if !self.skip_validation && Self::validate_mapping(&mapping).is_err() {
+            panic!("Invalid mapping: {:?}", mapping);
+        }
+
         let source: Option<String> = mapping.source.clone();
         let name: Option<String> = mapping.name.clone();
 
-- 
2.43.0


From 4784522bc0d7aca40e356646c09627e592ec2432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 25/30] fix: refuse plain maps of unsupported versions as
 sectioned ones are

---
 src/consumer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/consumer.rs b/src/consumer.rs
index d7aeee0..7beed1f 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -122,6 +122,12 @@ pub struct BasicConsumer {
 impl BasicConsumer {
     pub fn new(source_map_raw: &str, source_map_url: Option<&str>) -> Self {
         let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw).unwrap();
+        let version = source_map.version;
+
+        if version != SUPPORTED_SOURCE_MAP_VERSION {
+            panic!("Unsupported version: {}", version);
+        }
+
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
@@ -148,6 +154,12 @@ impl BasicConsumer {
     }
 
     pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
+        let version = source_map.version;
+
+        if version != SUPPORTED_SOURCE_MAP_VERSION {
+            panic!("Unsupported version: {}", version);
+        }
+
         BasicConsumer {
             source_map: source_map.clone(),
             source_lookup_cache: Default::default(),
-- 
2.43.0


From 5f00d5bf76f255f9acc37b2e39af26e49ae7e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 26/30] fix: find a source's section without borrowing the
 sections twice

---
 src/consumer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/consumer.rs b/src/consumer.rs
index 7beed1f..66a461c 100644
--- a/src/consumer.rs
+++ b/src/consumer.rs
@@ -694,9 +694,9 @@ impl IndexedConsumer {
 
     /// The index of the first section that lists the source.
     fn find_section_index(&mut self, source: &str) -> Option<i32> {
-        for i in 0..(*self.sections).borrow().len() {
-            let consumer = &mut (*self.sections).borrow_mut()[i].consumer;
-            if consumer.find_source_index(source).is_some() {
+        // Borrowed once: a borrow in the loop's head would last for all of it.
+        for (i, section) in (*self.sections).borrow_mut().iter_mut().enumerate() {
+            if section.consumer.find_source_index(source).is_some() {
                 return Some(i as i32);
             }
         }
-- 
2.43.0


From 6f6b94fa6bbff655fd02c2e98d2d2ae63744f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:54 +0000
Subject: [PATCH 27/30] fix: count percent-encoded dots when making room for
 dot segments

---
 src/util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 5e9383a..6802a9b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -105,7 +105,9 @@ fn build_unique_segment(prefix: &str, input: &str) -> String {
 }
 
 fn build_safe_base(input: &str) -> String {
-    let max_dot_parts = input.split("..").count() - 1;
+    // The dots of a segment can be percent-encoded, too.
+    let dots = input.replace("%2e", ".").replace("%2E", ".");
+    let max_dot_parts = dots.split("..").count() - 1;
 
     // If we used a segment that also existed in `str`, then we would be unable
     // to compute relative paths. For example, if `segment` were just "a":
-- 
2.43.0


From d22c44a21b0b0b12bcb25303e295c70151d14b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:19 +0000
Subject: [PATCH 28/30] fix: keep relative paths relative when their first
 segment is empty or has a colon

---
 src/util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 6802a9b..85f0fd4 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -158,6 +158,12 @@ fn compute_relative_url(root_url: &str, target_url: &str) -> String {
         .collect::<Vec<_>>()
         .join("/");
 
+    // A first segment that is empty or has a colon would be taken for something
+    // else than a relative path.
+    if get_url_type(&relative_path) != PathRelative {
+        relative_path.insert_str(0, "./");
+    }
+
     if let Some(query) = target_url.query() {
         relative_path.push('?');
         relative_path.push_str(query);
-- 
2.43.0


From 584209a3fa9be136bee0414e899da71de238ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:32 +0000
Subject: [PATCH 29/30] fix: keep a root-relative source relative when its
 first segment has a colon

---
 src/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 85f0fd4..2246b09 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -341,7 +341,11 @@ pub fn compute_source_url(
     let source_map_url = source_map_url.filter(|it| !it.is_empty());
 
     let mut source_url = source_url;
-    let after = source_url.replacen("/", "", 1);
+    let mut after = source_url.replacen("/", "", 1);
+    // Without the slash, a colon could make it an absolute URL.
+    if get_url_type(&after) == Absolute {
+        after.insert_str(0, "./");
+    }
 
     if source_root.is_some() && get_url_type(source_url) == PathAbsolute {
         // sourceURL = sourceURL.replace(/^\//, "");
-- 
2.43.0


From fa59c561da27369f9530cc8f41e4a28bed29390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:15 +0000
Subject: [PATCH 30/30] fix: keep absolute paths absolute when they start with
 an empty segment

---
 src/util.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 2246b09..ec134d5 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -176,6 +176,16 @@ fn compute_relative_url(root_url: &str, target_url: &str) -> String {
     relative_path
 }
 
+// A path that starts with an empty segment would be taken for a host.
+fn without_host(url: &str) -> String {
+    let path: String = url.chars().skip(PROTOCOL_AND_HOST.len()).collect();
+    if get_url_type(&path) == SchemeRelative {
+        format!("/.{}", path)
+    } else {
+        path
+    }
+}
+
 fn create_safe_handler(cb: Box<dyn Fn(&mut Url) + Sync>) -> Box<dyn Fn(String) -> String + Sync> {
     Box::new(move |input: String| -> String {
         let t = get_url_type(input.as_str());
@@ -190,7 +200,7 @@ fn create_safe_handler(cb: Box<dyn Fn(&mut Url) + Sync>) -> Box<dyn Fn(String) -
         match t {
             Absolute => result,
             SchemeRelative => result.chars().skip(PROTOCOL.len()).collect(),
-            PathAbsolute => result.chars().skip(PROTOCOL_AND_HOST.len()).collect(),
+            PathAbsolute => without_host(result.as_str()),
             _ => compute_relative_url(base.as_str(), result.as_str()),
         }
     })
@@ -294,13 +304,13 @@ pub fn join(root: &str, path: &str) -> String {
     }
 
     if root_t == PathAbsolute {
-        return with_base(
-            path,
-            Some(with_base(root.as_str(), Some(PROTOCOL_AND_HOST.as_str())).as_str()),
-        )
-        .chars()
-        .skip(PROTOCOL_AND_HOST.len())
-        .collect();
+        return without_host(
+            with_base(
+                path,
+                Some(with_base(root.as_str(), Some(PROTOCOL_AND_HOST.as_str())).as_str()),
+            )
+            .as_str(),
+        );
     }
 
     let base = build_safe_base(format!("{}{}", path, root).as_str());
-- 
2.43.0

