From 4b53c9b2ac0a8fcff3775add6801dcb10c965c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 01/14] fix: report write errors when saving a file

save_to_file ignored the result of the write and returned success, so a
full disk or an I/O error left an empty or partial file behind silently.
---
 layout/src/core/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layout/src/core/utils.rs b/layout/src/core/utils.rs
index f62dd64..7b526ce 100644
--- a/layout/src/core/utils.rs
+++ b/layout/src/core/utils.rs
@@ -6,8 +6,8 @@ use std::fs::File;
 use std::io::{Error, Write};
 
 pub fn save_to_file(filename: &str, content: &str) -> Result<(), Error> {
-    let f = File::create(filename)?;
-    let _ = write!(&f, "{}", content);
+    let mut f = File::create(filename)?;
+    f.write_all(content.as_bytes())?;
     #[cfg(feature = "log")]
     log::info!("Wrote {}", filename);
     Result::Ok(())
-- 
2.43.0


From 8f61b8ca203d5a529629cbb244dfd7991ccb99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 02/14] fix: emit the font styles in a fixed order

The styles were emitted in the iteration order of a hash map, so rendering
the same graph twice produced different SVG files.
---
 layout/src/backends/svg.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index a357341..1f8f151 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -4,7 +4,7 @@ use crate::core::color::Color;
 use crate::core::format::{ClipHandle, RenderBackend};
 use crate::core::geometry::Point;
 use crate::core::style::StyleAttr;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 static SVG_HEADER: &str =
     r#"<?xml version="1.0" encoding="UTF-8" standalone="no"?>"#;
@@ -55,8 +55,9 @@ pub struct SVGWriter {
     content: String,
     view_size: Point,
     counter: usize,
-    // Maps font sizes to their class name and class impl.
-    font_style_map: HashMap<usize, (String, String)>,
+    // Maps font sizes to their class name and class impl. The map is ordered
+    // because the styles are emitted in iteration order.
+    font_style_map: BTreeMap<usize, (String, String)>,
     // A list of clip regions to generate.
     clip_regions: Vec<String>,
 }
@@ -67,7 +68,7 @@ impl SVGWriter {
             content: String::new(),
             view_size: Point::zero(),
             counter: 0,
-            font_style_map: HashMap::new(),
+            font_style_map: BTreeMap::new(),
             clip_regions: Vec::new(),
         }
     }
-- 
2.43.0


From 17fd4a3db549a91cf417bdc364e1ed1c23506346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 03/14] fix: don't lex the contents of comments that reach the
 end of the file

The last character of a comment that ended at the end of the input was
lexed as a token, and a tab ended a line comment. A file that was cut off
inside of a comment, right after a '}', was accepted as a complete graph,
and a trailing '// comment' without a newline was rejected.
---
 layout/src/gv/parser/lexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index aa894de..71a06c2 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -118,6 +118,9 @@ impl Lexer {
                 }
                 prev = self.ch;
             }
+            // The comment is not terminated. Don't leave its last character to
+            // be lexed as a token.
+            self.read_char();
             return changed;
         }
 
@@ -125,11 +128,13 @@ impl Lexer {
             while self.has_next() {
                 changed = true;
                 self.read_char();
-                if self.ch.is_ascii_control() {
+                if self.ch == '\n' || self.ch == '\r' {
                     self.read_char();
                     return changed;
                 }
             }
+            // The comment ends at the end of the file.
+            self.read_char();
         }
         changed
     }
-- 
2.43.0


From c208eefc71ed78a4ce41e6c94e16bd29d2aa148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 04/14] fix: don't panic when rendering an empty graph

---
 layout/src/topo/layout.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/layout/src/topo/layout.rs b/layout/src/topo/layout.rs
index 4f78248..bd167b6 100644
--- a/layout/src/topo/layout.rs
+++ b/layout/src/topo/layout.rs
@@ -143,6 +143,10 @@ impl VisualGraph {
         disable_layout: bool,
         rb: &mut dyn RenderBackend,
     ) {
+        // There is nothing to place or draw in the empty graph.
+        if self.dag.is_empty() {
+            return;
+        }
         self.lower(disable_opt);
         Placer::new(self).layout(disable_layout);
         self.render(debug_mode, rb);
-- 
2.43.0


From 3ed39a2af4263781b910326293a917421e0a0c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 05/14] fix: don't read past the end of the record string

The record parser panicked on the empty string and on strings that end with
an open brace.
---
 layout/src/gv/record.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/layout/src/gv/record.rs b/layout/src/gv/record.rs
index 97a6955..dd169ea 100644
--- a/layout/src/gv/record.rs
+++ b/layout/src/gv/record.rs
@@ -87,7 +87,8 @@ impl RecordParser {
 
     pub fn parse(&mut self) -> RecordDef {
         let mut frame = RecordParserFrame::new();
-        loop {
+        // Until we reach the end of the buffer:
+        while self.pos < self.input.len() {
             // Read one char.
             let ch = self.input[self.pos];
 
@@ -119,11 +120,8 @@ impl RecordParser {
                     frame.label.push(ch);
                 }
             }
-            // Are we at the end of the buffer?
-            if self.pos == self.input.len() {
-                return frame.finalize_record();
-            }
         }
+        frame.finalize_record()
     }
 }
 
-- 
2.43.0


From a4012711c98ff4f732ea321ce0468b0277237455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 06/14] fix: visit each node once in the reachability scan

The scan cleared the visited mark when it left a node, so it walked every
path in the graph. Graphs with a few dozen nodes could take forever.
---
 layout/src/adt/dag.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/layout/src/adt/dag.rs b/layout/src/adt/dag.rs
index 9766483..9d22eed 100644
--- a/layout/src/adt/dag.rs
+++ b/layout/src/adt/dag.rs
@@ -217,12 +217,11 @@ impl DAG {
             return true;
         }
 
-        // Don't step into a cycle.
+        // Don't visit nodes twice.
         if visited[from.idx] {
             return false;
         }
 
-        // Push to the dfs stack.
         visited[from.idx] = true;
 
         let from_node = &self.nodes[from.idx];
@@ -232,8 +231,6 @@ impl DAG {
             }
         }
 
-        // Pop from the dfs stack.
-        visited[from.idx] = false;
         false
     }
 
-- 
2.43.0


From f29ccc4e857b4e180c52cd6d81f27b4e2618cd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 07/14] fix: don't emit characters that are not allowed in XML

A control character in a label made the whole SVG document malformed.
---
 layout/src/backends/svg.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index 1f8f151..89cf136 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -42,6 +42,15 @@ fn escape_string(x: &str) -> String {
             '\'' => {
                 res.push_str("&apos;");
             }
+            // These characters can't appear in XML documents, not even escaped.
+            '\u{0}'..='\u{8}'
+            | '\u{b}'
+            | '\u{c}'
+            | '\u{e}'..='\u{1f}'
+            | '\u{fffe}'
+            | '\u{ffff}' => {
+                res.push('\u{fffd}');
+            }
             _ => {
                 res.push(c);
             }
-- 
2.43.0


From 07d600eba8bd3f86ec81bc4c3eac05e505ad3acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 08/14] fix: exit with a non-zero status when the drawing was
 not produced

---
 src/bin/layout.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bin/layout.rs b/src/bin/layout.rs
index cf17f57..0a4d6ad 100644
--- a/src/bin/layout.rs
+++ b/src/bin/layout.rs
@@ -32,7 +32,8 @@ impl CLIOptions {
     }
 }
 
-fn generate_svg(graph: &mut VisualGraph, options: CLIOptions) {
+/// Render the graph and save the output file. Returns true on success.
+fn generate_svg(graph: &mut VisualGraph, options: CLIOptions) -> bool {
     let mut svg = SVGWriter::new();
     graph.do_it(
         options.debug_mode,
@@ -46,9 +47,10 @@ fn generate_svg(graph: &mut VisualGraph, options: CLIOptions) {
     if let Result::Err(err) = res {
         log::error!("Could not write the file {}", options.output_path);
         log::error!("Error {}", err);
-        return;
+        return false;
     }
     log::info!("Wrote {}", options.output_path);
+    true
 }
 
 fn main() {
@@ -119,6 +121,7 @@ fn main() {
         Result::Err(err) => {
             parser.print_error();
             log::error!("Error: {}", err);
+            std::process::exit(1);
         }
 
         Result::Ok(g) => {
@@ -128,7 +131,9 @@ fn main() {
             let mut gb = GraphBuilder::new();
             gb.visit_graph(&g);
             let mut vg = gb.get();
-            generate_svg(&mut vg, cli);
+            if !generate_svg(&mut vg, cli) {
+                std::process::exit(1);
+            }
         }
     }
 }
-- 
2.43.0


From 091b1a602ca28ff0b7fdbb07a68daddec2eaf996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 09/14] fix: leave a gap between the boxes that the scheduler
 places

The rounding errors made boxes that touch each other overlap, and the
verifier panicked.
---
 layout/src/topo/placer/bk.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/layout/src/topo/placer/bk.rs b/layout/src/topo/placer/bk.rs
index e4e82d0..eea7cf8 100644
--- a/layout/src/topo/placer/bk.rs
+++ b/layout/src/topo/placer/bk.rs
@@ -7,6 +7,7 @@ use crate::topo::layout::VisualGraph;
 use std::collections::HashSet;
 
 use super::simple;
+use super::EPSILON;
 
 #[derive(Debug, Clone, Copy)]
 enum OrderLR {
@@ -192,15 +193,17 @@ impl<'a> Scheduler<'a> {
         for elem in v {
             // Record the x coordinate for the vertical.
             self.x_coordinates[elem.get_index()] = center_x;
-            // Update the last x value for the row.
+            // Update the last x value for the row. Leave a small gap between
+            // the boxes, because the rounding errors in the computations that
+            // follow may push boxes that touch each other into an overlap.
             let level = self.vg.dag.level(*elem);
             let pos = self.vg.pos(*elem);
             if self.order.is_left_to_right() {
                 let side_x = pos.distance_to_right(true);
-                self.last_x_for_row[level] = center_x + side_x;
+                self.last_x_for_row[level] = center_x + side_x + EPSILON;
             } else {
                 let side_x = pos.distance_to_left(true);
-                self.last_x_for_row[level] = center_x - side_x;
+                self.last_x_for_row[level] = center_x - side_x - EPSILON;
             }
             self.sched_idx[level] += 1;
         }
-- 
2.43.0


From 700cf4262147a6bb06b7deb5b3672b7887c095f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 10/14] fix: don't panic when normalizing a zero vector

---
 layout/src/core/geometry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index 969f440..eb20c34 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -127,7 +127,10 @@ pub fn interpolate(v0: Point, v1: Point, w: f64) -> Point {
 /// Return the normalized vector \p v multiplied by the scalar \p s.
 pub fn normalize_scale_vector(v: Point, s: f64) -> Point {
     let len = Point::zero().distance_to(v);
-    assert!(len > 0., "Can't normalize the unit vector");
+    // We can't normalize the zero vectors, so just create a unit vector.
+    if len == 0. {
+        return Point::new(s, 0.);
+    }
     v.scale(s / len)
 }
 // Returns a vector in a direction of \to target, of length \p s.
-- 
2.43.0


From af2e193db70f598176362374c627613246592e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 11/14] fix: don't overflow when computing the height of text

---
 layout/src/backends/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index 89cf136..338b4bf 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -226,7 +226,7 @@ impl RenderBackend for SVGWriter {
 
         let mut content = String::new();
         let cnt = 1 + text.lines().count();
-        let size_y = (cnt * look.font_size) as f64;
+        let size_y = cnt as f64 * look.font_size as f64;
         for line in text.lines() {
             content.push_str(&format!("<tspan x = \"{}\" dy=\"1.0em\">", xy.x));
             content.push_str(&escape_string(line));
-- 
2.43.0


From 0283b4c32082228bb468f3c6749020426b633061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 12/14] fix: ignore font sizes that are too large to place
 accurately

---
 layout/src/gv/builder.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index 95d7494..b1324d1 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -264,11 +264,13 @@ impl GraphBuilder {
         }
 
         if let Option::Some(fx) = lst.get(&"fontsize".to_string()) {
-            if let Result::Ok(x) = fx.parse::<usize>() {
-                font_size = x;
+            // Font sizes that don't fit in 16 bits are not useful, and the
+            // placer can't place such shapes accurately.
+            if let Result::Ok(x) = fx.parse::<u16>() {
+                font_size = x.into();
             } else {
                 #[cfg(feature = "log")]
-                log::info!("Can't parse integer \"{}\"", fx);
+                log::info!("Can't parse font size \"{}\"", fx);
             }
         }
 
@@ -347,11 +349,13 @@ impl GraphBuilder {
         }
 
         if let Option::Some(fx) = lst.get(&"fontsize".to_string()) {
-            if let Result::Ok(x) = fx.parse::<usize>() {
-                font_size = x;
+            // Font sizes that don't fit in 16 bits are not useful, and the
+            // placer can't place such shapes accurately.
+            if let Result::Ok(x) = fx.parse::<u16>() {
+                font_size = x.into();
             } else {
                 #[cfg(feature = "log")]
-                log::info!("Can't parse integer \"{}\"", fx);
+                log::info!("Can't parse font size \"{}\"", fx);
             }
         }
 
-- 
2.43.0


From b8192015debe346e844d216e407dcc9d9098b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 13/14] fix: limit the nesting of record rows

Deep records overflowed the stack.
---
 layout/src/gv/record.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/record.rs b/layout/src/gv/record.rs
index dd169ea..da0351e 100644
--- a/layout/src/gv/record.rs
+++ b/layout/src/gv/record.rs
@@ -26,9 +26,15 @@ pub fn print_record(rec: &RecordDef, indent: usize) {
     }
 }
 
+/// The maximum number of nested rows in a record. The code that handles records
+/// is recursive, and very deep records would overflow the stack.
+const MAX_NESTING: usize = 64;
+
 struct RecordParser {
     input: Vec<char>,
     pos: usize,
+    // The number of rows that are being parsed.
+    depth: usize,
 }
 
 struct RecordParserFrame {
@@ -82,6 +88,7 @@ impl RecordParser {
         Self {
             input: input.chars().collect(),
             pos: 0,
+            depth: 0,
         }
     }
 
@@ -93,12 +100,15 @@ impl RecordParser {
             let ch = self.input[self.pos];
 
             match ch {
-                '{' => {
+                // Braces that are nested too deep are handled as regular chars.
+                '{' if self.depth < MAX_NESTING => {
                     self.pos += 1;
                     // Finalize the label.
                     frame.finalize_label();
                     // Parse the sub row:
+                    self.depth += 1;
                     let ret = self.parse();
+                    self.depth -= 1;
                     frame.arr.push(ret);
                 }
                 '|' => {
-- 
2.43.0


From bb9b9a0bc17a63905661b509e244931f8d9f9537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 14/14] fix: limit the nesting of scopes

Deep documents overflowed the stack.
---
 layout/src/gv/parser/parser.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/layout/src/gv/parser/parser.rs b/layout/src/gv/parser/parser.rs
index c61280f..984bafe 100644
--- a/layout/src/gv/parser/parser.rs
+++ b/layout/src/gv/parser/parser.rs
@@ -2,10 +2,16 @@ use super::ast;
 use super::lexer::Lexer;
 use super::lexer::Token;
 
+/// The maximum number of nested scopes. The parser and the code that handles
+/// the tree are recursive, and very deep documents would overflow the stack.
+const MAX_NESTING: usize = 256;
+
 #[derive(Debug)]
 pub struct DotParser {
     lexer: Lexer,
     tok: Token,
+    // The number of statement lists that are being parsed.
+    depth: usize,
 }
 
 /// Creates an error from the string \p str.
@@ -19,6 +25,7 @@ impl DotParser {
         Self {
             lexer: Lexer::new(chars),
             tok: Token::Colon,
+            depth: 0,
         }
     }
 
@@ -111,6 +118,11 @@ impl DotParser {
     pub fn parse_stmt_list(&mut self) -> Result<ast::StmtList, String> {
         let mut lst = ast::StmtList::new();
 
+        if self.depth >= MAX_NESTING {
+            return to_error("Scopes are nested too deep");
+        }
+        self.depth += 1;
+
         loop {
             if let Token::Semicolon = self.tok.clone() {
                 // Consume the semicolon.
@@ -120,6 +132,7 @@ impl DotParser {
             if let Token::CloseBrace = self.tok.clone() {
                 // Consume the '}' and exit.
                 self.lex();
+                self.depth -= 1;
                 return Result::Ok(lst);
             }
             let stmt = self.parse_stmt()?;
-- 
2.43.0

