From 4893dd0dca657bd7a8245388d3e59907eaec84fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 01/14] fix: flush the writer after rendering

Standard output is line buffered and the document does not end with a
newline, so its last line was only written at process exit, where errors
are ignored: a sink that failed there left a truncated SVG and exit status 0.
---
 src/renderer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/renderer.rs b/src/renderer.rs
index 6bf2c7f..56e46ea 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -212,6 +212,7 @@ impl Renderer for SVGRenderer<'_> {
         }
 
         writer.write_all(svg_doc.to_string().as_bytes())?;
+        writer.flush()?;
         Ok(())
     }
 }
-- 
2.43.0


From 99165e7e8f40708b986b6a413838553ab7181fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 02/14] fix: check collisions for the first neighbor junction
 too

`a || b && c` accepted the first candidate without looking for a collision,
so routes ran through tables, and some of them turned back on themselves,
which the renderer answers with a panic.
---
 src/layout.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 7e06e28..ce0a242 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -716,7 +716,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Up) && m.is_connectable(Orientation::Down) {
                         // Is nearest neighbor?
-                        if up.is_none() || up.unwrap().1.location().y < q.y && no_collision() {
+                        if (up.is_none() || up.unwrap().1.location().y < q.y)
+                            && no_collision()
+                        {
                             up.replace((b, m));
                         }
                     }
@@ -733,7 +735,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Down) && m.is_connectable(Orientation::Up) {
                         // Is nearest neighbor?
-                        if down.is_none() || down.unwrap().1.location().y > q.y && no_collision() {
+                        if (down.is_none() || down.unwrap().1.location().y > q.y)
+                            && no_collision()
+                        {
                             down.replace((b, m));
                         }
                     }
@@ -747,7 +751,9 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Left) && m.is_connectable(Orientation::Right) {
                         // Is nearest neighbor?
-                        if left.is_none() || left.unwrap().1.location().x < q.x && no_collision() {
+                        if (left.is_none() || left.unwrap().1.location().x < q.x)
+                            && no_collision()
+                        {
                             left.replace((b, m));
                         }
                     }
@@ -761,7 +767,8 @@ impl SimpleLayoutEngine {
                     // Is connectable direction?
                     if n.is_connectable(Orientation::Right) && m.is_connectable(Orientation::Left) {
                         // Is nearest neighbor?
-                        if right.is_none() || right.unwrap().1.location().x > q.x && no_collision()
+                        if (right.is_none() || right.unwrap().1.location().x > q.x)
+                            && no_collision()
                         {
                             right.replace((b, m));
                         }
-- 
2.43.0


From 93d8d3eb4cf365a01d0bf54e91978999f743cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 03/14] fix: detect upward lines that cross a rectangle

The test for a line entirely inside the rectangle assumed that it runs
downward, so an upward line from below the rectangle to above it was taken
to be inside, and routes were drawn across tables.
---
 src/geometry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a928e9b..c4bb965 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -238,7 +238,7 @@ impl Rect {
         let top = self.min_y();
         let bottom = self.max_y();
 
-        if x > left && (x + dx) < right && y > top && (y + dy) < bottom {
+        if x > left && (x + dx) < right && y.min(y + dy) > top && y.max(y + dy) < bottom {
             // Line is entirely inside the rectangle.
             return None;
         }
-- 
2.43.0


From 6532822538faeca3bca667b1f072ddd62d9647c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:15 +0000
Subject: [PATCH 04/14] fix: route relations between ends that share a terminal
 port

A relation of a field to itself, or to its own record, chose the shared
port as both ends. The path had a single point and rendering it panicked.
---
 src/layout.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index ce0a242..f2e3c86 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -811,6 +811,12 @@ impl SimpleLayoutEngine {
                 let Some(src_node) = self.edge_route_graph.get_terminal_port(src.id()) else { continue };
                 let Some(dst_node) = self.edge_route_graph.get_terminal_port(dst.id()) else { continue };
 
+                // Both ends may share a port (e.g. a relation of a field to itself or to its own
+                // record). There is no line to draw between a point and itself.
+                if src_node == dst_node {
+                    continue;
+                }
+
                 let (c, p) = self.compute_shortest_path(src_node, dst_node);
                 if c < cost {
                     path.replace(p);
-- 
2.43.0


From ea50b7c1b16f1c24d2b3ce40b50169ee7c9ce216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 05/14] fix: start every layout with an empty route graph

An engine that had already drawn a document kept its junctions, ports and
routes. The next document was routed through them, or the engine panicked.
---
 src/layout.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index f2e3c86..b5db341 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -439,6 +439,9 @@ impl LayoutEngine for SimpleLayoutEngine {
         //
         // e. Add start/end terminal ports.
 
+        // Start with an empty graph: the engine may have been used for another layout.
+        self.edge_route_graph = RouteGraph::new();
+
         // Place junction nodes at the four corner points around each shape node.
         let shape_junctions = self.edge_junction_nodes_around_shapes(&doc);
 
-- 
2.43.0


From 0f48f9a04a8b6a6d5ca739afccacf3a7144d17a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 06/14] fix: replace terminal ports when a document is laid out
 again

Ports of the previous layout were kept, so after a document had been
extended and laid out again, edges attached to places where rows no longer
are.
---
 src/layout.rs | 4 ++++
 src/mir.rs    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/layout.rs b/src/layout.rs
index b5db341..c11860e 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -323,6 +323,8 @@ impl LayoutEngine for SimpleLayoutEngine {
             let Some(record_node) = doc.get_node_mut(child_id) else { continue };
             let Some(record_rect) = record_node.rect() else { continue };
 
+            record_node.clear_terminal_ports();
+
             // In the case of a rectangle, terminal ports are placed in
             // the center of each of the four edges.
             for (x, y, d) in [
@@ -346,6 +348,8 @@ impl LayoutEngine for SimpleLayoutEngine {
                 let Some(field_node) = doc.get_node_mut(field_node_index) else { continue };
                 let Some(field_rect) = field_node.rect() else { continue };
 
+                field_node.clear_terminal_ports();
+
                 if field_id_vec.len() == 1 {
                     for (x, y, d) in [
                         (field_rect.mid_x(), field_rect.min_y(), Orientation::Up),
diff --git a/src/mir.rs b/src/mir.rs
index 2fa0ae5..34107ae 100644
--- a/src/mir.rs
+++ b/src/mir.rs
@@ -89,6 +89,10 @@ impl NodeData {
         self.terminal_ports.iter()
     }
 
+    pub fn clear_terminal_ports(&mut self) {
+        self.terminal_ports.clear();
+    }
+
     pub fn add_terminal_port(
         &mut self,
         node_id: NodeId,
-- 
2.43.0


From 78e4eb9ef72862f5c55b89b43c44c2f001775de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 07/14] fix: assign each edge its own path

If an edge could not be routed (one of its ends is not placed), the edges
after it got each other's paths and the last one panicked. Such an edge now
has no path, which the renderer reports as an invalid layout.
---
 src/layout.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index c11860e..7f50c37 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -27,7 +27,7 @@ use petgraph::{
     visit::EdgeRef,
 };
 use std::{
-    collections::{HashMap, VecDeque},
+    collections::HashMap,
     fmt,
     hash::Hash,
 };
@@ -507,16 +507,12 @@ impl LayoutEngine for SimpleLayoutEngine {
 
         // Finding shortest edge paths
         let edge_ids = doc.edge_ids();
-        let mut paths: VecDeque<Vec<Point>> = VecDeque::with_capacity(edge_ids.len());
+        let paths: Vec<Option<Vec<Point>>> = edge_ids
+            .map(|edge_id| self.find_shortest_edges_path(doc, edge_id))
+            .collect();
 
-        for edge_id in edge_ids {
-            if let Some(path) = self.find_shortest_edges_path(doc, edge_id) {
-                paths.push_back(path);
-            }
-        }
-
-        for edge in doc.edges_mut() {
-            edge.set_path_points(Some(paths.pop_front().unwrap()));
+        for (edge, path) in doc.edges_mut().zip(paths) {
+            edge.set_path_points(path);
         }
     }
 }
-- 
2.43.0


From 1af224b0a5c72f8674944153729a5c7819796f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 08/14] fix: give an empty diagram a valid view box

Without any record the height of the view box was f32::MIN.
---
 src/layout.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout.rs b/src/layout.rs
index 7f50c37..8382eae 100644
--- a/src/layout.rs
+++ b/src/layout.rs
@@ -272,13 +272,13 @@ impl LayoutEngine for SimpleLayoutEngine {
         let child_id_vec = doc.body().children().collect::<Vec<_>>();
 
         let mut base_y = Self::ORIGIN.y;
-        let mut max_height = f32::MIN;
+        let mut max_height = 0.0f32;
 
         for (record_index, child_id) in child_id_vec.iter().copied().enumerate() {
             if record_index > 0 && (record_index % n_columns == 0) {
                 // Move to next row.
                 base_y += max_height + Self::RECORD_SPACE;
-                max_height = f32::MIN;
+                max_height = 0.0;
             }
 
             let Some(record_node) = doc.get_node_mut(child_id) else { continue };
-- 
2.43.0


From fc8355ab07685c2290337cb52ec0b31ecd9c6dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 09/14] fix: escape text in SVG

Names may contain any character. They were copied verbatim into the SVG, so
`<`, `&` or a control character in a quoted identifier made it malformed or
let the name inject elements.
---
 src/renderer.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/renderer.rs b/src/renderer.rs
index 56e46ea..d1a7560 100644
--- a/src/renderer.rs
+++ b/src/renderer.rs
@@ -217,6 +217,27 @@ impl Renderer for SVGRenderer<'_> {
     }
 }
 
+/// Escapes a string for use as character data. The `svg` crate writes text nodes verbatim.
+///
+/// Characters that XML doesn't allow at all are replaced with U+FFFD.
+fn escape_text(text: &str) -> String {
+    let mut escaped = String::with_capacity(text.len());
+
+    for c in text.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '\r' => escaped.push_str("&#13;"),
+            '\t' | '\n' => escaped.push(c),
+            '\u{0}'..='\u{1F}' | '\u{FFFE}' | '\u{FFFF}' => escaped.push('\u{FFFD}'),
+            _ => escaped.push(c),
+        }
+    }
+
+    escaped
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 enum SVGAnchor {
     Start,
@@ -246,7 +267,7 @@ impl SVGRenderer<'_> {
             .set("x", origin.x)
             .set("y", origin.y)
             .set("dominant-baseline", "middle")
-            .add(svg::node::Text::new(span.text.clone()));
+            .add(svg::node::Text::new(escape_text(&span.text)));
 
         if let Some(text_anchor) = text_anchor {
             label = label.set("text-anchor", text_anchor.text_anchor());
-- 
2.43.0


From f5840bd5d665099b3d10aab73f9b961fa71ea3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 10/14] fix: accept a table as the end of a relation, as
 documented

The grammar says `entity = identifier, [ ".", identifier ]`, but the parser
required the dot and made the identifier after it optional.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cde6fb7..cdcecd3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -194,7 +194,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
     ));
 
     let entity = ident
-        .then(just(Token::Ctrl('.')).ignore_then(ident.or_not()))
+        .then(just(Token::Ctrl('.')).ignore_then(ident).or_not())
         .map(|(table, field)| {
             if let Some(field) = field {
                 EntityPath::Field(table, field)
-- 
2.43.0


From 03c3e5fcf822443f68c228dfa00f013b62eb7acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 11/14] fix: report text after the module instead of ignoring
 it

Neither the tokenizer nor the module parser required the end of the input,
so anything after the closing brace was silently dropped.
---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index cdcecd3..b38877b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -165,6 +165,7 @@ fn tokenizer() -> impl Parser<char, Vec<(Token, Span)>, Error = Simple<char>> {
         .padded_by(comment.repeated())
         .padded_by(spaces)
         .repeated()
+        .then_ignore(end())
 }
 
 fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Clone {
@@ -269,6 +270,7 @@ fn erd_module_parser() -> impl Parser<Token, Module, Error = Simple<Token>> + Cl
         .then(module_entries.padded_by(pad.clone()))
         .then_ignore(just(Token::Ctrl('}')))
         .padded_by(pad.clone())
+        .then_ignore(end())
         .map(|(name, entries)| {
             let mut module = Module::new(name);
 
-- 
2.43.0


From b8186fc6dd7e2612ce6fa8f51a04cc21320c2a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 12/14] fix: list expected tokens in a fixed order

The expected tokens come from a randomly keyed hash set, so the same source
gave a different message on every run.
---
 src/main.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 14efe03..3b2c9ba 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -72,13 +72,17 @@ fn main() -> Result<(), io::Error> {
                     if e.expected().len() == 0 {
                         "something else".to_string()
                     } else {
-                        e.expected()
+                        let mut expected = e
+                            .expected()
                             .map(|expected| match expected {
                                 Some(expected) => expected.to_string(),
                                 None => "end of input".to_string(),
                             })
-                            .collect::<Vec<_>>()
-                            .join(", ")
+                            .collect::<Vec<_>>();
+
+                        // The set is unordered. Don't let messages vary from run to run.
+                        expected.sort();
+                        expected.join(", ")
                     }
                 ))
                 .with_label(
-- 
2.43.0


From c7d7316f881e16df63254d51a7a0864e06f58010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 13/14] fix: don't panic when reporting an error in an empty
 source

The report printer indexes the lines of the source, and an empty text has
none.
---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3b2c9ba..dd2e670 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -33,6 +33,10 @@ fn main() -> Result<(), io::Error> {
         .collect::<Vec<_>>();
 
     // Report errors
+    //
+    // `Source` can't look up a position in a text that has no line at all.
+    let source_text = if src.is_empty() { "\n" } else { src.as_str() };
+
     for e in errors {
         let filename = filename.as_str();
         let report = Report::build(ReportKind::Error, filename, e.span().start);
@@ -104,7 +108,7 @@ fn main() -> Result<(), io::Error> {
 
         report
             .finish()
-            .eprint((filename, Source::from(&src)))
+            .eprint((filename, Source::from(source_text)))
             .unwrap();
     }
 
-- 
2.43.0


From bfba43b6e91d56b5af4d722d9506080a9f1b908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 14/14] fix: exit with a failure status when the source has
 errors

A source with syntax errors was reported on standard error, but the exit
status was 0, with an empty or partial diagram on standard output.
---
 src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index dd2e670..a5e0c16 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -31,6 +31,7 @@ fn main() -> Result<(), io::Error> {
         .map(|x| x.map(|c| c.to_string()))
         .chain(parse_errs.into_iter().map(|e| e.map(|tok| tok.to_string())))
         .collect::<Vec<_>>();
+    let has_errors = !errors.is_empty();
 
     // Report errors
     //
@@ -138,5 +139,9 @@ fn main() -> Result<(), io::Error> {
             .expect("Couldn't render as SVG.");
     }
 
+    if has_errors {
+        std::process::exit(1);
+    }
+
     Ok(())
 }
-- 
2.43.0

