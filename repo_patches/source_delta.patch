From d33eca6667274b8a72af44cb5630e1c0e5de7f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:50 +0000
Subject: [PATCH 01/18] fix: --max-score built a minimum score constraint

---
 command/src/arg_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/src/arg_utils.rs b/command/src/arg_utils.rs
index 5d72cca..be3f976 100644
--- a/command/src/arg_utils.rs
+++ b/command/src/arg_utils.rs
@@ -103,7 +103,7 @@ pub fn build_constraint_min_score(score: i64) -> Constraint {
 }
 
 pub fn build_constraint_max_score(score: i64) -> Constraint {
-    MinScore(score)
+    MaxScore(score)
 }
 
 pub fn build_constraint_exact_score(score: i64) -> Vec<Constraint> {
-- 
2.43.0


From 13366dd6a2ad2b7c8dfb9a55d218b615d66163be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:50 +0000
Subject: [PATCH 02/18] fix: edge_count ignored self-loops, so a self-loop
 could pass for a DAG

---
 core/src/directed_graph.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/core/src/directed_graph.rs b/core/src/directed_graph.rs
index 767923e..f501fc8 100644
--- a/core/src/directed_graph.rs
+++ b/core/src/directed_graph.rs
@@ -32,12 +32,8 @@ impl DirectedGraph {
     }
 
     pub fn edge_count(&self) -> usize {
-        let mut total_count: usize = 0;
-        for (_, edges) in &self.edge_map {
-            total_count += edges.len();
-        }
-        // Each edge is saved twice => the count should be a multiple of 2, and divided by 2
-        total_count / 2
+        // An edge is saved under both its vertices, except a self-loop that is saved only once
+        self.edges().count()
     }
 
     pub fn contains_vertex(&self, vertex_id: VertexId) -> bool {
-- 
2.43.0


From 15e334b5afd5ee4de1d4c9e18335622604c56979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:50 +0000
Subject: [PATCH 03/18] fix: constraint validation rejected any set that does
 not mention cycles

---
 core/src/constraint/checker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/constraint/checker.rs b/core/src/constraint/checker.rs
index 299ea74..1aa4d5e 100644
--- a/core/src/constraint/checker.rs
+++ b/core/src/constraint/checker.rs
@@ -98,7 +98,7 @@ fn check_cycle_inclusion_exclusion(constraints: &Vec<Constraint>) -> Result<(),
     let contains_no_cycle = negated_constraints(constraints)
         .find(|c| **c == ContainsCycle)
         .is_some();
-    if contains_cycle != contains_no_cycle {
+    if !(contains_cycle && contains_no_cycle) {
         ok()
     } else {
         fail(format![
-- 
2.43.0


From 9e87cf7308f53c49a33e12c09d42d1c0c9e4702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:50 +0000
Subject: [PATCH 04/18] fix: DAG shortest paths panicked on vertices not
 reachable from the start

---
 core/src/algorithm/shortest_path.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/algorithm/shortest_path.rs b/core/src/algorithm/shortest_path.rs
index 5c37b25..67e7add 100644
--- a/core/src/algorithm/shortest_path.rs
+++ b/core/src/algorithm/shortest_path.rs
@@ -36,10 +36,11 @@ where
         .skip_while(|v| **v != start)
         .for_each(|v| {
             graph.outbound_edges(*v).for_each(|edge| {
-                // FIXME is it necessarily true here ...
-                let ScoredPath { path, score } = scores
-                    .get(v)
-                    .expect("The current score of the processed vertex should be in the map");
+                // A vertex without a score is not reachable from start
+                let ScoredPath { path, score } = match scores.get(v) {
+                    Some(scored_path) => scored_path,
+                    None => return,
+                };
                 let Edge(_, w) = edge;
                 let new_score = score + scorefn(&edge);
                 if let Some(current_score) = scores.get(w).map(|x| x.score) {
-- 
2.43.0


From 6778c4444835106513d75152801fb3cf22f76522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:50 +0000
Subject: [PATCH 05/18] fix: max flow never followed an edge backward, so flow
 could not be rerouted

---
 core/src/algorithm/max_flow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/algorithm/max_flow.rs b/core/src/algorithm/max_flow.rs
index 009f4b9..69815e2 100644
--- a/core/src/algorithm/max_flow.rs
+++ b/core/src/algorithm/max_flow.rs
@@ -202,7 +202,7 @@ impl<'a> Iterator for AugmentingPathIter<'a> {
             let backward_edges = self
                 .graph
                 .inbound_edges(*vid)
-                .map(|Edge(_, v)| (v, Backward));
+                .map(|Edge(v, _)| (v, Backward));
             // forward + backward edges
             (foward_edges.chain(backward_edges))
                 .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here
-- 
2.43.0


From 988fec56880b3a2fc44d14af7fce9cc8e0f3dd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:50 +0000
Subject: [PATCH 06/18] fix: max flow panicked when start and end are the same
 vertex

---
 core/src/algorithm/max_flow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/algorithm/max_flow.rs b/core/src/algorithm/max_flow.rs
index 69815e2..6a7fba0 100644
--- a/core/src/algorithm/max_flow.rs
+++ b/core/src/algorithm/max_flow.rs
@@ -128,7 +128,7 @@ fn residual_capacity(
     path.edges()
         .map(|(e, dir)| edge_residual_capacity(&e, &dir, current_flow))
         .min()
-        .expect("An augmenting path cannot be empty")
+        .unwrap_or(0) // No edge: start and target are the same vertex, there is nothing to augment
 }
 
 /// Computes the residual capacity of an edge
-- 
2.43.0


From eb8abcd16fbb399cfe16ff1a22593b2138244047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:50 +0000
Subject: [PATCH 07/18] fix: errors while flushing a graph file were reported
 as success

---
 core/src/format/gcmd.rs | 4 ++--
 core/src/format/tgf.rs  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index fd77c0a..d78fa80 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -87,7 +87,7 @@ pub fn save(graph: &DirectedGraph, filename: &str) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln![buffered, "AddEdge {} {}", src, dest]?;
     }
-    Ok(())
+    buffered.flush()
 }
 
 /// Updates an existing file with a list of GraphCommand
@@ -99,7 +99,7 @@ pub fn add_commands(filename: &str, commands: Vec<GraphCommand>) -> std::io::Res
         let line = command_into_line(command);
         writeln![buffered, "{}", line]?;
     }
-    Ok(())
+    buffered.flush()
 }
 
 fn command_into_line(command: GraphCommand) -> String {
diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index 6b7ea0a..2e396b0 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -64,7 +64,7 @@ pub fn save(graph: &DirectedGraph, filename: String) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln!(buffered, "{} {}", src, dest)?;
     }
-    Ok(())
+    buffered.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 522f8a73730b1e1516c10f88f3300fccb5cf8c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:50 +0000
Subject: [PATCH 08/18] fix: a malformed graph file panicked instead of being
 reported with its line

---
 core/src/format/gcmd.rs  | 20 ++++++++++----------
 core/src/format/tgf.rs   | 10 +++++-----
 core/src/format/utils.rs | 10 +++++++++-
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index d78fa80..0f45a81 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -49,19 +49,19 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = ADD_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
-        Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
+        let v1 = utils::parse_id(&cap[1])?;
+        let v2 = utils::parse_id(&cap[2])?;
+        Ok(AddEdge(v1, v2))
     } else if let Some(cap) = ADD_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        Ok(AddVertex(VertexId(*v1)))
+        let v1 = utils::parse_id(&cap[1])?;
+        Ok(AddVertex(v1))
     } else if let Some(cap) = REMOVE_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
-        Ok(RemoveEdge(VertexId(*v1), VertexId(*v2)))
+        let v1 = utils::parse_id(&cap[1])?;
+        let v2 = utils::parse_id(&cap[2])?;
+        Ok(RemoveEdge(v1, v2))
     } else if let Some(cap) = REMOVE_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        Ok(RemoveVertex(VertexId(*v1)))
+        let v1 = utils::parse_id(&cap[1])?;
+        Ok(RemoveVertex(v1))
     } else {
         Err(format!["Couldn't parse '{}'", line])
     }
diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index 2e396b0..a3a78e2 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -33,12 +33,12 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
-        Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
+        let v1 = utils::parse_id(&cap[1])?;
+        let v2 = utils::parse_id(&cap[2])?;
+        Ok(AddEdge(v1, v2))
     } else if let Some(cap) = VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        Ok(AddVertex(VertexId(*v1)))
+        let v1 = utils::parse_id(&cap[1])?;
+        Ok(AddVertex(v1))
     } else {
         Err(format!["Couldn't parse '{}'", line])
     }
diff --git a/core/src/format/utils.rs b/core/src/format/utils.rs
index 5c89f31..50240de 100644
--- a/core/src/format/utils.rs
+++ b/core/src/format/utils.rs
@@ -1,6 +1,7 @@
 //! Module providing helper to read/write to graph files
 
 use crate::directed_graph::DirectedGraph;
+use crate::graph::VertexId;
 use crate::graph_command::GraphCommand;
 use std::fs::File;
 use std::io::{BufRead, BufReader};
@@ -26,6 +27,13 @@ where
     })
 }
 
+/// Parses a vertex id
+pub fn parse_id(id: &str) -> Result<VertexId, String> {
+    id.parse::<u64>()
+        .map(VertexId)
+        .map_err(|err| format!["Invalid vertex id '{}': {}", id, err])
+}
+
 /// Reads a TGF file as a list of commands
 pub fn read_as_commands<ParseFn, IsCommentFn>(
     file: File,
@@ -39,7 +47,7 @@ where
     let reader = BufReader::new(file);
     let mut result: Vec<GraphCommand> = vec![];
     for (index, line) in reader.lines().enumerate() {
-        let line = line.unwrap(); // Ignore errors.
+        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;
         if !line.is_empty() && !is_comment(&line) {
             match parse_line(&line) {
                 Ok(command) => result.push(command),
-- 
2.43.0


From 20eb15b08222ff03746597bac2c1793b28fc0bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:25 +0000
Subject: [PATCH 09/18] fix: best-first search settled a vertex before its best
 path was known

---
 core/src/iter/iter_best.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/src/iter/iter_best.rs b/core/src/iter/iter_best.rs
index 3f40749..0ece21e 100644
--- a/core/src/iter/iter_best.rs
+++ b/core/src/iter/iter_best.rs
@@ -25,16 +25,15 @@ where
 {
     type Item = ScoredPath;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.queue.pop() {
-            None => None,
-            Some(weighted_path) => {
-                let vid = weighted_path.path.last().unwrap();
+        while let Some(weighted_path) = self.queue.pop() {
+            let vid = weighted_path.path.last().unwrap();
+            // A vertex is settled by the best path leading to it, ie the first one to be popped
+            if self.visited.insert(*vid) {
                 self.graph
                     .outbound_edges(*vid)
                     .map(|Edge(_, v)| v)
                     .for_each(|v| {
                         if !self.visited.contains(v) {
-                            self.visited.insert(*v);
                             let new_path = weighted_path.path.append(*v);
                             let new_scored_path = ScoredPath {
                                 path: weighted_path.path.append(*v),
@@ -43,9 +42,10 @@ where
                             self.queue.push(new_scored_path)
                         }
                     });
-                Some(weighted_path)
+                return Some(weighted_path);
             }
         }
+        None
     }
 }
 
@@ -62,7 +62,6 @@ where
     let score = scorefn(&graph, &path);
     let mut iter = empty_best_iter(graph, scorefn);
     iter.queue.push(ScoredPath { path, score });
-    iter.visited.insert(start_vertex);
     iter
 }
 
-- 
2.43.0


From 008f273ca0cdaa786b0eaf9ca309d973cf81bf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:25 +0000
Subject: [PATCH 10/18] fix: taking the lock succeeded while another command
 was holding it

---
 command/src/graph_utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index 28e40d6..d941d21 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -26,7 +26,11 @@ pub fn init(root_dir: &str) -> io::Result<()> {
 /// Creates a lock file indicating a command is already getting process
 /// Any command execution be put on hold / fail straight away if the lock file exists
 pub fn lock(root_dir: &str) -> io::Result<()> {
-    touch(lock_path(root_dir).as_ref())
+    fs::OpenOptions::new()
+        .create_new(true)
+        .write(true)
+        .open(lock_path(root_dir).as_ref())
+        .map(|_| ())
 }
 
 /// Removes the lock file to indicate
-- 
2.43.0


From 74c3fd5218f8de4c669eb4cabe8f9606ef653b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:25 +0000
Subject: [PATCH 11/18] fix: gc-build and gc-random rewrote the commands
 without holding the lock

---
 command/src/bin/gc-build.rs |  5 +----
 command/src/graph_utils.rs  | 31 +++++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/command/src/bin/gc-build.rs b/command/src/bin/gc-build.rs
index ba884ec..926df26 100644
--- a/command/src/bin/gc-build.rs
+++ b/command/src/bin/gc-build.rs
@@ -31,14 +31,11 @@ fn main() {
     let path = args.value_of("path").unwrap();
     let verbose = args.is_present("verbose");
 
-    let graph = graph_utils::load_graph(path).expect("Couldn't load graph");
+    let graph = graph_utils::rebuild_graph(path).expect("Couldn't rebuild graph");
     if verbose {
         println!("Vertices: {}", graph.vertex_count());
         println!("Edges: {}", graph.edge_count());
     }
 
-    graph_utils::save_graph_as_commands(path, &graph)
-        .expect("Couldn't save graph. Data maybe lost !");
-
     println!("Done.")
 }
diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index d941d21..98f04b8 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -66,14 +66,17 @@ fn load_graph_from_path(filepath: &path::Path) -> Result<DirectedGraph, String>
 }
 
 pub fn save_graph_as_commands(filepath: &str, graph: &DirectedGraph) -> io::Result<()> {
-    let command_path = command_path(filepath);
-    gcmd::save(
-        graph,
-        command_path
-            .as_ref()
-            .to_str()
-            .expect("Invalid path. (UTF-9 ?)"),
-    )
+    with_lock(filepath, || replace_commands(filepath, graph))
+}
+
+/// Replaces the list of commands by the shortest one building the same graph
+pub fn rebuild_graph(root_dir: &str) -> io::Result<DirectedGraph> {
+    with_lock(root_dir, || {
+        let graph = load_graph(root_dir)
+            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
+        replace_commands(root_dir, &graph)?;
+        Ok(graph)
+    })
 }
 
 /// Cleans-up the graph directory structure
@@ -163,6 +166,18 @@ fn command_path(root_dir: &str) -> Box<path::Path> {
         .into_boxed_path()
 }
 
+// Overwrites the commands with the ones building the given graph. The lock must be held
+fn replace_commands(root_dir: &str, graph: &DirectedGraph) -> io::Result<()> {
+    let command_path = command_path(root_dir);
+    gcmd::save(
+        graph,
+        command_path
+            .as_ref()
+            .to_str()
+            .expect("Invalid path. (UTF-9 ?)"),
+    )
+}
+
 // Applies a GraphCommand on the file, making sure the lock is acquired and released
 fn apply_graph_commands(root_dir: &str, commands: Vec<GraphCommand>) -> std::io::Result<()> {
     with_lock(root_dir, || {
-- 
2.43.0


From c650f98b10e887f3276b6a36e0b5dba35114a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:25 +0000
Subject: [PATCH 12/18] fix: an interrupted gc-build lost the graph

---
 command/src/graph_utils.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index 98f04b8..210904f 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -167,15 +167,12 @@ fn command_path(root_dir: &str) -> Box<path::Path> {
 }
 
 // Overwrites the commands with the ones building the given graph. The lock must be held
+// Existing commands are replaced only once the new ones have been completely written
 fn replace_commands(root_dir: &str, graph: &DirectedGraph) -> io::Result<()> {
     let command_path = command_path(root_dir);
-    gcmd::save(
-        graph,
-        command_path
-            .as_ref()
-            .to_str()
-            .expect("Invalid path. (UTF-9 ?)"),
-    )
+    let new_path = command_path.with_extension("new");
+    gcmd::save(graph, new_path.to_str().expect("Invalid path. (UTF-9 ?)"))?;
+    fs::rename(new_path, command_path)
 }
 
 // Applies a GraphCommand on the file, making sure the lock is acquired and released
-- 
2.43.0


From d99a5b144c845efd2cb8f6cfc01e069db036964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:25 +0000
Subject: [PATCH 13/18] fix: gc-add and gc-delete ignored failures to update
 the graph

---
 command/src/bin/gc-add.rs    | 12 ++++++------
 command/src/bin/gc-delete.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/command/src/bin/gc-add.rs b/command/src/bin/gc-add.rs
index 87940d6..c5572ad 100644
--- a/command/src/bin/gc-add.rs
+++ b/command/src/bin/gc-add.rs
@@ -90,7 +90,7 @@ fn main() {
     args.values_of("vertex")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| vids.map(|vid| VertexId(vid)).collect())
-        .map(|vids| graph_utils::add_vertices(path, vids));
+        .map(|vids| graph_utils::add_vertices(path, vids).expect("Couldn\'t update graph"));
 
     args.values_of("edge")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
@@ -100,13 +100,13 @@ fn main() {
                 .expect("Invalid number of vertices. Must be an even number")
         })
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn\'t update graph"));
 
     args.values_of("chain")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| chain_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn\'t update graph"));
 
     args.values_of("cycle")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
@@ -114,18 +114,18 @@ fn main() {
             cycle_from_vertices(vids.map(|vid| VertexId(vid)).collect()).expect("Invalid cycle")
         })
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn\'t update graph"));
 
     args.values_of("star")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| star_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn\'t update graph"));
 
     args.values_of("clique")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| clique_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn\'t update graph"));
 }
 
 fn chain_from_vertices(vertices: Vec<VertexId>) -> Vec<(VertexId, VertexId)> {
diff --git a/command/src/bin/gc-delete.rs b/command/src/bin/gc-delete.rs
index 905a639..d9228a3 100644
--- a/command/src/bin/gc-delete.rs
+++ b/command/src/bin/gc-delete.rs
@@ -44,11 +44,11 @@ fn main() {
     args.values_of("vertex")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| vids.map(|vid| VertexId(vid)).collect())
-        .map(|vids| graph_utils::remove_vertices(path, vids));
+        .map(|vids| graph_utils::remove_vertices(path, vids).expect("Couldn\'t update graph"));
 
     args.values_of("edge")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| vids.map(|vid| VertexId(vid)).collect())
         .map(|vids| arg_utils::as_vertex_tuple(vids).expect("Invalid number of vertices. Must be an even number"))
-        .map(|vids| graph_utils::remove_edges(path, vids));
+        .map(|vids| graph_utils::remove_edges(path, vids).expect("Couldn\'t update graph"));
 }
-- 
2.43.0


From 83dbeaabc58a64a87d01d69afd8af416bf2fa07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:25 +0000
Subject: [PATCH 14/18] fix: an invalid constraint or count on the command line
 was silently dropped

---
 command/src/bin/gc-csp.rs    | 18 +++++++++---------
 command/src/bin/gc-cycle.rs  | 22 +++++++++++-----------
 command/src/bin/gc-random.rs |  2 +-
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/command/src/bin/gc-csp.rs b/command/src/bin/gc-csp.rs
index 72d0f79..6f59849 100644
--- a/command/src/bin/gc-csp.rs
+++ b/command/src/bin/gc-csp.rs
@@ -148,17 +148,17 @@ fn main() {
 
     let include = args
         .values_of("include")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_include);
 
     let exclude = args
         .values_of("exclude")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_exclude);
 
     let ordered = args
         .values_of("ordered")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_ordered);
 
     let include_cycle = arg_utils::option_of(args.is_present("include-cycle"),
@@ -169,32 +169,32 @@ fn main() {
 
     let min_length = args
         .value_of("min-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_min_length);
 
     let max_length = args
         .value_of("max-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_max_length);
 
     let exact_length = args
         .value_of("exact-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_exact_length);
 
     let min_score = args
         .value_of("min-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_min_score);
 
     let max_score = args
         .value_of("max-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_max_score);
 
     let exact_score = args
         .value_of("exact-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_exact_score);
 
 
diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index f22fa24..fa60e1c 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -179,49 +179,49 @@ fn main() {
         Some(1)
     } else {
         args.value_of("take-n")
-            .and_then(|x| x.parse::<usize>().ok())
+            .map(|x| x.parse::<usize>().expect("Invalid number"))
     };
     let take_all = args.is_present("all");
     // Constraints
     let include_all = args
         .values_of("include-all")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_include);
     let exclude_all = args
         .values_of("exclude-all")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_exclude);
     let include_all_edges = args
         .values_of("include-all-edges")
-        .and_then(|ids| arg_utils::parse_edge_list(ids.collect()))
+        .map(|ids| arg_utils::parse_edge_list(ids.collect()).expect("Invalid edge"))
         .map(arg_utils::build_constraint_include_edges);
     let exclude_all_edges = args
         .values_of("exclude-all-edges")
-        .and_then(|ids| arg_utils::parse_edge_list(ids.collect()))
+        .map(|ids| arg_utils::parse_edge_list(ids.collect()).expect("Invalid edge"))
         .map(arg_utils::build_constraint_exclude_edges);
     let min_length = args
         .value_of("min-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_min_length);
     let max_length = args
         .value_of("max-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_max_length);
     let exact_length = args
         .value_of("exact-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_exact_length);
     let min_score = args
         .value_of("min-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_min_score);
     let max_score = args
         .value_of("max-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_max_score);
     let exact_score = args
         .value_of("exact-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_exact_score);
 
     let constraints = build_all_constraints(
diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index 74dc781..d8464f2 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -71,7 +71,7 @@ fn main() {
         .and_then(|x| x.parse::<usize>().ok())
         .unwrap();
     let edge_count =  args.value_of("edge-count")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .unwrap_or(vertex_count * 3);
 
 
-- 
2.43.0


From 396461fb6f864c63b8ba64668ed788d380a6ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:48 +0000
Subject: [PATCH 15/18] fix: gc-cycle could not be given more than one vertex,
 nor any edge, to include or exclude

---
 command/src/bin/gc-cycle.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index fa60e1c..644de52 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -140,28 +140,32 @@ fn main() {
                 .long("include-all")
                 .help("Return all the cycles from the graph that are including all the provided vertices")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(1),
         )
         .arg(
             Arg::with_name("exclude-all")
                 .long("exclude-all")
                 .help("Return all the cycles from the graph that not including any of the provided vertices")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(1),
         )
         .arg(
             Arg::with_name("include-all-edges")
                 .long("include-all-edges")
                 .help("Return all the cycles from the graph that are including all the provided edges")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(2),
         )
         .arg(
             Arg::with_name("exclude-all-edges")
                 .long("exclude-all-edges")
                 .help("Return all the cycles from the graph that not including any of the provided edges")
                 .required(false)
-                .takes_value(true),
+                .takes_value(true)
+                .min_values(2),
         )
         .get_matches();
 
-- 
2.43.0


From 5dda8c12c01ac5564dfdb3a8820854c7e9f2ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:48 +0000
Subject: [PATCH 16/18] fix: gc-cycle edge constraints missed the edge closing
 a cycle

---
 command/src/bin/gc-cycle.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index 644de52..8dce1bd 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -331,8 +331,14 @@ where
 {
     let path = cycle.as_path();
     let score = scorefn(graph, &path);
+    // Closing the path, for the edge from the last to the first vertex of the cycle to be part of it
+    let closed_path = path.first().map_or(path.clone(), |first| path.append(*first));
     let scored_path = path::ScoredPath { path, score };
-    constraints.iter().all(|c| c.check_complete(&scored_path))
+    let closed_scored_path = path::ScoredPath { path: closed_path, score };
+    constraints.iter().all(|c| match c {
+        Constraint::MinLength(_) | Constraint::MaxLength(_) => c.check_complete(&scored_path),
+        _ => c.check_complete(&closed_scored_path),
+    })
 }
 
 // Formatter
-- 
2.43.0


From e71c637793cb8e80e66303ed5576d9cff243f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:56 +0000
Subject: [PATCH 17/18] fix: gc-build was always verbose, whatever its option

---
 command/src/bin/gc-build.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/command/src/bin/gc-build.rs b/command/src/bin/gc-build.rs
index 926df26..b18d139 100644
--- a/command/src/bin/gc-build.rs
+++ b/command/src/bin/gc-build.rs
@@ -21,10 +21,8 @@ fn main() {
                 .long("verbose")
                 .short("v")
                 .help("Verbose mode")
-                .default_value("false")
                 .required(false)
-                .takes_value(false)
-                .max_values(1),
+                .takes_value(false),
         )
         .get_matches();
 
-- 
2.43.0


From 1d4b348bd1cc586ac5289dd443105db27642b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:51 +0000
Subject: [PATCH 18/18] fix: an interrupted gc-random lost the graph

---
 command/src/bin/gc-random.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index d8464f2..7583ddc 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -89,11 +89,7 @@ fn main() {
             }
         }
 
-        // Cleaning current graph first
-        graph_utils::clean(path).expect(&format![
-            "A problem occured. Path '{}' might not exist, or the graph is currently lock (check 'lock' file)",
-            &path
-        ]);
+        // The current graph is only replaced once the new one is completely written
         graph_utils::init(path).expect(&format![
             "A problem occured. Unable to create a new graph at '{}' (check directory structure and 'lock' file)",
             &path
-- 
2.43.0

