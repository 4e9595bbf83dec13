From 389e7166ba4e7ebed87367c926070f31e1b29d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 01/24] fix: CSVWriter::write reports failures of the final
 flush

The csv writers were dropped with rows still buffered; an error while the
drop wrote them out was lost and write() returned Ok for a truncated file.
---
 src/io/csv/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/csv/writer.rs b/src/io/csv/writer.rs
index a4537aa..8bf575a 100644
--- a/src/io/csv/writer.rs
+++ b/src/io/csv/writer.rs
@@ -111,6 +111,7 @@ where
         for id in self.g.node_indices() {
             wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;
         }
+        wtr.flush()?;
 
         info!(
             "csv::Writer::write - Writing edges to {}",
@@ -128,6 +129,7 @@ where
                 g.get_edge_label(start, target),
             ))?;
         }
+        wtr.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 7e005735a5f101f304e1e217bae03929dc9a77b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 02/24] fix: CSVReader::read returns I/O errors instead of a
 partial graph

An error from the underlying reader was treated like a row that cannot be
parsed: it was skipped, the reader stopped, and read() returned Ok.
---
 src/io/csv/reader.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/io/csv/reader.rs b/src/io/csv/reader.rs
index 7c99275..9fcbc28 100644
--- a/src/io/csv/reader.rs
+++ b/src/io/csv/reader.rs
@@ -133,7 +133,12 @@ where
                         let record: NodeRecord<Id, NL> = _result;
                         record.add_to_graph(g);
                     }
-                    Err(e) => warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e),
+                    Err(e) => {
+                        if e.is_io_error() {
+                            return Err(e.into());
+                        }
+                        warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e)
+                    }
                 }
             }
         }
@@ -155,7 +160,12 @@ where
                     let record: EdgeRecord<Id, EL> = _result;
                     record.add_to_graph(g);
                 }
-                Err(e) => warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e),
+                Err(e) => {
+                    if e.is_io_error() {
+                        return Err(e.into());
+                    }
+                    warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e)
+                }
             }
         }
 
-- 
2.43.0


From b1097fbbea9f0505e81cac40151ee21b074c3096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 03/24] fix: Serializer::export reports failures of the final
 flush

The BufWriter was dropped unflushed, which ignores write errors: a full disk
could leave a truncated file behind an Ok.
---
 src/io/serde.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/serde.rs b/src/io/serde.rs
index 58eea95..e07001b 100644
--- a/src/io/serde.rs
+++ b/src/io/serde.rs
@@ -19,7 +19,7 @@
  * under the License.
  */
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::Path;
 
 use serde::{de, ser};
@@ -59,7 +59,10 @@ impl Serializer {
     {
         let mut writer = BufWriter::new(File::create(path)?);
 
-        serialize_into(&mut writer, &obj)
+        serialize_into(&mut writer, &obj)?;
+        writer.flush()?;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 5250f4040dced75748f73173e00e92298cc0cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 04/24] fix: TypedMemoryMap opens an empty file as an empty
 slice

Mapping a file of length 0 is an error, so a dumped graph without edges, or
without nodes, could not be opened again.
---
 src/io/mmap.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 8724817..39992e6 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -45,8 +45,16 @@ impl<T: Copy> TypedMemoryMap<T> {
         let file = File::open(filename).expect("error opening file");
         let size = file.metadata().expect("error reading metadata").len() as usize;
         let type_len = mem::size_of::<T>();
+        let map = if size == 0 {
+            // An empty file cannot be mapped.
+            memmap::MmapMut::map_anon(1)
+                .and_then(|map| map.make_read_only())
+                .unwrap()
+        } else {
+            unsafe { memmap::Mmap::map(&file).unwrap() }
+        };
         TypedMemoryMap {
-            map: unsafe { memmap::Mmap::map(&file).unwrap() },
+            map,
             len: size / type_len,
             type_len,
             phn: PhantomData,
-- 
2.43.0


From d7448005ed44abd086500fc055c6c2c7922c2af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 05/24] fix: opening a memory-mapped graph does not drop parts
 it fails to stat

Any error while looking for the in-edges, labels or auxiliary file was taken
for "the file does not exist", so a failing disk silently turned a labelled
directed graph into an unlabelled undirected one.
---
 src/graph_impl/static_graph/mmap/edge_vec_mmap.rs |  6 ++----
 src/graph_impl/static_graph/mmap/graph_mmap.rs    |  9 ++++-----
 src/io/mmap.rs                                    | 13 +++++++++++--
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/graph_impl/static_graph/mmap/edge_vec_mmap.rs b/src/graph_impl/static_graph/mmap/edge_vec_mmap.rs
index 7b3af21..9cf6ef8 100644
--- a/src/graph_impl/static_graph/mmap/edge_vec_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/edge_vec_mmap.rs
@@ -18,11 +18,9 @@
  * specific language governing permissions and limitations
  * under the License.
  */
-use std::fs::metadata;
-
 use generic::IdType;
 use graph_impl::static_graph::EdgeVecTrait;
-use io::mmap::TypedMemoryMap;
+use io::mmap::{file_exists, TypedMemoryMap};
 
 /// A mmap version of `EdgeVec`.
 pub struct EdgeVecMmap<Id: IdType, L: IdType> {
@@ -37,7 +35,7 @@ impl<Id: IdType, L: IdType> EdgeVecMmap<Id, L> {
         let edges_file = format!("{}.edges", prefix);
         let labels_file = format!("{}.labels", prefix);
 
-        if metadata(&labels_file).is_ok() {
+        if file_exists(&labels_file) {
             EdgeVecMmap {
                 offsets: TypedMemoryMap::new(&offsets_file),
                 edges: TypedMemoryMap::new(&edges_file),
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 038cb26..558d8f6 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -19,7 +19,6 @@
  * under the License.
  */
 use std::borrow::Cow;
-use std::fs::metadata;
 use std::hash::Hash;
 
 use serde;
@@ -32,7 +31,7 @@ use graph_impl::static_graph::node::StaticNode;
 use graph_impl::static_graph::static_edge_iter::StaticEdgeIndexIter;
 use graph_impl::static_graph::EdgeVecTrait;
 use graph_impl::{Edge, GraphImpl};
-use io::mmap::TypedMemoryMap;
+use io::mmap::{file_exists, TypedMemoryMap};
 use io::serde::Deserializer;
 use map::SetMap;
 
@@ -97,19 +96,19 @@ where
 
         let edges = EdgeVecMmap::new(&edge_prefix);
 
-        let in_edges = if metadata(&format!("{}.offsets", in_edge_prefix)).is_ok() {
+        let in_edges = if file_exists(&format!("{}.offsets", in_edge_prefix)) {
             Some(EdgeVecMmap::new(&in_edge_prefix))
         } else {
             None
         };
 
-        let labels = if metadata(&labels_file).is_ok() {
+        let labels = if file_exists(&labels_file) {
             Some(TypedMemoryMap::new(&labels_file))
         } else {
             None
         };
 
-        let aux_file = if metadata(&aux_map_file).is_ok() {
+        let aux_file = if file_exists(&aux_map_file) {
             Deserializer::import(&aux_map_file).unwrap()
         } else {
             let num_node = edges.num_nodes();
diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 39992e6..d5bf3e2 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -24,8 +24,8 @@
 
 extern crate memmap;
 
-use std::fs::File;
-use std::io::{BufWriter, Result, Write};
+use std::fs::{metadata, File};
+use std::io::{BufWriter, ErrorKind, Result, Write};
 use std::marker::PhantomData;
 use std::mem;
 use std::ops;
@@ -103,6 +103,15 @@ impl<T: Copy> ops::Index<ops::RangeTo<usize>> for TypedMemoryMap<T> {
     }
 }
 
+/// Whether the file exists. Panics if this cannot be told.
+pub(crate) fn file_exists(filename: &str) -> bool {
+    match metadata(filename) {
+        Ok(_) => true,
+        Err(ref e) if e.kind() == ErrorKind::NotFound => false,
+        Err(e) => panic!("error reading metadata of {}: {}", filename, e),
+    }
+}
+
 #[inline]
 pub fn typed_as_byte_slice<T: Copy>(slice: &[T]) -> &[u8] {
     unsafe {
-- 
2.43.0


From 7b379a97dad2cf19a64d4bbde59c6be50941977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 06/24] fix: dump_mmap removes what an earlier dump to the same
 place left

Dumping a graph over one with labels or in-edges kept the old label and
in-edge files, and opening the result mixed the two graphs; an interrupted
dump mixed new edges with the old labels, in-edges and counts.
---
 src/graph_impl/static_graph/edge_vec.rs |  8 +++++++-
 src/graph_impl/static_graph/graph.rs    | 12 +++++++++++-
 src/io/mmap.rs                          | 10 +++++++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 2d425d5..edeb188 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -19,7 +19,7 @@
  * under the License.
  */
 use generic::IdType;
-use io::mmap::dump;
+use io::mmap::{dump, remove_stale};
 use std::fs::File;
 use std::io::Result;
 
@@ -168,6 +168,12 @@ impl<Id: IdType, L: IdType> EdgeVec<Id, L> {
         let edges_file = format!("{}.edges", prefix);
         let labels_file = format!("{}.labels", prefix);
 
+        // Leave nothing of an earlier dump behind. The offsets go first, since
+        // nothing can be opened without them.
+        for stale in &[&offsets_file, &edges_file, &labels_file] {
+            remove_stale(stale)?;
+        }
+
         unsafe {
             dump(self.get_offsets(), File::create(offsets_file)?)?;
             dump(self.get_edges(), File::create(edges_file)?)?;
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 395b7d6..7171049 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -35,7 +35,7 @@ use graph_impl::static_graph::node::StaticNode;
 use graph_impl::static_graph::static_edge_iter::StaticEdgeIndexIter;
 use graph_impl::static_graph::{EdgeVec, EdgeVecTrait};
 use graph_impl::{Edge, GraphImpl};
-use io::mmap::dump;
+use io::mmap::{dump, remove_stale};
 use io::serde::{Deserialize, Serialize, Serializer};
 use map::SetMap;
 
@@ -428,6 +428,16 @@ where
 
         let aux_map_file = format!("{}_aux.bin", prefix);
 
+        // Leave nothing of an earlier dump behind, which might have been a graph
+        // with labels or a directed one. The offsets go first, since nothing can
+        // be opened without them.
+        remove_stale(&format!("{}.offsets", edges_prefix))?;
+        remove_stale(&format!("{}.offsets", in_edges_prefix))?;
+        remove_stale(&format!("{}.edges", in_edges_prefix))?;
+        remove_stale(&format!("{}.labels", in_edges_prefix))?;
+        remove_stale(&label_file)?;
+        remove_stale(&aux_map_file)?;
+
         self.edge_vec.dump_mmap(&edges_prefix)?;
         if let Some(ref in_edges) = self.in_edge_vec {
             in_edges.dump_mmap(&in_edges_prefix)?;
diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index d5bf3e2..bcae89f 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -24,7 +24,7 @@
 
 extern crate memmap;
 
-use std::fs::{metadata, File};
+use std::fs::{metadata, remove_file, File};
 use std::io::{BufWriter, ErrorKind, Result, Write};
 use std::marker::PhantomData;
 use std::mem;
@@ -112,6 +112,14 @@ pub(crate) fn file_exists(filename: &str) -> bool {
     }
 }
 
+/// Remove the file if it exists.
+pub(crate) fn remove_stale(filename: &str) -> Result<()> {
+    match remove_file(filename) {
+        Err(ref e) if e.kind() == ErrorKind::NotFound => Ok(()),
+        result => result,
+    }
+}
+
 #[inline]
 pub fn typed_as_byte_slice<T: Copy>(slice: &[T]) -> &[u8] {
     unsafe {
-- 
2.43.0


From c3e029e5a489473bf107413ac3085fc37cfe45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 07/24] fix: StaticGraphMmap::has_edge answers false for an
 unknown start node

It panicked, as did get_edge and get_edge_label, where the other graph types
answer that there is no such edge.
---
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 558d8f6..c904859 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -186,11 +186,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn has_edge(&self, start: Id, target: Id) -> bool {
-        let neighbors = self.neighbors(start);
-        // The neighbors must be sorted anyway
-        let pos = neighbors.binary_search(&target);
-
-        pos.is_ok()
+        self.edges.has_edge(start, target)
     }
 
     #[inline]
-- 
2.43.0


From dfbcc5a4afe17d366f7b87ffede4788702e4995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 08/24] fix: edges() of undirected static graphs yields each
 edge's own label

The label array has an entry per direction, edge_indices() one per edge;
zipping them gave edges the labels of other edges, and so did
get_edge_label_id_counter().
---
 src/graph_impl/static_graph/graph.rs           | 15 ++++-----------
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 15 ++++-----------
 2 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 7171049..fec3983 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -551,17 +551,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
 
     #[inline]
     fn edges(&self) -> Iter<EdgeType<Id, L>> {
-        let labels = self.edge_vec.get_labels();
-        if labels.is_empty() {
-            Iter::new(Box::new(
-                self.edge_indices()
-                    .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
-            ))
-        } else {
-            Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
-                EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
-            })))
-        }
+        Iter::new(Box::new(
+            self.edge_indices()
+                .map(move |(start, target)| self.get_edge(start, target)),
+        ))
     }
 
     #[inline]
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index c904859..9100dea 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -235,17 +235,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn edges(&self) -> Iter<EdgeType<Id, L>> {
-        let labels = self.edges.get_labels();
-        if labels.is_empty() {
-            Iter::new(Box::new(
-                self.edge_indices()
-                    .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
-            ))
-        } else {
-            Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
-                EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
-            })))
-        }
+        Iter::new(Box::new(
+            self.edge_indices()
+                .map(move |(start, target)| self.get_edge(start, target)),
+        ))
     }
 
     #[inline]
-- 
2.43.0


From 15f6c406ee123c2109d594a43cd10f98f2b28755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 09/24] fix: add_edge counts an edge once

Adding an edge that already exists, or updating its label, incremented
edge_count() although the graph gained no edge.
---
 src/graph_impl/graph_map/graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index ff18367..5c8bcb4 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -353,7 +353,9 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             nodemap.add_edge(start, label_id);
         }
 
-        self.num_of_edges += 1;
+        if result {
+            self.num_of_edges += 1;
+        }
 
         result
     }
-- 
2.43.0


From 3dad34cf25b63f94d0cb7b2852f80ff0032f98a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 10/24] fix: remove_node handles a node with a self loop

The node, already taken out of the map, was looked up as its own neighbour
and the call panicked with the graph half updated.
---
 src/graph_impl/graph_map/graph.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 5c8bcb4..e57f20b 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -300,22 +300,26 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
         match self.node_map.remove(&id) {
             Some(node) => {
                 if self.is_directed() {
-                    for neighbor in node.neighbors_iter() {
+                    for neighbor in node.neighbors_iter().filter(|n| *n != id) {
                         let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                         nodemap.remove_in_edge(id);
                     }
-                    for in_neighbor in node.in_neighbors_iter() {
+                    for in_neighbor in node.in_neighbors_iter().filter(|n| *n != id) {
                         let nodemap = self.node_map.get_mut(&in_neighbor).unwrap();
                         nodemap.remove_edge(id);
                     }
                 } else {
-                    for neighbor in node.neighbors_iter() {
+                    for neighbor in node.neighbors_iter().filter(|n| *n != id) {
                         let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                         nodemap.remove_edge(id);
                     }
                 }
 
                 self.num_of_edges -= node.degree() + node.in_degree();
+                if node.has_in_neighbor(id) {
+                    // A directed self loop is both an outgoing and an incoming edge.
+                    self.num_of_edges += 1;
+                }
 
                 OwnedNodeType::NodeMap(node)
             }
-- 
2.43.0


From 6943d03bb11837f1dd9b83f73363e3af95e8b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 11/24] fix: graphs of different size are not equal

`!a == b` negates the bits of a, so the counts were never compared and a
graph was equal to every supergraph of it, but not the other way round.
---
 src/graph_impl/graph_map/graph.rs    | 2 +-
 src/graph_impl/static_graph/graph.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index e57f20b..c909d20 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -90,7 +90,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedGraphMap<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedGraphMap<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index fec3983..e5d817d 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -69,7 +69,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedStaticGraph<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedStaticGraph<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
-- 
2.43.0


From b33885067b56027d28ad0b6c7c97685d5a774682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 12/24] fix: ConnComp::get_root returns None for a node it has
 not seen

It indexed the parent map with the unknown node and panicked.
---
 src/algorithm/conn_comp.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/conn_comp.rs b/src/algorithm/conn_comp.rs
index e334750..cdce076 100644
--- a/src/algorithm/conn_comp.rs
+++ b/src/algorithm/conn_comp.rs
@@ -138,6 +138,10 @@ impl<Id: IdType> ConnComp<Id> {
 
     /// Get the root of a node.
     pub fn get_root(&self, mut node: Id) -> Option<Id> {
+        if !self.parent().contains_key(&node) {
+            return None;
+        }
+
         while self.parent().get(&node) != Some(&node) {
             let p = self.parent()[&node];
             let pp = self.parent()[&p];
@@ -146,11 +150,7 @@ impl<Id: IdType> ConnComp<Id> {
             node = pp;
         }
 
-        if self.parent().get(&node) != None {
-            Some(node)
-        } else {
-            None
-        }
+        Some(node)
     }
 
     /// Check if two nodes are belong to the same component.
-- 
2.43.0


From b6a934fe239ac45a9c5d17e18165db7c6ff9f834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 13/24] fix: a node without edges is a connected component

ConnComp only learned of nodes through edges: isolated nodes were missing
from the count, and ConnSubgraph panicked on a graph that has one.
---
 src/algorithm/conn_comp.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/algorithm/conn_comp.rs b/src/algorithm/conn_comp.rs
index cdce076..e3823ff 100644
--- a/src/algorithm/conn_comp.rs
+++ b/src/algorithm/conn_comp.rs
@@ -97,26 +97,30 @@ impl<Id: IdType> ConnComp<Id> {
         &mut self,
         graph: &GeneralGraph<Id, NL, EL, L>,
     ) {
+        for node in graph.node_indices() {
+            self.process_new_node(node);
+        }
         for edge in graph.edges() {
             self.process_new_edge(&edge);
         }
     }
 
+    /// A node seen for the first time is a component of its own.
+    fn process_new_node(&mut self, node: Id) {
+        if !self.parent().contains_key(&node) {
+            self.mut_parent().insert(node, node);
+            self.count += 1;
+        }
+    }
+
     /// Update the root map based on a newly given edge
     /// Can be called at anytime after instantiating a ConnComp instance
     pub fn process_new_edge<L: IdType>(&mut self, edge: &EdgeTrait<Id, L>) {
         let x = edge.get_start();
         let y = edge.get_target();
 
-        if !self.parent().contains_key(&x) {
-            self.mut_parent().insert(x, x);
-            self.count += 1;
-        }
-
-        if !self.parent().contains_key(&y) {
-            self.mut_parent().insert(y, y);
-            self.count += 1;
-        }
+        self.process_new_node(x);
+        self.process_new_node(y);
 
         let x_root = self.get_root(x).unwrap();
         let y_root = self.get_root(y).unwrap();
-- 
2.43.0


From 8632ffc3ef263c358645cafe02eacfa964e48dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 14/24] fix: an empty label in a csv file without headers is no
 label

With headers an empty label field means "no label"; without headers it became
the label "".
---
 src/io/csv/record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/csv/record.rs b/src/io/csv/record.rs
index e2bc16e..f1b0910 100644
--- a/src/io/csv/record.rs
+++ b/src/io/csv/record.rs
@@ -114,7 +114,7 @@ where
                 let id = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq.next_element().unwrap_or(None).unwrap_or(None);
 
                 Ok(NodeRecord::new(id, label))
             }
@@ -205,7 +205,7 @@ where
                 let target = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq.next_element().unwrap_or(None).unwrap_or(None);
 
                 Ok(EdgeRecord::new(start, target, label))
             }
-- 
2.43.0


From c68d9f1b998dee103293d0506fea2bb178eddccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 15/24] fix: equal SetMaps have equal hashes

Equality ignored the order of the items, and so their ids, while the hash
depends on it.
---
 src/map/set_map.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/map/set_map.rs b/src/map/set_map.rs
index 7ea6271..0d31417 100644
--- a/src/map/set_map.rs
+++ b/src/map/set_map.rs
@@ -29,7 +29,7 @@ use io::serde::{Deserialize, Serialize};
 use map::VecMap;
 
 /// More efficient but less compact.
-#[derive(Debug, PartialEq, Eq, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct SetMap<L: Hash + Eq> {
     labels: IndexSet<L>,
 }
@@ -131,6 +131,15 @@ impl<L: Hash + Eq> MutMapTrait<L> for SetMap<L> {
     }
 }
 
+/// Two maps are equal if they give the same ids to the same items.
+impl<L: Hash + Eq> PartialEq for SetMap<L> {
+    fn eq(&self, other: &SetMap<L>) -> bool {
+        self.labels.len() == other.labels.len() && self.labels.iter().eq(other.labels.iter())
+    }
+}
+
+impl<L: Hash + Eq> Eq for SetMap<L> {}
+
 impl<L: Hash + Eq> Hash for SetMap<L> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         for l in self.items() {
-- 
2.43.0


From eb9c3b5647a0c6a913931284f4f34b054678f3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 16/24] fix: LDBC import does not skip a file it fails to stat

is_file() is false on any error, so a failing disk silently left the file out
of the imported graph.
---
 src/io/ldbc/scheme.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/ldbc/scheme.rs b/src/io/ldbc/scheme.rs
index 6d79ff3..7bb3185 100644
--- a/src/io/ldbc/scheme.rs
+++ b/src/io/ldbc/scheme.rs
@@ -20,7 +20,7 @@
  */
 use std::collections::HashMap;
 use std::fs;
-use std::io::Result;
+use std::io::{ErrorKind, Result};
 use std::path::Path;
 
 use generic::{GraphType, IdType};
@@ -203,8 +203,12 @@ impl Scheme {
         for entry in fs::read_dir(path)? {
             let dir = entry?;
             let path = dir.path();
-            if path.is_file() {
-                files_in_dir.push(path);
+            match fs::metadata(&path) {
+                Ok(metadata) => if metadata.is_file() {
+                    files_in_dir.push(path);
+                },
+                Err(ref e) if e.kind() == ErrorKind::NotFound => {}
+                Err(e) => return Err(e),
             }
         }
 
-- 
2.43.0


From 983a92e6ac9898d8b6417c030d9b41e907aa70d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 17/24] fix: Dfs visits nodes depth first

Nodes were marked when pushed on the stack, so a node that had been pushed
from an earlier visited node was not visited from the latest one, and the
order was not that of a depth first traversal.
---
 src/algorithm/dfs.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/algorithm/dfs.rs b/src/algorithm/dfs.rs
index ef3e342..986582f 100644
--- a/src/algorithm/dfs.rs
+++ b/src/algorithm/dfs.rs
@@ -79,6 +79,12 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
         discovered: FixedBitSet,
         graph: &'a G,
     ) -> Self {
+        let mut discovered = discovered;
+        for node in stack.iter() {
+            // The nodes on the stack are still to be visited.
+            discovered.grow(node.id() + 1);
+            discovered.insert(node.id());
+        }
         Dfs {
             stack,
             discovered,
@@ -108,24 +114,24 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
 
     /// Return the next node in the Dfs, or **None** if the traversal is done.
     pub fn next(&mut self) -> Option<Id> {
-        if self.stack.len() == 0 {
-            if let Some(id) = self.next_unvisited_node() {
-                self.stack.push(id);
-                self.discovered.set(id.id(), false);
+        while let Some(current_node) = self.stack.pop().or_else(|| self.next_unvisited_node()) {
+            // A node is put on the stack once per visited neighbour, and is
+            // visited from the latest of them.
+            if !self.discovered.contains(current_node.id()) {
+                continue;
             }
-        }
+            self.discovered.set(current_node.id(), false);
 
-        if let Some(current_node) = self.stack.pop() {
             for neighbour in self.graph.neighbors_iter(current_node) {
                 if self.discovered.contains(neighbour.id()) {
-                    self.discovered.set(neighbour.id(), false);
                     self.stack.push(neighbour);
                 }
             }
-            Some(current_node)
-        } else {
-            None
+
+            return Some(current_node);
         }
+
+        None
     }
 
     /// Randomly pick a unvisited node from the map.
@@ -144,7 +150,6 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
             if !self.graph.has_node(start) {
                 panic!("Node {:?} is not in the graph.", start);
             } else {
-                self.discovered.set(start.id(), false);
                 self.stack.clear();
                 self.stack.push(start);
             }
@@ -153,7 +158,6 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
                 panic!("Graph is empty")
             } else {
                 let id = self.graph.node_indices().next().unwrap();
-                self.discovered.set(id.id(), false);
                 self.stack.clear();
                 self.stack.push(id);
             }
-- 
2.43.0


From 6e973a0e57d5f8498f27eb25cb8cb1fbee6b5a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 18/24] fix: csv readers report an error while reading the
 header

---
 src/io/csv/reader.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/io/csv/reader.rs b/src/io/csv/reader.rs
index 9fcbc28..7855841 100644
--- a/src/io/csv/reader.rs
+++ b/src/io/csv/reader.rs
@@ -121,11 +121,15 @@ where
                 "Adding nodes from {}",
                 path_to_nodes.as_path().to_str().unwrap()
             );
-            let rdr = ReaderBuilder::new()
+            let mut rdr = ReaderBuilder::new()
                 .has_headers(self.has_headers)
                 .flexible(self.is_flexible)
                 .delimiter(self.separator)
                 .from_path(path_to_nodes.as_path())?;
+            if self.has_headers {
+                // `into_deserialize` ignores an error while reading the header.
+                rdr.byte_headers()?;
+            }
 
             for (i, result) in rdr.into_deserialize().enumerate() {
                 match result {
@@ -148,11 +152,15 @@ where
             self.path_to_edges.as_path().to_str().unwrap()
         );
 
-        let rdr = ReaderBuilder::new()
+        let mut rdr = ReaderBuilder::new()
             .has_headers(self.has_headers)
             .flexible(self.is_flexible)
             .delimiter(self.separator)
             .from_path(self.path_to_edges.as_path())?;
+        if self.has_headers {
+            // `into_deserialize` ignores an error while reading the header.
+            rdr.byte_headers()?;
+        }
 
         for (i, result) in rdr.into_deserialize().enumerate() {
             match result {
@@ -178,11 +186,15 @@ where
                 "Reading nodes from {}",
                 path_to_nodes.as_path().to_str().unwrap()
             );
-            let rdr = ReaderBuilder::new()
+            let mut rdr = ReaderBuilder::new()
                 .has_headers(self.has_headers)
                 .flexible(self.is_flexible)
                 .delimiter(self.separator)
                 .from_path(path_to_nodes.as_path())?;
+            if self.has_headers {
+                // `into_deserialize` ignores an error while reading the header.
+                rdr.byte_headers()?;
+            }
 
             let rdr = rdr
                 .into_deserialize()
@@ -209,11 +221,15 @@ where
             "Reading edges from {}",
             self.path_to_edges.as_path().to_str().unwrap()
         );
-        let rdr = ReaderBuilder::new()
+        let mut rdr = ReaderBuilder::new()
             .has_headers(self.has_headers)
             .flexible(self.is_flexible)
             .delimiter(self.separator)
             .from_path(self.path_to_edges.as_path())?;
+        if self.has_headers {
+            // `into_deserialize` ignores an error while reading the header.
+            rdr.byte_headers()?;
+        }
 
         let rdr = rdr
             .into_deserialize()
-- 
2.43.0


From 7060f3b038d8fcaf7cfaa805ff453ec1de4b2ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 19/24] fix: removing a node with a self loop does not
 underflow the edge count

---
 src/graph_impl/graph_map/graph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index c909d20..1c84ca4 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -315,11 +315,12 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
                     }
                 }
 
-                self.num_of_edges -= node.degree() + node.in_degree();
+                let mut num_of_removed = node.degree() + node.in_degree();
                 if node.has_in_neighbor(id) {
                     // A directed self loop is both an outgoing and an incoming edge.
-                    self.num_of_edges += 1;
+                    num_of_removed -= 1;
                 }
+                self.num_of_edges -= num_of_removed;
 
                 OwnedNodeType::NodeMap(node)
             }
-- 
2.43.0


From bd587682527bbd2a5fc109d2b343134a73d3fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 20/24] fix: convert empty graphs and graphs using the largest
 id to static graphs

---
 src/graph_impl/graph_map/graph.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 1c84ca4..3a34b98 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -864,8 +864,8 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             (None, None, None)
         };
 
-        let mut nid = Id::new(0);
-        let max_nid = self.node_indices().max().unwrap();
+        // Do not count in `Id`, which cannot go beyond its largest value.
+        let num_of_ids = self.node_indices().max().map_or(0, |i| i.id() + 1);
 
         offset_vec.push(offset);
 
@@ -873,8 +873,8 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             _in_offset_vec.push(_in_offset);
         }
 
-        while nid <= max_nid {
-            if let Some(mut node) = self.node_map.remove(&nid) {
+        for nid in 0..num_of_ids {
+            if let Some(mut node) = self.node_map.remove(&Id::new(nid)) {
                 let neighbors = mem::replace(&mut node.neighbors, BTreeMap::new());
                 offset += neighbors.len();
 
@@ -915,8 +915,6 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
                 _in_offset_vec.push(_in_offset);
             }
 
-            nid = nid.increment();
-
             //shrink the map to save memory
             self.shrink_to_fit();
         }
-- 
2.43.0


From e97a280ffcc8535817cfb2b03c718478283b4199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 21/24] fix: let the edge iterator of static graphs end when
 all ids are used

---
 src/graph_impl/static_graph/static_edge_iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/static_graph/static_edge_iter.rs b/src/graph_impl/static_graph/static_edge_iter.rs
index 8906c7a..0fdd15a 100644
--- a/src/graph_impl/static_graph/static_edge_iter.rs
+++ b/src/graph_impl/static_graph/static_edge_iter.rs
@@ -49,7 +49,8 @@ impl<'a, Id: IdType, L: IdType> Iterator for StaticEdgeIndexIter<'a, Id, L> {
         let mut neighbors: &[Id];
 
         loop {
-            while self.edge_vec.has_node(Id::new(self.curr_node))
+            // Ids wrap around beyond the largest one, so check before converting.
+            while self.curr_node < self.edge_vec.num_nodes()
                 && self.curr_neighbor_index >= self.edge_vec.degree(Id::new(self.curr_node))
             {
                 self.curr_node += 1;
@@ -57,7 +58,7 @@ impl<'a, Id: IdType, L: IdType> Iterator for StaticEdgeIndexIter<'a, Id, L> {
             }
 
             node = self.curr_node;
-            if !self.edge_vec.has_node(Id::new(node)) {
+            if node >= self.edge_vec.num_nodes() {
                 return None;
             }
 
-- 
2.43.0


From ac316f163e57776d75b096d62d196547de5eeabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 22/24] fix: an edge vector without offsets has no nodes

---
 src/graph_impl/static_graph/edge_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index edeb188..ef2df3d 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -45,7 +45,8 @@ pub trait EdgeVecTrait<Id: IdType, L: IdType> {
 
     #[inline]
     fn num_nodes(&self) -> usize {
-        self.get_offsets().len() - 1
+        // There is not even one offset in an `EdgeVec` made by `default()` or `clear()`.
+        self.get_offsets().len().saturating_sub(1)
     }
 
     #[inline]
-- 
2.43.0


From 0be0decc8910e7ee4710170fe2442111d27c533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 23/24] fix: an empty static graph has no maximum id

---
 src/graph_impl/static_graph/graph.rs           | 2 +-
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index e5d817d..a9c05b1 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -576,7 +576,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        self.node_count().checked_sub(1).map(Id::new)
     }
 
     #[inline]
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 9100dea..338d1a7 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -258,7 +258,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        self.node_count().checked_sub(1).map(Id::new)
     }
 
     #[inline(always)]
-- 
2.43.0


From f8d15c48575150fd449dd752026c4873ac020fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 24/24] fix: count the self loops of undirected static graphs
 made without an edge count

---
 src/graph_impl/static_graph/graph.rs           | 4 ++--
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index a9c05b1..9c672a7 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -179,7 +179,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             if Ty::is_directed() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                StaticEdgeIndexIter::new(Box::new(&edges), false).count()
             }
         };
 
@@ -238,7 +238,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             if Ty::is_directed() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                StaticEdgeIndexIter::new(Box::new(&edges), false).count()
             }
         };
 
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 338d1a7..f9ef9f1 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -115,7 +115,7 @@ where
             let num_edge = if in_edges.is_some() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                StaticEdgeIndexIter::new(Box::new(&edges), false).count()
             };
 
             StaticGraphMmapAux::empty(num_node, num_edge)
-- 
2.43.0

