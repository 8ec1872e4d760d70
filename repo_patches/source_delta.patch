From fa66b69774e8968328642dd4c9629e9e2b2f36a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 01/12] fix: set_entry with a zero value overwrites an existing
 entry

---
 graphrox-rs/src/matrix/csr_adjacency_matrix.rs | 1 +
 graphrox-rs/src/matrix/csr_square_matrix.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
index 413e1bf..b010d80 100644
--- a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
@@ -273,6 +273,7 @@ impl MatrixRepresentation<u8> for CsrAdjacencyMatrix {
         }
 
         if entry == 0 {
+            self.zero_entry(col, row);
             return;
         }
 
diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index eafba5e..644c748 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -366,6 +366,7 @@ impl<T: Debug + Display + Numeric> MatrixRepresentation<T> for CsrSquareMatrix<T
         }
 
         if entry == T::zero() {
+            self.zero_entry(col, row);
             return;
         }
 
-- 
2.43.0


From 7c4500db95978fca0b550488d5c56c17ca8a2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 02/12] fix: reject compressed graph bytes with duplicate
 entries

---
 graphrox-rs/src/graph/compressed.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index 0690b0a..ac9be04 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -376,7 +376,15 @@ impl TryFrom<&[u8]> for CompressedGraph {
             )));
         }
 
-        unsafe { Ok(compressed_graph_builder.finish()) }
+        let compressed_graph = unsafe { compressed_graph_builder.finish() };
+
+        if compressed_graph.adjacency_matrix.entry_count() != adjacency_matrix_entry_count {
+            return Err(GraphRoxError::InvalidFormat(String::from(
+                "CompressedGraph contains duplicate entries",
+            )));
+        }
+
+        Ok(compressed_graph)
     }
 }
 
-- 
2.43.0


From 149d2e6337b0292488c26b893087938bc84a4aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 03/12] fix: reject undirected compressed graph bytes whose
 edges are not symmetric

---
 graphrox-rs/src/graph/compressed.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index ac9be04..e11c3d5 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -384,6 +384,24 @@ impl TryFrom<&[u8]> for CompressedGraph {
             )));
         }
 
+        if compressed_graph.is_undirected {
+            for (entry, col, row) in &compressed_graph.adjacency_matrix {
+                for bit in 0..64 {
+                    if ((entry >> bit) & 1) == 0 {
+                        continue;
+                    }
+
+                    let from = row * COMPRESSION_BLOCK_DIMENSION + bit / COMPRESSION_BLOCK_DIMENSION;
+                    let to = col * COMPRESSION_BLOCK_DIMENSION + bit % COMPRESSION_BLOCK_DIMENSION;
+                    if !compressed_graph.does_edge_exist(from, to) {
+                        return Err(GraphRoxError::InvalidFormat(String::from(
+                            "Undirected CompressedGraph edges are not symmetric",
+                        )));
+                    }
+                }
+            }
+        }
+
         Ok(compressed_graph)
     }
 }
-- 
2.43.0


From 8fe4da0506b94e327b4191353da33670e8b01faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 04/12] fix: average pooling no longer overflows for large
 block dimensions

---
 graphrox-rs/src/graph/standard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index cad6326..44319f3 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -467,7 +467,7 @@ impl StandardGraph {
             occurrence_matrix.increment_entry(occurrence_col, occurrence_row);
         }
 
-        let block_multiplier = 1.0 / (block_dimension * block_dimension) as f64;
+        let block_multiplier = 1.0 / (block_dimension as f64 * block_dimension as f64);
         let mut avg_pool_matrix = occurrence_matrix;
         avg_pool_matrix.set_minimum_dimension(blocks_per_row);
         avg_pool_matrix.multiply_entries_by(block_multiplier);
-- 
2.43.0


From fd9cc3314079f354298923ad5e187c8d4aaf4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 05/12] fix: compress applies the level to graphs with fewer
 than eight vertices

---
 graphrox-rs/src/graph/standard.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index 44319f3..2892747 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -626,7 +626,9 @@ impl StandardGraph {
 
         // Subract a very small number to ensure the floating-point imprecision errs on the
         // side of being slightly less than the 1/64 cut-off
-        let threshold = compression_level as f64 / 64.0 - 0.00001;
+        let block_dimension = COMPRESSION_BLOCK_DIMENSION.min(self.vertex_count());
+        let entries_per_block = (block_dimension * block_dimension) as f64;
+        let threshold = compression_level as f64 / entries_per_block - 0.00001;
 
         let mut builder =
             CompressedGraphBuilder::new(self.is_undirected, self.vertex_count(), compression_level);
-- 
2.43.0


From ab3b492f32a0e5bbdad64348cecdde2be15c8b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 06/12] fix: thresholds below 10^-18 are clamped as documented

---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index eaa82ac..d48d5cf 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -14,7 +14,7 @@ pub mod constants {
 pub fn clamp_threshold(threshold: f64) -> f64 {
     if threshold > 1.0 {
         1.0
-    } else if threshold <= 0.0 {
+    } else if threshold < constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
         constants::GRAPH_APPROXIMATION_MIN_THRESHOLD
     } else {
         threshold
-- 
2.43.0


From 82a296f77b315ca4e370354bd4dc312a1d44c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 07/12] fix: i128 matrices are formatted as integers

---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index d48d5cf..e998646 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -399,7 +399,7 @@ impl Numeric for i128 {
 
     #[inline(always)]
     fn has_decimal() -> bool {
-        true
+        false
     }
 
     #[inline(always)]
-- 
2.43.0


From ddc5a78809de79359530b2c388a51476daa51b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:58 +0000
Subject: [PATCH 08/12] fix: gphrx_matrix_to_string returns null instead of
 aborting when the text cannot be built

---
 graphrox-c/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/graphrox-c/src/lib.rs b/graphrox-c/src/lib.rs
index 982e01b..4717a54 100644
--- a/graphrox-c/src/lib.rs
+++ b/graphrox-c/src/lib.rs
@@ -735,9 +735,13 @@ pub unsafe extern "C" fn gphrx_matrix_to_string(matrix: GphrxCsrSquareMatrix) ->
     let Some(matrix) = matrix_ref(matrix) else {
         return ptr::null_mut();
     };
-    match ffi::CString::new(matrix.to_string()) {
-        Ok(s) => s.into_raw(),
-        Err(_) => ptr::null_mut(),
+    match matrix
+        .to_string_with_precision(2)
+        .ok()
+        .and_then(|s| ffi::CString::new(s).ok())
+    {
+        Some(s) => s.into_raw(),
+        None => ptr::null_mut(),
     }
 }
 
-- 
2.43.0


From 610f754f897baee6e87596dfa90ae556a4f45d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 09/12] fix: malformed graph bytes raise ValueError from Python

---
 graphrox-py/graphrox/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index c844f70..314840e 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -290,7 +290,7 @@ class Graph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                Graph.__name__() + ' could not be constructed from the provided bytes'
+                Graph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return Graph(_c_graph=c_graph)
@@ -605,7 +605,7 @@ class CompressedGraph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                CompressedGraph.__name__() + ' could not be constructed from the provided bytes'
+                CompressedGraph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return CompressedGraph(c_graph)
-- 
2.43.0


From 62c4d2c5ad6af76b074e39b8d0a8fc42252e6619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 10/12] fix: raise IndexError for a negative index into an
 empty list in Python

---
 graphrox-py/graphrox/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index 314840e..d93252e 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -478,6 +478,9 @@ class _GraphEdgeList:
         if idx >= self._size:
             raise IndexError('list index out of range')
 
+        if self._size == 0:
+            raise IndexError('list index out of range')
+
         if idx < 0:
             idx = self._size - max(abs(idx) % self._size, 1)
 
@@ -534,6 +537,9 @@ class _GraphVertexList:
         if idx >= self._size:
             raise IndexError('list index out of range')
 
+        if self._size == 0:
+            raise IndexError('list index out of range')
+
         if idx < 0:
             idx = self._size - max(abs(idx) % self._size, 1)
 
@@ -749,6 +755,9 @@ class _CsrSquareMatrixEntryList:
         if idx >= self._size:
             raise IndexError('list index out of range')
 
+        if self._size == 0:
+            raise IndexError('list index out of range')
+
         if idx < 0:
             idx = self._size - max(abs(idx) % self._size, 1)
 
-- 
2.43.0


From dae37fad6cd8a70765957e10ff4bad71daeb6540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 11/12] fix: make the Python list iterators iterable

---
 graphrox-py/graphrox/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index d93252e..fcbbd23 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -509,6 +509,9 @@ class _GraphEdgeListIterator:
         # iterator needs to access
         self._list_ref = list_ref
 
+    def __iter__(self):
+        return self
+
     def __next__(self):
         if self._pos == self._size:
             raise StopIteration
@@ -568,6 +571,9 @@ class _GraphVertexListIterator:
         # iterator needs to access
         self._list_ref = list_ref
 
+    def __iter__(self):
+        return self
+
     def __next__(self):
         if self._pos == self._size:
             raise StopIteration
@@ -786,6 +792,9 @@ class _CsrSquareMatrixEntryListIterator:
         # iterator needs to access
         self._list_ref = list_ref
 
+    def __iter__(self):
+        return self
+
     def __next__(self):
         if self._pos == self._size:
             raise StopIteration
-- 
2.43.0


From d118456a03c524de0293d119458e196e9209dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 12/12] fix: copy.copy of a Python wrapper no longer frees
 native memory twice

---
 graphrox-py/graphrox/__init__.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index fcbbd23..1a68101 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -269,6 +269,9 @@ class Graph:
     def __del__(self):
         _lib.free_gphrx_graph(self._graph)
 
+    def __copy__(self):
+        return self.duplicate()
+
     def __bytes__(self):
         size = ctypes.c_size_t()
         bytes_ptr = _lib.gphrx_to_bytes(self._graph, ctypes.byref(size))
@@ -474,6 +477,9 @@ class _GraphEdgeList:
     def __del__(self):
         _lib.free_gphrx_edge_list(self._ptr, self._size)
 
+    def __copy__(self):
+        return self
+
     def __getitem__(self, idx):
         if idx >= self._size:
             raise IndexError('list index out of range')
@@ -536,6 +542,9 @@ class _GraphVertexList:
     def __del__(self):
         _lib.free_gphrx_vertex_list(self._ptr, self._size)
 
+    def __copy__(self):
+        return self
+
     def __getitem__(self, idx):
         if idx >= self._size:
             raise IndexError('list index out of range')
@@ -596,6 +605,9 @@ class CompressedGraph:
     def __del__(self):
         _lib.free_gphrx_compressed_graph(self._graph)
 
+    def __copy__(self):
+        return self.duplicate()
+
     def __bytes__(self):
         size = ctypes.c_size_t()
         bytes_ptr = _lib.gphrx_compressed_graph_to_bytes(self._graph, ctypes.byref(size))
@@ -702,6 +714,9 @@ class CsrSquareMatrix:
     def __del__(self):
         _lib.free_gphrx_matrix(self._matrix)
 
+    def __copy__(self):
+        return self.duplicate()
+
     def __str__(self):
         return self.to_string()
 
@@ -757,6 +772,9 @@ class _CsrSquareMatrixEntryList:
     def __del__(self):
         _lib.free_gphrx_matrix_entry_list(self._ptr, self._size)
 
+    def __copy__(self):
+        return self
+
     def __getitem__(self, idx):
         if idx >= self._size:
             raise IndexError('list index out of range')
-- 
2.43.0

