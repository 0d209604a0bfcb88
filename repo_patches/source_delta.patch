From f36b68b10d4a75fbc95e4c089d7eb45fbc6c550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 01/12] fix: setting an existing matrix entry to zero clears it

set_entry() is documented to add or overwrite the entry, but a zero value
left an existing non-zero entry in place.
---
 graphrox-rs/src/matrix/csr_adjacency_matrix.rs | 1 +
 graphrox-rs/src/matrix/csr_square_matrix.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
index 413e1bf..b010d80 100644
--- a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
@@ -273,6 +273,7 @@ impl MatrixRepresentation<u8> for CsrAdjacencyMatrix {
         }
 
         if entry == 0 {
+            self.zero_entry(col, row);
             return;
         }
 
diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index eafba5e..644c748 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -366,6 +366,7 @@ impl<T: Debug + Display + Numeric> MatrixRepresentation<T> for CsrSquareMatrix<T
         }
 
         if entry == T::zero() {
+            self.zero_entry(col, row);
             return;
         }
 
-- 
2.43.0


From d8e1d7003c47b54667d99562347c9f96c3ba67ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 02/12] fix: an entry incremented to zero is no longer a
 non-zero entry

Incrementing -1 kept a stored zero that entry_count() and iteration
reported as a non-zero entry.
---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 644c748..6669aa8 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -99,9 +99,13 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             self.entry_count += 1;
         }
 
-        entry
+        let value = *entry
             .and_modify(|e| *e = e.add_one())
             .or_insert_with(T::one);
+
+        if value == T::zero() {
+            self.zero_entry(col, row);
+        }
     }
 
     #[inline]
-- 
2.43.0


From 1f89336969d640ed9ca49c8deb10b996262980c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 03/12] fix: i128 matrices have no decimals

CsrSquareMatrix<i128> was rendered as if its entries were floating point.
---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index eaa82ac..c36c21d 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -399,7 +399,7 @@ impl Numeric for i128 {
 
     #[inline(always)]
     fn has_decimal() -> bool {
-        true
+        false
     }
 
     #[inline(always)]
-- 
2.43.0


From 6d44c98a53bcf66aee4101b5664195c890a6be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 04/12] fix: clamp every threshold below 10^-18 to 10^-18

Only zero and negative thresholds were clamped, so a threshold between 0 and
10^-18 kept edges that a threshold of 0 dropped.
---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index c36c21d..e998646 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -14,7 +14,7 @@ pub mod constants {
 pub fn clamp_threshold(threshold: f64) -> f64 {
     if threshold > 1.0 {
         1.0
-    } else if threshold <= 0.0 {
+    } else if threshold < constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
         constants::GRAPH_APPROXIMATION_MIN_THRESHOLD
     } else {
         threshold
-- 
2.43.0


From 2f6c760fb460ae64ccd7ce67ea62c72bb12d641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 05/12] fix: average pooling with large or awkward block
 dimensions

The block area overflowed u64 from a block dimension of 2^32 on, and
multiplying by its rounded reciprocal gave a completely filled block (of
dimension 7, for one) an average slightly below 1.0.
---
 graphrox-rs/src/graph/standard.rs           | 4 ++--
 graphrox-rs/src/matrix/csr_square_matrix.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index cad6326..70abd83 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -467,10 +467,10 @@ impl StandardGraph {
             occurrence_matrix.increment_entry(occurrence_col, occurrence_row);
         }
 
-        let block_multiplier = 1.0 / (block_dimension * block_dimension) as f64;
+        let block_area = block_dimension as f64 * block_dimension as f64;
         let mut avg_pool_matrix = occurrence_matrix;
         avg_pool_matrix.set_minimum_dimension(blocks_per_row);
-        avg_pool_matrix.multiply_entries_by(block_multiplier);
+        avg_pool_matrix.divide_entries_by(block_area);
 
         avg_pool_matrix
     }
diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 6669aa8..8c2c7f4 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -323,10 +323,10 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
 
 impl CsrSquareMatrix<f64> {
     #[inline]
-    pub(crate) fn multiply_entries_by(&mut self, multiplier: f64) {
+    pub(crate) fn divide_entries_by(&mut self, divisor: f64) {
         for row_table in self.edges_table.values_mut() {
             for entry in row_table.values_mut() {
-                *entry *= multiplier;
+                *entry /= divisor;
             }
         }
     }
-- 
2.43.0


From 40bb5be8de6df02871f067651a074507d2c6ca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 06/12] fix: compression level of graphs with fewer than eight
 vertices

Their adjacency matrix is pooled in a block smaller than 8x8, so blocks with
fewer ones than the compression level were kept.
---
 graphrox-rs/src/graph/standard.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index 70abd83..7bd44ca 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -625,8 +625,11 @@ impl StandardGraph {
         let compression_level = util::clamp_compression_level(compression_level);
 
         // Subract a very small number to ensure the floating-point imprecision errs on the
-        // side of being slightly less than the 1/64 cut-off
-        let threshold = compression_level as f64 / 64.0 - 0.00001;
+        // side of being slightly less than the 1/64 cut-off. The average is taken over a
+        // smaller block if the graph has fewer vertices than a block.
+        let pool_dimension = COMPRESSION_BLOCK_DIMENSION.min(self.vertex_count());
+        let pool_area = (pool_dimension * pool_dimension) as f64;
+        let threshold = compression_level as f64 / pool_area - 0.00001;
 
         let mut builder =
             CompressedGraphBuilder::new(self.is_undirected, self.vertex_count(), compression_level);
-- 
2.43.0


From 0af3a99b7adc0be7d85d55f5dcf086bb539f5c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 07/12] fix: width of the cells of a matrix string

The width was taken from the integral digits only: a sign in front of a zero,
a rounding carry, or a negative integer with decimals overflowed the cell, a
matrix whose entries had all been zeroed got cells as wide as the largest
number of its type, floats without decimals showed zeros as "0.", and values
beyond i128 or very large precisions panicked.
---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 82 ++++++---------------
 1 file changed, 23 insertions(+), 59 deletions(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 8c2c7f4..1181bbf 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -163,48 +163,33 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             return Ok(String::new());
         }
 
-        let mut highest = T::min();
-        let mut lowest = T::max();
-
-        let edge_table_values = self.edges_table.values();
-
-        if edge_table_values.len() == 0 {
-            highest = T::zero();
-        } else {
-            for row_table in edge_table_values {
-                for val in row_table.values() {
-                    if val.gt(&highest) {
-                        highest = *val;
-                    }
-
-                    if val.lt(&lowest) {
-                        lowest = *val;
-                    }
-                }
+        // No entry has more than 1074 significant decimal digits; the rest are zeros
+        let shown_digits = decimal_digits.min(1074);
+        let format_entry = |value: T| {
+            if T::has_decimal() || shown_digits == 0 {
+                format!("{value:.shown_digits$}")
+            } else {
+                format!("{value}.{:0>shown_digits$}", "")
             }
-        }
-
-        let highest_integral_count = highest.integral_digit_count();
-        let lowest_integral_count = lowest.integral_digit_count();
-        let mut entry_size = if highest_integral_count > lowest_integral_count {
-            highest_integral_count
-        } else {
-            lowest_integral_count
         };
 
-        if T::has_decimal() || decimal_digits > 0 {
-            entry_size += 1 + decimal_digits;
+        let smallest_entry_chars = format_entry(T::zero()).len();
+        let mut longest_entry_chars = smallest_entry_chars;
+
+        for row_table in self.edges_table.values() {
+            for val in row_table.values() {
+                longest_entry_chars = longest_entry_chars.max(format_entry(*val).len());
+            }
         }
 
-        // One for the digit in front of the decimal
-        let smallest_entry_chars = 1 + if T::has_decimal() || decimal_digits > 0 {
-            // One for the decimal, one for each decimal digit
-            1 + decimal_digits
-        } else {
-            0
-        };
+        let entry_left_padding = longest_entry_chars - smallest_entry_chars;
 
-        let entry_left_padding = entry_size - smallest_entry_chars;
+        let entry_size = longest_entry_chars
+            .checked_add(decimal_digits - shown_digits)
+            .filter(|size| size.checked_add(2).is_some())
+            .ok_or_else(|| {
+                GraphRoxError::CapacityOverflow(String::from("Matrix string size overflowed"))
+            })?;
         let chars_per_entry = entry_size + 2;
 
         let dimension = usize::try_from(self.dimension).map_err(|_| {
@@ -283,29 +268,8 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
                     + EXTRA_CHARS_PER_ROW_AT_FRONT
                     + chars_per_entry * *col as usize;
 
-                let num = if !T::has_decimal() && decimal_digits > 0 {
-                    let width = if lowest.lt(&T::zero()) {
-                        highest.integral_digit_count() + 1
-                    } else {
-                        highest.integral_digit_count()
-                    };
-
-                    let mut temp = format!("{number: >width$}.", number = value, width = width,);
-
-                    for _ in 0..decimal_digits {
-                        temp.push('0');
-                    }
-
-                    temp
-                } else {
-                    format!(
-                        "{number: >width$.decimals$}",
-                        number = value,
-                        width = entry_size,
-                        decimals = decimal_digits
-                    )
-                };
-
+                let num = format_entry(*value);
+                let num = format!("{num: >longest_entry_chars$}");
                 let num = num.as_bytes();
 
                 for b in num {
-- 
2.43.0


From 0c96cc8eab16b5a817c968c4508693d27cbfeb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 08/12] fix: reject duplicate entries in CompressedGraph bytes

The later entry silently replaced the earlier one, leaving a graph whose edge
count did not match its edges and whose own bytes could not be read back.
---
 graphrox-rs/src/graph/compressed.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index 0690b0a..ac9be04 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -376,7 +376,15 @@ impl TryFrom<&[u8]> for CompressedGraph {
             )));
         }
 
-        unsafe { Ok(compressed_graph_builder.finish()) }
+        let compressed_graph = unsafe { compressed_graph_builder.finish() };
+
+        if compressed_graph.adjacency_matrix.entry_count() != adjacency_matrix_entry_count {
+            return Err(GraphRoxError::InvalidFormat(String::from(
+                "CompressedGraph contains duplicate entries",
+            )));
+        }
+
+        Ok(compressed_graph)
     }
 }
 
-- 
2.43.0


From e75a5cb38eb44f1ae4af5a0344b0d9c13f059636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 09/12] fix: reject asymmetric CompressedGraph bytes flagged as
 undirected

Reading them gave an undirected graph with edges in one direction only, which
gained edges when it was decompressed. Graph bytes are already rejected.
---
 graphrox-rs/src/graph/compressed.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index ac9be04..342f6a0 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -384,6 +384,17 @@ impl TryFrom<&[u8]> for CompressedGraph {
             )));
         }
 
+        if compressed_graph.is_undirected {
+            for (entry, col, row) in &compressed_graph.adjacency_matrix {
+                let mirrored = compressed_graph.adjacency_matrix.get_entry(row, col);
+                if mirrored != transpose_compressed_entry(entry) {
+                    return Err(GraphRoxError::InvalidFormat(String::from(
+                        "CompressedGraph entries do not represent an undirected graph",
+                    )));
+                }
+            }
+        }
+
         Ok(compressed_graph)
     }
 }
@@ -649,6 +660,16 @@ impl CompressedGraphBuilder {
     }
 }
 
+fn transpose_compressed_entry(entry: u64) -> u64 {
+    let mut transposed = 0;
+    for bit in 0..64 {
+        let col = bit % COMPRESSION_BLOCK_DIMENSION;
+        let row = bit / COMPRESSION_BLOCK_DIMENSION;
+        transposed |= ((entry >> bit) & 1) << (COMPRESSION_BLOCK_DIMENSION * col + row);
+    }
+    transposed
+}
+
 #[inline]
 fn find_hamming_weight(num: u64) -> u64 {
     u64::from(num.count_ones())
-- 
2.43.0


From 94ed5fe1d5807f14378c71db69282bf5a32f73ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 10/12] fix: gphrx_matrix_to_string returns NULL for a matrix
 too large to print

to_string() panics on a formatting error, which aborts the process;
gphrx_matrix_to_string_with_precision already returned NULL.
---
 graphrox-c/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/graphrox-c/src/lib.rs b/graphrox-c/src/lib.rs
index 982e01b..4717a54 100644
--- a/graphrox-c/src/lib.rs
+++ b/graphrox-c/src/lib.rs
@@ -735,9 +735,13 @@ pub unsafe extern "C" fn gphrx_matrix_to_string(matrix: GphrxCsrSquareMatrix) ->
     let Some(matrix) = matrix_ref(matrix) else {
         return ptr::null_mut();
     };
-    match ffi::CString::new(matrix.to_string()) {
-        Ok(s) => s.into_raw(),
-        Err(_) => ptr::null_mut(),
+    match matrix
+        .to_string_with_precision(2)
+        .ok()
+        .and_then(|s| ffi::CString::new(s).ok())
+    {
+        Some(s) => s.into_raw(),
+        None => ptr::null_mut(),
     }
 }
 
-- 
2.43.0


From a64efde001ac4e9eea215ea8b2d7e5d01dcb4eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 11/12] fix: from_bytes raises ValueError in the Python
 bindings

__name__ is a str; calling it raised TypeError in place of the ValueError.
---
 graphrox-py/graphrox/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index c844f70..314840e 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -290,7 +290,7 @@ class Graph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                Graph.__name__() + ' could not be constructed from the provided bytes'
+                Graph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return Graph(_c_graph=c_graph)
@@ -605,7 +605,7 @@ class CompressedGraph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                CompressedGraph.__name__() + ' could not be constructed from the provided bytes'
+                CompressedGraph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return CompressedGraph(c_graph)
-- 
2.43.0


From a97d2950d06db777786f4b7e2a4d7e8bb731f96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 12/12] fix: negative index into an empty list raises
 IndexError

The Python list wrappers raised ZeroDivisionError.
---
 graphrox-py/graphrox/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index 314840e..b8996e3 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -475,7 +475,7 @@ class _GraphEdgeList:
         _lib.free_gphrx_edge_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
 
         if idx < 0:
@@ -531,7 +531,7 @@ class _GraphVertexList:
         _lib.free_gphrx_vertex_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
 
         if idx < 0:
@@ -746,7 +746,7 @@ class _CsrSquareMatrixEntryList:
         _lib.free_gphrx_matrix_entry_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
 
         if idx < 0:
-- 
2.43.0

