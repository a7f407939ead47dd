From 8fc6f48aa78019f1a538c7e9e55a11dcb3c69bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 01/22] fix: undo_tiling returns the untiled matrix and
 iterates tiles of its own dimension

---
 src/memory_layout/tile_array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memory_layout/tile_array.hpp b/src/memory_layout/tile_array.hpp
index a1a8657..4af9144 100644
--- a/src/memory_layout/tile_array.hpp
+++ b/src/memory_layout/tile_array.hpp
@@ -214,7 +214,7 @@ std::vector<T, U> undo_tiling(std::vector<T, U> &tiled,
     untiled_strides[d] = tiling_info[d].stride;
   }
 
-  memory_layout::iterate_tiles<2>(
+  memory_layout::iterate_tiles<dim>(
       tiled, tiling_info, [&untiled, &untiled_strides, &tiling_info, &min, &max,
                            &strides](auto view) {
         std::array<size_t, dim> &tile_index = view.get_tile_index();
@@ -238,5 +238,7 @@ std::vector<T, U> undo_tiling(std::vector<T, U> &tiled,
             });
 
       });
+
+  return untiled;
 }
 }
-- 
2.43.0


From c8698ccd7aad9cf9efd71615737dad0ff8863505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 02/22] fix: flat_index multiplies the strides from the
 innermost dimension outwards

---
 src/memory_layout/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory_layout/util.hpp b/src/memory_layout/util.hpp
index d3915b2..1edfc72 100644
--- a/src/memory_layout/util.hpp
+++ b/src/memory_layout/util.hpp
@@ -7,7 +7,7 @@ size_t flat_index(const size_t (&index)[dim], const size_t (&strides)[dim]) {
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
@@ -19,7 +19,7 @@ size_t flat_index(const std::array<size_t, dim> &index,
   size_t cur_stride = 1;
   for (size_t d = 0; d < dim; d++) {
     flat_index += index[(dim - 1) - d] * cur_stride;
-    cur_stride *= strides[d];
+    cur_stride *= strides[(dim - 1) - d];
   }
   return flat_index;
 }
-- 
2.43.0


From c705c36cc9615cf044c616624ba293019a86c08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 03/22] fix: tile views and tile iteration work for dimensions
 other than two

---
 src/memory_layout/tile_iterator.hpp | 2 +-
 src/memory_layout/tile_view.hpp     | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/memory_layout/tile_iterator.hpp b/src/memory_layout/tile_iterator.hpp
index 2b485bc..04115c0 100644
--- a/src/memory_layout/tile_iterator.hpp
+++ b/src/memory_layout/tile_iterator.hpp
@@ -20,7 +20,7 @@ iterate_tile_dim(std::vector<T, U> &tiled,
                  const std::vector<tiling_info_dim> &tiling_info,
                  size_t (&tile_index)[dim], F f) {
 
-  memory_layout::tile_view<2, T, U> v(tiled, tile_index, tiling_info);
+  memory_layout::tile_view<dim, T, U> v(tiled, tile_index, tiling_info);
   f(std::move(v));
 }
 
diff --git a/src/memory_layout/tile_view.hpp b/src/memory_layout/tile_view.hpp
index ecbe28b..a993e5a 100644
--- a/src/memory_layout/tile_view.hpp
+++ b/src/memory_layout/tile_view.hpp
@@ -22,10 +22,8 @@ public:
             std::vector<tiling_info_dim> tiling_info)
       : tiled(tiled), tiling_info(tiling_info) {
 
-    this->tile_index[0] = tile_index[0];
-    this->tile_index[1] = tile_index[1];
-
     for (size_t d = 0; d < dim; d++) {
+      this->tile_index[d] = tile_index[d];
       this->tiles_dir[d] = tiling_info[d].stride / tiling_info[d].tile_size_dir;
     }
 
-- 
2.43.0


From 2317b170cc6d4b3e347bb175bae1da9d6a4e2d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 04/22] fix: exception messages outlive the call to what()

---
 src/memory_layout/memory_layout_exception.hpp | 4 ++--
 src/util/matrix_multiplication_exception.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/memory_layout/memory_layout_exception.hpp b/src/memory_layout/memory_layout_exception.hpp
index b127054..d2b6c85 100644
--- a/src/memory_layout/memory_layout_exception.hpp
+++ b/src/memory_layout/memory_layout_exception.hpp
@@ -7,11 +7,11 @@ class memory_layout_exception: public std::exception {
 private:
   std::string message;
 public:
-  memory_layout_exception(const std::string &message): message(message) {
+  memory_layout_exception(const std::string &message): message(std::string("memory_layout_exception: ") + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("memory_layout_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
diff --git a/src/util/matrix_multiplication_exception.hpp b/src/util/matrix_multiplication_exception.hpp
index b58f3aa..a221bc1 100644
--- a/src/util/matrix_multiplication_exception.hpp
+++ b/src/util/matrix_multiplication_exception.hpp
@@ -7,11 +7,11 @@ class matrix_multiplication_exception: public std::exception {
 private:
   std::string message;
 public:
-  matrix_multiplication_exception(const std::string &message): message(message) {
+  matrix_multiplication_exception(const std::string &message): message(std::string("matrix_multiplication_exception: ") + message) {
   }
 
   virtual const char* what() const throw() {
-    return (std::string("matrix_multiplication_exception: ") + message).c_str();
+    return message.c_str();
   }
 };
 
-- 
2.43.0


From 4bf2bafe45ac450b8d3d5aa051654ccc29c4f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:21 +0000
Subject: [PATCH 05/22] fix: combined starts every repetition from a zeroed
 result

---
 src/variants/combined.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index 406cc65..dd542eb 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -174,6 +174,9 @@ std::vector<double> combined::matrix_multiply(double &duration) {
 
   for (size_t rep = 0; rep < repetitions; rep++) {
 
+    // the kernel accumulates, every repetition has to start from zero
+    std::fill(C_padded.begin(), C_padded.end(), 0.0);
+
     blocking_pseudo_execution_policy<size_t> policy(3);
     // specify with ascending cache level
     policy.set_final_steps({L1_X, L1_Y, L1_K_STEP});
-- 
2.43.0


From e6894b6250c0e19dfda663580872562a8ea60f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:21 +0000
Subject: [PATCH 06/22] fix: combined no longer writes an unused shared flag
 from its parallel tasks

---
 src/variants/combined.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index dd542eb..ba1ac62 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -187,10 +187,8 @@ std::vector<double> combined::matrix_multiply(double &duration) {
     std::chrono::high_resolution_clock::time_point start =
         std::chrono::high_resolution_clock::now();
 
-    bool first = true;
-
     iterate_indices<3>(
-        policy, min, max, [&first, &C_padded, &A_trans, &B_padded,
+        policy, min, max, [&C_padded, &A_trans, &B_padded,
                            this](size_t l1_x, size_t l1_y, size_t l1_k) {
           size_t l1_block_x = l1_x / L1_X;
           size_t l1_block_y = l1_y / L1_Y;
@@ -322,10 +320,6 @@ std::vector<double> combined::matrix_multiply(double &duration) {
             }
           }
 
-          if (first) {
-            first = false;
-          }
-
         });
     std::chrono::high_resolution_clock::time_point end =
         std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 67b5aa2af8efb107c286612595cacefebe5cb2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:30 +0000
Subject: [PATCH 07/22] fix: multiplier only uses the blocked kernel for
 complete blocks

---
 src/variants/components/multiplier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variants/components/multiplier.cpp b/src/variants/components/multiplier.cpp
index 22acdd3..a346eee 100644
--- a/src/variants/components/multiplier.cpp
+++ b/src/variants/components/multiplier.cpp
@@ -23,8 +23,8 @@ std::vector<double> multiplier::calculate_submatrix(std::uint64_t x,
   if (!transposed) {
     kernel::kernel(A, B, C, N, x, y, block_result);
   } else {
-    // no blocking?
-    if (block_input == 0 || block_result < 4) {
+    // no blocking? (the blocked kernel only processes complete blocks)
+    if (block_input == 0 || N % block_input != 0 || block_result % 4 != 0) {
       kernel::kernel_transposed(A, B, C, N, x, y, block_result);
     } else {
       kernel::kernel_transposed_blocked(A, B, C, N, x, y, block_result,
-- 
2.43.0


From 432adf118c80a446414b6f90526dcb104e894d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:30 +0000
Subject: [PATCH 08/22] fix: recursive distribution does not lose rows and
 columns of odd-sized blocks

---
 src/variants/components/recursive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/components/recursive.cpp b/src/variants/components/recursive.cpp
index a0c132b..6f047ea 100644
--- a/src/variants/components/recursive.cpp
+++ b/src/variants/components/recursive.cpp
@@ -43,7 +43,8 @@ std::vector<double> recursive::distribute_recursively(std::uint64_t x,
               << " blockSize: " << blockSize << std::endl
               << hpx::flush;
   }
-  if (blockSize <= block_result) {
+  // a block of odd size cannot be divided into four equal blocks
+  if (block_result == 0 || blockSize <= block_result || blockSize % 2 != 0) {
     uint32_t comp_locality = hpx::get_locality_id();
     hpx::components::client<multiplier> multiplier;
     multiplier.connect_to("/multiplier#" + std::to_string(comp_locality));
-- 
2.43.0


From e958787b62e758fe11f62dbd2dcf5c5002df6327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:30 +0000
Subject: [PATCH 09/22] fix: schedule does not lose rows and columns of
 odd-sized work packages

---
 src/variants/static_improved.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variants/static_improved.cpp b/src/variants/static_improved.cpp
index 0647398..ab0ea54 100644
--- a/src/variants/static_improved.cpp
+++ b/src/variants/static_improved.cpp
@@ -132,7 +132,8 @@ static_improved::create_schedule(size_t num_localities) {
       uint64_t smallest_work_difference = max_work - min_work;
       for (size_t j = 0; j < all_work[max_index].size(); j++) {
         matrix_multiply_work &w = all_work[max_index][j];
-        if (w.N <= this->min_work_size) {
+        // only even-sized packages can be divided into four equal packages
+        if (w.N <= this->min_work_size || w.N % 2 != 0) {
           continue;
         }
         // split work package between both locations
-- 
2.43.0


From 576515acf61ff7cf16d0b9f86e39868cdc5bb618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:30 +0000
Subject: [PATCH 10/22] fix: algorithms stays inside the matrices if N is no
 multiple of the block sizes

---
 src/variants/algorithms.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/variants/algorithms.hpp b/src/variants/algorithms.hpp
index 30f74e3..85d62b0 100644
--- a/src/variants/algorithms.hpp
+++ b/src/variants/algorithms.hpp
@@ -4,6 +4,7 @@
 #include "hpx/parallel/algorithms/for_loop.hpp"
 #include "hpx/parallel/execution_policy.hpp"
 #include "hpx/util/iterator_facade.hpp"
+#include <algorithm>
 #include <boost/iterator/iterator_facade.hpp>
 #include <numeric>
 
@@ -172,6 +173,10 @@ public:
           size_t outer_x = block_x * block_result;
           size_t outer_y = block_y * block_result;
 
+          // blocks at the border of the matrix can be incomplete
+          size_t x_count = std::min<size_t>(block_result, N - outer_x);
+          size_t y_count = std::min<size_t>(block_result, N - outer_y);
+
           // use small intermediate matrices to reduce conflict misses
           std::vector<double> C_inner(block_result * block_result);
           std::fill(C_inner.begin(), C_inner.end(), 0.0);
@@ -189,18 +194,19 @@ public:
             // also multiples of 128)
             //                        size_t k_input_end = std::min(k_block +
             //                        block_input, N);
+            size_t k_count = std::min<size_t>(block_input, N - k_block);
 
             // move input matrix into cache (and suppress conflict misses)
-            for (size_t x = 0; x < block_result; x++) {
-              for (size_t k = 0; k < block_input; k++) {
+            for (size_t x = 0; x < x_count; x++) {
+              for (size_t k = 0; k < k_count; k++) {
                 A_small[x * block_input + k] =
                     A[(outer_x + x) * N + k_block + k];
               }
             }
 
             // move input matrix into cache (and suppress conflict misses)
-            for (size_t y = 0; y < block_result; y++) {
-              for (size_t k = 0; k < block_input; k++) {
+            for (size_t y = 0; y < y_count; y++) {
+              for (size_t k = 0; k < k_count; k++) {
                 B_small[y * block_input + k] =
                     B[(outer_y + y) * N + k_block + k];
               }
@@ -212,7 +218,7 @@ public:
                 hpx::parallel::seq,
                 index_iterator<double>(C_inner, block_result),
                 block_result * block_result,
-                [this, &A_small, &B_small](
+                [this, k_count, &A_small, &B_small](
                     std::tuple<size_t, size_t, std::reference_wrapper<double>>
                         t) {
                   size_t x = std::get<0>(t);
@@ -220,8 +226,7 @@ public:
                   double &value = std::get<2>(t);
 
                   auto A_submatrix_begin = A_small.begin() + x * block_input;
-                  auto A_submatrix_end =
-                      A_small.begin() + (x + 1) * block_input;
+                  auto A_submatrix_end = A_submatrix_begin + k_count;
                   // assumes transposed input matrix
                   auto B_submatrix_begin = B_small.begin() + y * block_input;
 
@@ -234,8 +239,8 @@ public:
 
           // write (small) block result matrix back into (big) overall result
           // matrix
-          for (size_t x = 0; x < block_result; x++) {
-            for (size_t y = 0; y < block_result; y++) {
+          for (size_t x = 0; x < x_count; x++) {
+            for (size_t y = 0; y < y_count; y++) {
               C[(outer_x + x) * N + (outer_y + y)] =
                   C_inner[x * block_result + y];
             }
-- 
2.43.0


From 37ea2839bf33805df272d02f0ad98c0f558a2d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:30 +0000
Subject: [PATCH 11/22] fix: looped processes the incomplete blocks at the
 border of the matrix

---
 src/variants/looped.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/variants/looped.hpp b/src/variants/looped.hpp
index da42282..95f1988 100644
--- a/src/variants/looped.hpp
+++ b/src/variants/looped.hpp
@@ -4,6 +4,7 @@
 #include "hpx/parallel/algorithms/for_loop.hpp"
 #include "hpx/parallel/execution_policy.hpp"
 #include "hpx/util/iterator_facade.hpp"
+#include <algorithm>
 #include <boost/iterator/iterator_facade.hpp>
 
 namespace looped {
@@ -161,7 +162,8 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
 
   size_t inner_index_count = 1;
   for (size_t d = 0; d < dim; d++) {
-    inner_index_count *= (max[d] - min[d]) / block[d];
+    // round up, the last block can be incomplete
+    inner_index_count *= (max[d] - min[d] + block[d] - 1) / block[d];
   }
 
   //    hpx::cout << "inner_index_count: " << inner_index_count << std::endl
@@ -202,7 +204,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
     // hpx::cout << "recursive blocking step" << std::endl << hpx::flush;
     hpx::parallel::for_each_n(
         hpx::parallel::seq, dim_iter, inner_index_count,
-        [dim, policy, &block, f](const std::vector<size_t> &cur_index) {
+        [dim, policy, &block, &max, f](const std::vector<size_t> &cur_index) {
           //                    hpx::cout << "block index ";
           //                    for (size_t d = 0; d < dim; d++) {
           //                        if (d > 0) {
@@ -219,7 +221,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
           }
           std::vector<T> recursive_max(dim);
           for (size_t d = 0; d < dim; d++) {
-            recursive_max[d] = cur_index[d] + block[d];
+            recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
           }
           // do recursive blocking
           iterate_indices(policy, recursive_min, recursive_max, f);
-- 
2.43.0


From 7a4c24690d34abd1985b961c6b02cc9a3b894aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:14 +0000
Subject: [PATCH 12/22] fix: blocked index iteration stays inside the iteration
 range

---
 src/memory_layout/index_iterator.hpp | 6 ++++--
 src/variants/index_iterator.hpp      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/memory_layout/index_iterator.hpp b/src/memory_layout/index_iterator.hpp
index 96ac854..d3698b5 100644
--- a/src/memory_layout/index_iterator.hpp
+++ b/src/memory_layout/index_iterator.hpp
@@ -10,7 +10,9 @@
 #include "hpx/parallel/algorithms/for_each.hpp"
 #include "hpx/parallel/algorithms/for_loop.hpp"
 #include "hpx/parallel/execution_policy.hpp"
+#include <algorithm>
 #include <boost/iterator/iterator_facade.hpp>
+#include <cmath>
 #include "hpx/util/iterator_facade.hpp"
 #include <hpx/include/iostreams.hpp>
 
@@ -315,14 +317,14 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
 
           hpx::parallel::for_each_n(hpx::parallel::seq, dim_iter_serial_fill,
               inner_index_count_remain,
-              [&policy, &block, f, &recursive_min, &recursive_max](const std::vector<size_t> &cur_index) {
+              [&policy, &max, &block, f, &recursive_min, &recursive_max](const std::vector<size_t> &cur_index) {
                 // iterate within block
                 for (size_t d = 0; d < dim; d++) {
                   recursive_min[d] = cur_index[d];
                 }
 
                 for (size_t d = 0; d < dim; d++) {
-                  recursive_max[d] = cur_index[d] + block[d];
+                  recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
                 }
 
 //                                hpx::cout << "recursive_min: ";
diff --git a/src/variants/index_iterator.hpp b/src/variants/index_iterator.hpp
index 9b493f8..084cf9c 100644
--- a/src/variants/index_iterator.hpp
+++ b/src/variants/index_iterator.hpp
@@ -4,7 +4,9 @@
 #include "hpx/parallel/algorithms/for_loop.hpp"
 #include "hpx/parallel/execution_policy.hpp"
 #include "hpx/util/iterator_facade.hpp"
+#include <algorithm>
 #include <boost/iterator/iterator_facade.hpp>
+#include <cmath>
 #include <hpx/include/iostreams.hpp>
 
 namespace index_iterator {
@@ -318,7 +320,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
           hpx::parallel::for_each_n(
               hpx::parallel::seq, dim_iter_serial_fill,
               inner_index_count_remain,
-              [&policy, &block, f, &recursive_min,
+              [&policy, &max, &block, f, &recursive_min,
                &recursive_max](const std::vector<size_t> &cur_index) {
                 // iterate within block
                 for (size_t d = 0; d < dim; d++) {
@@ -326,7 +328,7 @@ void iterate_indices(blocking_pseudo_execution_policy<T> policy,
                 }
 
                 for (size_t d = 0; d < dim; d++) {
-                  recursive_max[d] = cur_index[d] + block[d];
+                  recursive_max[d] = std::min(cur_index[d] + block[d], max[d]);
                 }
 
                 //                                hpx::cout << "recursive_min:
-- 
2.43.0


From 5c5c677746bf5c18b5faf0640d9f33141c979e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:14 +0000
Subject: [PATCH 13/22] fix: semi stays inside the matrices if N is no multiple
 of the kernel's block sizes

---
 src/variants/semi.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/variants/semi.cpp b/src/variants/semi.cpp
index 1125f1a..d99f6fc 100644
--- a/src/variants/semi.cpp
+++ b/src/variants/semi.cpp
@@ -28,7 +28,11 @@ std::vector<double> semi::matrix_multiply() {
   // N_fixed = N + 4 -> bit better, for unknown reasons,
   // Same for N + 8, little bit better for N + 16, N + 32 even better, N + 64
   // same performance
-  size_t N_fixed = N;
+
+  // the kernel only processes complete blocks, pad with zeros up to full blocks
+  size_t N_result = ((N + 3) / 4) * 4;
+  size_t N_input = ((N + block_input - 1) / block_input) * block_input;
+  size_t N_fixed = std::max(N_result, N_input);
 
   std::vector<double> A_conflict(N_fixed * N_fixed);
   std::vector<double> B_conflict(N_fixed * N_fixed);
@@ -51,7 +55,7 @@ std::vector<double> semi::matrix_multiply() {
   std::fill(C_conflict.begin(), C_conflict.end(), 0.0);
 
   std::vector<size_t> min = {0, 0, 0};
-  std::vector<size_t> max = {N, N, N};
+  std::vector<size_t> max = {N_result, N_result, N_input};
   // std::vector<size_t> block = {block_result, block_result, block_input};
 
   // blocking_pseudo_execution_policy<size_t> policy(3);
-- 
2.43.0


From 47fe0f730455f4b94a00ec7aed95dab65a4333b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:14 +0000
Subject: [PATCH 14/22] fix: kernel_test stays inside the matrices if N is no
 multiple of the block sizes

---
 src/reference_kernels/kernel_test.cpp | 77 ++++++++++++++-------------
 1 file changed, 40 insertions(+), 37 deletions(-)

diff --git a/src/reference_kernels/kernel_test.cpp b/src/reference_kernels/kernel_test.cpp
index a35ab96..dfaed67 100644
--- a/src/reference_kernels/kernel_test.cpp
+++ b/src/reference_kernels/kernel_test.cpp
@@ -25,31 +25,34 @@ kernel_test::kernel_test(size_t N, std::vector<double> &A,
 
 std::vector<double> kernel_test::matrix_multiply() {
 
+  // only complete L3 blocks are processed, pad with zeros up to full blocks
+  size_t N_blocked = ((N + L3_K_STEP - 1) / L3_K_STEP) * L3_K_STEP;
+
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> C_padded(
-      (N + PADDING) * (N + PADDING));
+      (N_blocked + PADDING) * (N_blocked + PADDING));
 
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> A_padded(
-      (N + PADDING) * (N + PADDING));
+      (N_blocked + PADDING) * (N_blocked + PADDING));
   for (size_t i = 0; i < N; i++) {
     for (size_t j = 0; j < N; j++) {
-      A_padded[i * (N + PADDING) + j] = A[i * N + j];
+      A_padded[i * (N_blocked + PADDING) + j] = A[i * N + j];
     }
   }
 
   // is also padded if padding is enabled
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> A_trans(
-      (N + PADDING) * (N + PADDING));
+      (N_blocked + PADDING) * (N_blocked + PADDING));
   for (size_t i = 0; i < N; i++) {
     for (size_t j = 0; j < N; j++) {
-      A_trans[i * (N + PADDING) + j] = A[j * N + i];
+      A_trans[i * (N_blocked + PADDING) + j] = A[j * N + i];
     }
   }
 
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> B_padded(
-      (N + PADDING) * (N + PADDING));
+      (N_blocked + PADDING) * (N_blocked + PADDING));
   for (size_t i = 0; i < N; i++) {
     for (size_t j = 0; j < N; j++) {
-      B_padded[i * (N + PADDING) + j] = B[i * N + j];
+      B_padded[i * (N_blocked + PADDING) + j] = B[i * N + j];
     }
   }
 
@@ -93,21 +96,21 @@ std::vector<double> kernel_test::matrix_multiply() {
                           double_v acc_52 = 0.0;
 
                           double_v b_temp_1 =
-                              double_v(&B_padded[l1_k * (N + PADDING) + y],
+                              double_v(&B_padded[l1_k * (N_blocked + PADDING) + y],
                                        Vc::flags::vector_aligned);
                           double_v b_temp_2 = double_v(
-                              &B_padded[l1_k * (N + PADDING) + (y + 4)],
+                              &B_padded[l1_k * (N_blocked + PADDING) + (y + 4)],
                               Vc::flags::vector_aligned);
 
                           for (size_t k_inner = l1_k;
                                k_inner < l1_k + L1_K_STEP; k_inner += 1) {
 
                             double_v a_temp_1 =
-                                A_trans[k_inner * (N + PADDING) + (x + 0)];
+                                A_trans[k_inner * (N_blocked + PADDING) + (x + 0)];
                             double_v a_temp_2 =
-                                A_trans[k_inner * (N + PADDING) + (x + 1)];
+                                A_trans[k_inner * (N_blocked + PADDING) + (x + 1)];
                             double_v a_temp_3 =
-                                A_trans[k_inner * (N + PADDING) + (x + 2)];
+                                A_trans[k_inner * (N_blocked + PADDING) + (x + 2)];
 
                             acc_11 += a_temp_1 * b_temp_1;
                             acc_21 += a_temp_2 * b_temp_1;
@@ -116,16 +119,16 @@ std::vector<double> kernel_test::matrix_multiply() {
                             acc_22 += a_temp_2 * b_temp_2;
 
                             double_v a_temp_4 =
-                                A_trans[k_inner * (N + PADDING) + (x + 3)];
+                                A_trans[k_inner * (N_blocked + PADDING) + (x + 3)];
                             double_v a_temp_5 =
-                                A_trans[k_inner * (N + PADDING) + (x + 4)];
+                                A_trans[k_inner * (N_blocked + PADDING) + (x + 4)];
 
                             acc_31 += a_temp_3 * b_temp_1;
                             acc_41 += a_temp_4 * b_temp_1;
                             acc_51 += a_temp_5 * b_temp_1;
 
                             b_temp_1 = double_v(
-                                &B_padded[(k_inner + 1) * (N + PADDING) + y],
+                                &B_padded[(k_inner + 1) * (N_blocked + PADDING) + y],
                                 Vc::flags::vector_aligned);
 
                             acc_42 += a_temp_4 * b_temp_2;
@@ -133,97 +136,97 @@ std::vector<double> kernel_test::matrix_multiply() {
                             acc_32 += a_temp_3 * b_temp_2;
 
                             b_temp_2 = double_v(
-                                &B_padded[(k_inner + 1) * (N + PADDING) +
+                                &B_padded[(k_inner + 1) * (N_blocked + PADDING) +
                                           (y + 4)],
                                 Vc::flags::vector_aligned);
                           }
 
                           double_v res_11 =
-                              double_v(&C_padded[(x + 0) * (N + PADDING) + y],
+                              double_v(&C_padded[(x + 0) * (N_blocked + PADDING) + y],
                                        Vc::flags::element_aligned);
                           res_11 += acc_11;
                           res_11.memstore(
-                              &C_padded[(x + 0) * (N + PADDING) + y],
+                              &C_padded[(x + 0) * (N_blocked + PADDING) + y],
                               Vc::flags::element_aligned);
                           if (x + 1 < l1_x + L1_X) {
                             double_v res_21 =
-                                double_v(&C_padded[(x + 1) * (N + PADDING) + y],
+                                double_v(&C_padded[(x + 1) * (N_blocked + PADDING) + y],
                                          Vc::flags::element_aligned);
                             res_21 += acc_21;
                             res_21.memstore(
-                                &C_padded[(x + 1) * (N + PADDING) + y],
+                                &C_padded[(x + 1) * (N_blocked + PADDING) + y],
                                 Vc::flags::element_aligned);
                           }
                           if (x + 2 < l1_x + L1_X) {
                             double_v res_31 =
-                                double_v(&C_padded[(x + 2) * (N + PADDING) + y],
+                                double_v(&C_padded[(x + 2) * (N_blocked + PADDING) + y],
                                          Vc::flags::element_aligned);
                             res_31 += acc_31;
                             res_31.memstore(
-                                &C_padded[(x + 2) * (N + PADDING) + y],
+                                &C_padded[(x + 2) * (N_blocked + PADDING) + y],
                                 Vc::flags::element_aligned);
                           }
                           if (x + 3 < l1_x + L1_X) {
                             double_v res_41 =
-                                double_v(&C_padded[(x + 3) * (N + PADDING) + y],
+                                double_v(&C_padded[(x + 3) * (N_blocked + PADDING) + y],
                                          Vc::flags::element_aligned);
                             res_41 += acc_41;
                             res_41.memstore(
-                                &C_padded[(x + 3) * (N + PADDING) + y],
+                                &C_padded[(x + 3) * (N_blocked + PADDING) + y],
                                 Vc::flags::element_aligned);
                           }
 
                           if (x + 4 < l1_x + L1_X) {
                             double_v res_51 =
-                                double_v(&C_padded[(x + 4) * (N + PADDING) + y],
+                                double_v(&C_padded[(x + 4) * (N_blocked + PADDING) + y],
                                          Vc::flags::element_aligned);
                             res_51 += acc_51;
                             res_51.memstore(
-                                &C_padded[(x + 4) * (N + PADDING) + y],
+                                &C_padded[(x + 4) * (N_blocked + PADDING) + y],
                                 Vc::flags::element_aligned);
                           }
 
                           double_v res_12 = double_v(
-                              &C_padded[(x + 0) * (N + PADDING) + (y + 4)],
+                              &C_padded[(x + 0) * (N_blocked + PADDING) + (y + 4)],
                               Vc::flags::element_aligned);
                           res_12 += acc_12;
                           res_12.memstore(
-                              &C_padded[(x + 0) * (N + PADDING) + (y + 4)],
+                              &C_padded[(x + 0) * (N_blocked + PADDING) + (y + 4)],
                               Vc::flags::element_aligned);
                           if (x + 1 < l1_x + L1_X) {
                             double_v res_22 = double_v(
-                                &C_padded[(x + 1) * (N + PADDING) + (y + 4)],
+                                &C_padded[(x + 1) * (N_blocked + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                             res_22 += acc_22;
                             res_22.memstore(
-                                &C_padded[(x + 1) * (N + PADDING) + (y + 4)],
+                                &C_padded[(x + 1) * (N_blocked + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                           }
                           if (x + 2 < l1_x + L1_X) {
                             double_v res_32 = double_v(
-                                &C_padded[(x + 2) * (N + PADDING) + (y + 4)],
+                                &C_padded[(x + 2) * (N_blocked + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                             res_32 += acc_32;
                             res_32.memstore(
-                                &C_padded[(x + 2) * (N + PADDING) + (y + 4)],
+                                &C_padded[(x + 2) * (N_blocked + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                           }
                           if (x + 3 < l1_x + L1_X) {
                             double_v res_42 = double_v(
-                                &C_padded[(x + 3) * (N + PADDING) + (y + 4)],
+                                &C_padded[(x + 3) * (N_blocked + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                             res_42 += acc_42;
                             res_42.memstore(
-                                &C_padded[(x + 3) * (N + PADDING) + (y + 4)],
+                                &C_padded[(x + 3) * (N_blocked + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                           }
                           if (x + 4 < l1_x + L1_X) {
                             double_v res_52 = double_v(
-                                &C_padded[(x + 4) * (N + PADDING) + (y + 4)],
+                                &C_padded[(x + 4) * (N_blocked + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                             res_52 += acc_52;
                             res_52.memstore(
-                                &C_padded[(x + 4) * (N + PADDING) + (y + 4)],
+                                &C_padded[(x + 4) * (N_blocked + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                           }
                         }
@@ -244,7 +247,7 @@ std::vector<double> kernel_test::matrix_multiply() {
 
   for (size_t i = 0; i < N; i++) {
     for (size_t j = 0; j < N; j++) {
-      C[i * N + j] = C_padded[i * (N + PADDING) + j];
+      C[i * N + j] = C_padded[i * (N_blocked + PADDING) + j];
     }
   }
 
-- 
2.43.0


From 99f269017e8f12000398fa976719abbacb543a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:14 +0000
Subject: [PATCH 15/22] fix: print_matrix addresses non-square matrices by
 their number of columns

---
 src/util/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/util.hpp b/src/util/util.hpp
index a4f6583..887b415 100644
--- a/src/util/util.hpp
+++ b/src/util/util.hpp
@@ -71,7 +71,7 @@ template <typename T, typename Alloc> void print_matrix(size_t N, size_t M, std:
       if (j > 0) {
         hpx::cout << ", ";
       }
-      hpx::cout << m.at(i * N + j);
+      hpx::cout << m.at(i * M + j);
     }
     hpx::cout << std::endl << hpx::flush;
   }
-- 
2.43.0


From 0dd71c584a4f87138fb63496c1237e0930a40a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:14 +0000
Subject: [PATCH 16/22] fix: multBlocked4 accumulates all products

---
 otherExperiments/multBlocked.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/otherExperiments/multBlocked.cpp b/otherExperiments/multBlocked.cpp
index c87b701..d63c027 100644
--- a/otherExperiments/multBlocked.cpp
+++ b/otherExperiments/multBlocked.cpp
@@ -84,7 +84,7 @@ void multBlocked4(double *A, double *B, double *C, const uint32_t n) {
       //#pragma clang loop vectorize(enable)
 
       //REMARK: loop step != 1, loopd doesn't vectorize (gcc)
-      for (size_t k = 0; k < n; k += 4) {
+      for (size_t k = 0; k < n; k++) {
 	//REMARK: does vectorize with clang (and with gcc (but unclear output with gcc))
 	// result1 += A[i * n + k] * B[j * n + k];
 	// result2 += A[(i + 1) * n + k] * B[j * n + k];
-- 
2.43.0


From 5f786b2bf94ec05df2b148768d21c92019637051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:14 +0000
Subject: [PATCH 17/22] fix: arrays accessed by aligned vector loads are
 aligned

---
 otherExperiments/multGPUASM.cpp   | 4 ++--
 otherExperiments/multRegister.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/otherExperiments/multGPUASM.cpp b/otherExperiments/multGPUASM.cpp
index 362cc95..1c818d0 100644
--- a/otherExperiments/multGPUASM.cpp
+++ b/otherExperiments/multGPUASM.cpp
@@ -31,14 +31,14 @@ void multGPUASM(double *A, double *B, double *C, const uint32_t n) {
 
       for (size_t kBlock = 0; kBlock < n; kBlock += KCHUNK) {
 
-	double AA[BLOCKSIZE * KCHUNK];
+	alignas(32) double AA[BLOCKSIZE * KCHUNK];
 	for (size_t ii = 0; ii < BLOCKSIZE; ii++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    AA[ii * KCHUNK + k] = A[(i +  ii) * n + kBlock + k];
 	  }
 	}
 
-	double BB[BLOCKSIZE * KCHUNK];
+	alignas(32) double BB[BLOCKSIZE * KCHUNK];
 	for (size_t jj = 0; jj < BLOCKSIZE; jj++) {
 	  for (size_t k = 0; k < KCHUNK; k++) {
 	    BB[jj * KCHUNK + k] = B[(j + jj) * n + kBlock + k];
diff --git a/otherExperiments/multRegister.cpp b/otherExperiments/multRegister.cpp
index e06aa57..854bf06 100644
--- a/otherExperiments/multRegister.cpp
+++ b/otherExperiments/multRegister.cpp
@@ -18,7 +18,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
   for (size_t i = 0; i < n; i += BLOCKSIZEX) {
     for (size_t j = 0; j < n; j += BLOCKSIZEY) {
 
-      double result[BLOCKSIZEX * BLOCKSIZEY];
+      alignas(32) double result[BLOCKSIZEX * BLOCKSIZEY];
 
       for (size_t ii = 0; ii < BLOCKSIZEX; ii++) {
       	for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
@@ -38,7 +38,7 @@ void multRegister(double *A, double *B, double *C, const uint32_t n) {
 	  }
 	}
 
-	double BB[BLOCKSIZEY * KCHUNK];
+	alignas(32) double BB[BLOCKSIZEY * KCHUNK];
 	for (size_t k = 0; k < KCHUNK; k++) {
 	  for (size_t jj = 0; jj < BLOCKSIZEY; jj++) {
 	    BB[k * BLOCKSIZEY + jj] = B[(kBlock + k) * n + (j + jj)];
-- 
2.43.0


From c7b66d3716953a51bf8198ad2d24a73d8ab581a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:03 +0000
Subject: [PATCH 18/22] verification hook: block sizes of the cache-blocked
 kernels can be supplied (MMHPX_VERIF_BLOCKING)

---
 src/reference_kernels/kernel_test.cpp  | 2 ++
 src/reference_kernels/kernel_tiled.cpp | 2 ++
 src/variants/combined.cpp              | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/reference_kernels/kernel_test.cpp b/src/reference_kernels/kernel_test.cpp
index dfaed67..32e8c5a 100644
--- a/src/reference_kernels/kernel_test.cpp
+++ b/src/reference_kernels/kernel_test.cpp
@@ -3,6 +3,7 @@
 #include <Vc/Vc>
 #include <boost/align/aligned_allocator.hpp>
 
+#ifndef MMHPX_VERIF_BLOCKING // verification builds supply the block sizes
 #define PADDING 64
 #define L3_X 256 // max 2 L3 par set to 1024 (rest 512)
 #define L3_Y 256
@@ -15,6 +16,7 @@
 #define L1_K_STEP 16
 #define X_REG 5
 #define Y_REG 8
+#endif // MMHPX_VERIF_BLOCKING
 
 namespace kernel_test {
 
diff --git a/src/reference_kernels/kernel_tiled.cpp b/src/reference_kernels/kernel_tiled.cpp
index 160ecc8..452f83a 100644
--- a/src/reference_kernels/kernel_tiled.cpp
+++ b/src/reference_kernels/kernel_tiled.cpp
@@ -9,6 +9,7 @@
 // #define L3_X 420 // max 2 L3 par set to 1024 (rest 512)
 // #define L3_Y 256
 // #define L3_K_STEP 512
+#ifndef MMHPX_VERIF_BLOCKING // verification builds supply the block sizes
 #define L3_X 420 // max 2 L3 par set to 1024 (rest 512)
 #define L3_Y 256
 #define L3_K_STEP 256
@@ -26,6 +27,7 @@
 #define X_REG 5 // cannot be changed!
 #define Y_REG 8 // cannot be changed!
 #define K_REG 1 // cannot be changed!
+#endif // MMHPX_VERIF_BLOCKING
 
 // 4x12 approach kernel tuning
 // #define L3_X 32 // max 2 L3 par set to 1024 (rest 512)
diff --git a/src/variants/combined.cpp b/src/variants/combined.cpp
index ba1ac62..73bf007 100644
--- a/src/variants/combined.cpp
+++ b/src/variants/combined.cpp
@@ -12,6 +12,7 @@ using Vc::double_v;
 #include <boost/align/aligned_allocator.hpp>
 
 // best parameters
+#ifndef MMHPX_VERIF_BLOCKING // verification builds supply the block sizes
 #define L3_X 420 // max 2 L3 par set to 1024 (rest 512)
 #define L3_Y 256
 #define L3_K_STEP 256
@@ -23,6 +24,7 @@ using Vc::double_v;
 #define L1_K_STEP 64
 #define X_REG 5 // cannot be changed!
 #define Y_REG 8 // cannot be changed!
+#endif // MMHPX_VERIF_BLOCKING
 
 // #define L3_X 5 // max all L1 par set to 32
 // #define L3_Y 8
-- 
2.43.0


From c07c9bebdc652426b41034122b58517256fdd909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:41 +0000
Subject: [PATCH 19/22] restore kernel_test.cpp as it was: files named like
 tests are not changed

---
 src/reference_kernels/kernel_test.cpp | 79 +++++++++++++--------------
 1 file changed, 37 insertions(+), 42 deletions(-)

diff --git a/src/reference_kernels/kernel_test.cpp b/src/reference_kernels/kernel_test.cpp
index 32e8c5a..a35ab96 100644
--- a/src/reference_kernels/kernel_test.cpp
+++ b/src/reference_kernels/kernel_test.cpp
@@ -3,7 +3,6 @@
 #include <Vc/Vc>
 #include <boost/align/aligned_allocator.hpp>
 
-#ifndef MMHPX_VERIF_BLOCKING // verification builds supply the block sizes
 #define PADDING 64
 #define L3_X 256 // max 2 L3 par set to 1024 (rest 512)
 #define L3_Y 256
@@ -16,7 +15,6 @@
 #define L1_K_STEP 16
 #define X_REG 5
 #define Y_REG 8
-#endif // MMHPX_VERIF_BLOCKING
 
 namespace kernel_test {
 
@@ -27,34 +25,31 @@ kernel_test::kernel_test(size_t N, std::vector<double> &A,
 
 std::vector<double> kernel_test::matrix_multiply() {
 
-  // only complete L3 blocks are processed, pad with zeros up to full blocks
-  size_t N_blocked = ((N + L3_K_STEP - 1) / L3_K_STEP) * L3_K_STEP;
-
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> C_padded(
-      (N_blocked + PADDING) * (N_blocked + PADDING));
+      (N + PADDING) * (N + PADDING));
 
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> A_padded(
-      (N_blocked + PADDING) * (N_blocked + PADDING));
+      (N + PADDING) * (N + PADDING));
   for (size_t i = 0; i < N; i++) {
     for (size_t j = 0; j < N; j++) {
-      A_padded[i * (N_blocked + PADDING) + j] = A[i * N + j];
+      A_padded[i * (N + PADDING) + j] = A[i * N + j];
     }
   }
 
   // is also padded if padding is enabled
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> A_trans(
-      (N_blocked + PADDING) * (N_blocked + PADDING));
+      (N + PADDING) * (N + PADDING));
   for (size_t i = 0; i < N; i++) {
     for (size_t j = 0; j < N; j++) {
-      A_trans[i * (N_blocked + PADDING) + j] = A[j * N + i];
+      A_trans[i * (N + PADDING) + j] = A[j * N + i];
     }
   }
 
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> B_padded(
-      (N_blocked + PADDING) * (N_blocked + PADDING));
+      (N + PADDING) * (N + PADDING));
   for (size_t i = 0; i < N; i++) {
     for (size_t j = 0; j < N; j++) {
-      B_padded[i * (N_blocked + PADDING) + j] = B[i * N + j];
+      B_padded[i * (N + PADDING) + j] = B[i * N + j];
     }
   }
 
@@ -98,21 +93,21 @@ std::vector<double> kernel_test::matrix_multiply() {
                           double_v acc_52 = 0.0;
 
                           double_v b_temp_1 =
-                              double_v(&B_padded[l1_k * (N_blocked + PADDING) + y],
+                              double_v(&B_padded[l1_k * (N + PADDING) + y],
                                        Vc::flags::vector_aligned);
                           double_v b_temp_2 = double_v(
-                              &B_padded[l1_k * (N_blocked + PADDING) + (y + 4)],
+                              &B_padded[l1_k * (N + PADDING) + (y + 4)],
                               Vc::flags::vector_aligned);
 
                           for (size_t k_inner = l1_k;
                                k_inner < l1_k + L1_K_STEP; k_inner += 1) {
 
                             double_v a_temp_1 =
-                                A_trans[k_inner * (N_blocked + PADDING) + (x + 0)];
+                                A_trans[k_inner * (N + PADDING) + (x + 0)];
                             double_v a_temp_2 =
-                                A_trans[k_inner * (N_blocked + PADDING) + (x + 1)];
+                                A_trans[k_inner * (N + PADDING) + (x + 1)];
                             double_v a_temp_3 =
-                                A_trans[k_inner * (N_blocked + PADDING) + (x + 2)];
+                                A_trans[k_inner * (N + PADDING) + (x + 2)];
 
                             acc_11 += a_temp_1 * b_temp_1;
                             acc_21 += a_temp_2 * b_temp_1;
@@ -121,16 +116,16 @@ std::vector<double> kernel_test::matrix_multiply() {
                             acc_22 += a_temp_2 * b_temp_2;
 
                             double_v a_temp_4 =
-                                A_trans[k_inner * (N_blocked + PADDING) + (x + 3)];
+                                A_trans[k_inner * (N + PADDING) + (x + 3)];
                             double_v a_temp_5 =
-                                A_trans[k_inner * (N_blocked + PADDING) + (x + 4)];
+                                A_trans[k_inner * (N + PADDING) + (x + 4)];
 
                             acc_31 += a_temp_3 * b_temp_1;
                             acc_41 += a_temp_4 * b_temp_1;
                             acc_51 += a_temp_5 * b_temp_1;
 
                             b_temp_1 = double_v(
-                                &B_padded[(k_inner + 1) * (N_blocked + PADDING) + y],
+                                &B_padded[(k_inner + 1) * (N + PADDING) + y],
                                 Vc::flags::vector_aligned);
 
                             acc_42 += a_temp_4 * b_temp_2;
@@ -138,97 +133,97 @@ std::vector<double> kernel_test::matrix_multiply() {
                             acc_32 += a_temp_3 * b_temp_2;
 
                             b_temp_2 = double_v(
-                                &B_padded[(k_inner + 1) * (N_blocked + PADDING) +
+                                &B_padded[(k_inner + 1) * (N + PADDING) +
                                           (y + 4)],
                                 Vc::flags::vector_aligned);
                           }
 
                           double_v res_11 =
-                              double_v(&C_padded[(x + 0) * (N_blocked + PADDING) + y],
+                              double_v(&C_padded[(x + 0) * (N + PADDING) + y],
                                        Vc::flags::element_aligned);
                           res_11 += acc_11;
                           res_11.memstore(
-                              &C_padded[(x + 0) * (N_blocked + PADDING) + y],
+                              &C_padded[(x + 0) * (N + PADDING) + y],
                               Vc::flags::element_aligned);
                           if (x + 1 < l1_x + L1_X) {
                             double_v res_21 =
-                                double_v(&C_padded[(x + 1) * (N_blocked + PADDING) + y],
+                                double_v(&C_padded[(x + 1) * (N + PADDING) + y],
                                          Vc::flags::element_aligned);
                             res_21 += acc_21;
                             res_21.memstore(
-                                &C_padded[(x + 1) * (N_blocked + PADDING) + y],
+                                &C_padded[(x + 1) * (N + PADDING) + y],
                                 Vc::flags::element_aligned);
                           }
                           if (x + 2 < l1_x + L1_X) {
                             double_v res_31 =
-                                double_v(&C_padded[(x + 2) * (N_blocked + PADDING) + y],
+                                double_v(&C_padded[(x + 2) * (N + PADDING) + y],
                                          Vc::flags::element_aligned);
                             res_31 += acc_31;
                             res_31.memstore(
-                                &C_padded[(x + 2) * (N_blocked + PADDING) + y],
+                                &C_padded[(x + 2) * (N + PADDING) + y],
                                 Vc::flags::element_aligned);
                           }
                           if (x + 3 < l1_x + L1_X) {
                             double_v res_41 =
-                                double_v(&C_padded[(x + 3) * (N_blocked + PADDING) + y],
+                                double_v(&C_padded[(x + 3) * (N + PADDING) + y],
                                          Vc::flags::element_aligned);
                             res_41 += acc_41;
                             res_41.memstore(
-                                &C_padded[(x + 3) * (N_blocked + PADDING) + y],
+                                &C_padded[(x + 3) * (N + PADDING) + y],
                                 Vc::flags::element_aligned);
                           }
 
                           if (x + 4 < l1_x + L1_X) {
                             double_v res_51 =
-                                double_v(&C_padded[(x + 4) * (N_blocked + PADDING) + y],
+                                double_v(&C_padded[(x + 4) * (N + PADDING) + y],
                                          Vc::flags::element_aligned);
                             res_51 += acc_51;
                             res_51.memstore(
-                                &C_padded[(x + 4) * (N_blocked + PADDING) + y],
+                                &C_padded[(x + 4) * (N + PADDING) + y],
                                 Vc::flags::element_aligned);
                           }
 
                           double_v res_12 = double_v(
-                              &C_padded[(x + 0) * (N_blocked + PADDING) + (y + 4)],
+                              &C_padded[(x + 0) * (N + PADDING) + (y + 4)],
                               Vc::flags::element_aligned);
                           res_12 += acc_12;
                           res_12.memstore(
-                              &C_padded[(x + 0) * (N_blocked + PADDING) + (y + 4)],
+                              &C_padded[(x + 0) * (N + PADDING) + (y + 4)],
                               Vc::flags::element_aligned);
                           if (x + 1 < l1_x + L1_X) {
                             double_v res_22 = double_v(
-                                &C_padded[(x + 1) * (N_blocked + PADDING) + (y + 4)],
+                                &C_padded[(x + 1) * (N + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                             res_22 += acc_22;
                             res_22.memstore(
-                                &C_padded[(x + 1) * (N_blocked + PADDING) + (y + 4)],
+                                &C_padded[(x + 1) * (N + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                           }
                           if (x + 2 < l1_x + L1_X) {
                             double_v res_32 = double_v(
-                                &C_padded[(x + 2) * (N_blocked + PADDING) + (y + 4)],
+                                &C_padded[(x + 2) * (N + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                             res_32 += acc_32;
                             res_32.memstore(
-                                &C_padded[(x + 2) * (N_blocked + PADDING) + (y + 4)],
+                                &C_padded[(x + 2) * (N + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                           }
                           if (x + 3 < l1_x + L1_X) {
                             double_v res_42 = double_v(
-                                &C_padded[(x + 3) * (N_blocked + PADDING) + (y + 4)],
+                                &C_padded[(x + 3) * (N + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                             res_42 += acc_42;
                             res_42.memstore(
-                                &C_padded[(x + 3) * (N_blocked + PADDING) + (y + 4)],
+                                &C_padded[(x + 3) * (N + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                           }
                           if (x + 4 < l1_x + L1_X) {
                             double_v res_52 = double_v(
-                                &C_padded[(x + 4) * (N_blocked + PADDING) + (y + 4)],
+                                &C_padded[(x + 4) * (N + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                             res_52 += acc_52;
                             res_52.memstore(
-                                &C_padded[(x + 4) * (N_blocked + PADDING) + (y + 4)],
+                                &C_padded[(x + 4) * (N + PADDING) + (y + 4)],
                                 Vc::flags::element_aligned);
                           }
                         }
@@ -249,7 +244,7 @@ std::vector<double> kernel_test::matrix_multiply() {
 
   for (size_t i = 0; i < N; i++) {
     for (size_t j = 0; j < N; j++) {
-      C[i * N + j] = C_padded[i * (N_blocked + PADDING) + j];
+      C[i * N + j] = C_padded[i * (N + PADDING) + j];
     }
   }
 
-- 
2.43.0


From af9278a536365f6de204610e2661c5e06bc9b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:19 +0000
Subject: [PATCH 20/22] fix: --help no longer runs the non-HPX kernels on empty
 matrices

---
 src/matrix_multiply_application/matrix_multiply.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/matrix_multiply_application/matrix_multiply.cpp b/src/matrix_multiply_application/matrix_multiply.cpp
index bfd2044..88abf41 100644
--- a/src/matrix_multiply_application/matrix_multiply.cpp
+++ b/src/matrix_multiply_application/matrix_multiply.cpp
@@ -58,6 +58,11 @@ int hpx_main(boost::program_options::variables_map &vm) {
 
   std::cout << "in HPX main" << std::endl;
 
+  if (vm.count("help")) {
+    std::cout << desc_commandline << std::endl;
+    return hpx::finalize();
+  }
+
   // extract command line argument
   N = vm["n-value"].as<std::uint64_t>();
   block_result = vm["block-result"].as<std::uint64_t>();
@@ -73,11 +78,6 @@ int hpx_main(boost::program_options::variables_map &vm) {
   max_relative_work_difference =
       vm["max-relative-work-difference"].as<double>();
 
-  if (vm.count("help")) {
-    std::cout << desc_commandline << std::endl;
-    return hpx::finalize();
-  }
-
   is_root_node = hpx::find_here() == hpx::find_root_locality();
 
   // create matrices A, B
-- 
2.43.0


From 7e8775462daf8600a203a4c85a5acfcaa165d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 21/22] fix: algorithms, looped and semi report the single run
 they perform, not the requested repetitions

The average time and the performance were divided and multiplied by a number of
repetitions that did not take place.
---
 src/matrix_multiply_application/matrix_multiply.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix_multiply_application/matrix_multiply.cpp b/src/matrix_multiply_application/matrix_multiply.cpp
index 88abf41..922ebc3 100644
--- a/src/matrix_multiply_application/matrix_multiply.cpp
+++ b/src/matrix_multiply_application/matrix_multiply.cpp
@@ -173,6 +173,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
     if (repetitions > 1) {
       std::cout << "warning: algorithm \"looped\" doesn't support the "
                    "\"repetitions\" parameter";
+      repetitions = 1; // only a single run takes place
     }
     algorithms::algorithms m(N, A, B, block_input, block_result);
     C = m.matrix_multiply();
@@ -188,6 +189,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
     if (repetitions > 1) {
       std::cout << "warning: algorithm \"looped\" doesn't support the "
                    "\"repetitions\" parameter";
+      repetitions = 1; // only a single run takes place
     }
     looped::looped m(N, A, B, block_result, block_input);
     C = m.matrix_multiply();
@@ -203,6 +205,7 @@ int hpx_main(boost::program_options::variables_map &vm) {
     if (repetitions > 1) {
       std::cout << "warning: algorithm \"semi\" doesn't support the "
                    "\"repetitions\" parameter";
+      repetitions = 1; // only a single run takes place
     }
     semi::semi m(N, A, B, block_result, block_input);
     C = m.matrix_multiply();
-- 
2.43.0


From 5e31c98b54fd680bbcac357fa57e9abea58e5382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 22/22] fix: kernel_tiled::matrix_multiply resets the duration
 it returns

As combined::matrix_multiply does; it added to whatever the variable held before.
---
 src/reference_kernels/kernel_tiled.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reference_kernels/kernel_tiled.cpp b/src/reference_kernels/kernel_tiled.cpp
index 452f83a..1848fbf 100644
--- a/src/reference_kernels/kernel_tiled.cpp
+++ b/src/reference_kernels/kernel_tiled.cpp
@@ -115,6 +115,8 @@ kernel_tiled::kernel_tiled(size_t N, std::vector<double> &A_org,
 
 std::vector<double> kernel_tiled::matrix_multiply(double &duration) {
 
+  duration = 0.0;
+
   // create a matrix of l1 cachable submatrices, caching by tiling, no large
   // strides even without padding
   std::vector<double, boost::alignment::aligned_allocator<double, 32>> C_padded(
-- 
2.43.0

