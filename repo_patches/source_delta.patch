From e52d3fcfd2aa4717526d3fb0af6eaf400771c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 01/55] fix: compute the partition depth with an integer
 logarithm

floor(log(243)/log(3)) is 4, so a partition of 243 parts with 3 children per
cluster was requested from the wrong level and failed.
---
 include/htool/clustering/tree_builder/recursive_build.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/htool/clustering/tree_builder/recursive_build.hpp b/include/htool/clustering/tree_builder/recursive_build.hpp
index 17d3442..b2e6892 100644
--- a/include/htool/clustering/tree_builder/recursive_build.hpp
+++ b/include/htool/clustering/tree_builder/recursive_build.hpp
@@ -93,7 +93,10 @@ Cluster<T> ClusterTreeBuilder<T>::create_cluster_tree(int number_of_points, int
     } else {
         m_partition_type = Simple;
         if (size_partition >= number_of_children) {
-            depth_of_partition                    = static_cast<int>(floor(log(size_partition) / log(number_of_children)));
+            depth_of_partition = 0; // integer logarithm: the quotient of floating point logarithms can be just below an integer
+            for (int parts = size_partition; parts >= number_of_children; parts /= number_of_children) {
+                depth_of_partition++;
+            }
             number_of_children_on_partition_level = number_of_children;
             if (size_partition != std::pow(number_of_children, depth_of_partition)) {
                 Logger::get_instance().log(LogLevel::WARNING, "The given size for the partition is not a power of the number of children in the cluster tree.");
-- 
2.43.0


From 9563c30fdd313be373802d9834647b0c47eea622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 02/55] fix: a moved cluster tree keeps a valid pointer to its
 root

The default move left the tree's root pointer on the moved-from object.
---
 include/htool/clustering/cluster_node.hpp | 28 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/htool/clustering/cluster_node.hpp b/include/htool/clustering/cluster_node.hpp
index ae6adcb..78f125c 100644
--- a/include/htool/clustering/cluster_node.hpp
+++ b/include/htool/clustering/cluster_node.hpp
@@ -9,6 +9,7 @@
 #include <memory>  // for make_shared, operator==
 #include <numeric> // for iota
 #include <string>  // for basic_string
+#include <utility> // for move
 #include <vector>  // for vector
 
 namespace htool {
@@ -42,11 +43,28 @@ class Cluster : public TreeNode<Cluster<CoordinatesPrecision>, ClusterTreeData<C
     }
 
     // no copy
-    Cluster(const Cluster &)                       = delete;
-    Cluster &operator=(const Cluster &)            = delete;
-    Cluster(Cluster &&cluster) noexcept            = default;
-    Cluster &operator=(Cluster &&cluster) noexcept = default;
-    virtual ~Cluster()                             = default;
+    Cluster(const Cluster &)            = delete;
+    Cluster &operator=(const Cluster &) = delete;
+    // a moved root is the new root of its tree
+    Cluster(Cluster &&cluster) noexcept : TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>(std::move(cluster)), m_radius(cluster.m_radius), m_center(std::move(cluster.m_center)), m_rank(cluster.m_rank), m_offset(cluster.m_offset), m_size(cluster.m_size), m_counter(cluster.m_counter) {
+        if (this->m_is_root && this->m_tree_data) {
+            this->m_tree_data->m_root_cluster = this;
+        }
+    }
+    Cluster &operator=(Cluster &&cluster) noexcept {
+        TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>::operator=(std::move(cluster));
+        m_radius  = cluster.m_radius;
+        m_center  = std::move(cluster.m_center);
+        m_rank    = cluster.m_rank;
+        m_offset  = cluster.m_offset;
+        m_size    = cluster.m_size;
+        m_counter = cluster.m_counter;
+        if (this->m_is_root && this->m_tree_data) {
+            this->m_tree_data->m_root_cluster = this;
+        }
+        return *this;
+    }
+    virtual ~Cluster() = default;
 
     // Cluster getters
     const CoordinatesPrecision &get_radius() const { return m_radius; }
-- 
2.43.0


From 949902983cdad260f1f22cd0b17a2e675142d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 03/55] fix: a block tree builder can be used for several
 builds

---
 include/htool/hmatrix/tree_builder/tree_builder.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/htool/hmatrix/tree_builder/tree_builder.hpp b/include/htool/hmatrix/tree_builder/tree_builder.hpp
index d08a746..6dd1444 100644
--- a/include/htool/hmatrix/tree_builder/tree_builder.hpp
+++ b/include/htool/hmatrix/tree_builder/tree_builder.hpp
@@ -179,6 +179,11 @@ class HMatrixTreeBuilder {
 
 template <typename CoefficientPrecision, typename CoordinatePrecision>
 HMatrix<CoefficientPrecision, CoordinatePrecision> HMatrixTreeBuilder<CoefficientPrecision, CoordinatePrecision>::build(const VirtualInternalGenerator<CoefficientPrecision> &generator) const {
+    // Forget blocks of a previous build
+    m_admissible_tasks.clear();
+    m_dense_tasks.clear();
+    m_false_positive = 0;
+
     // Create root hmatrix
     HMatrixType root_hmatrix(m_target_root_cluster, m_source_root_cluster);
     root_hmatrix.set_admissibility_condition(m_admissibility_condition);
-- 
2.43.0


From de52812015b4a40356f4524c95f0b92b71109f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 04/55] fix: products with a rank-zero low-rank operand still
 apply beta

---
 .../htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp |  5 +++++
 .../htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp |  5 +++++
 .../hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp   |  5 +++++
 .../hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp  |  5 +++++
 .../linalg/add_lrmat_matrix_product_row_major.hpp      |  5 +++++
 .../hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp  |  5 +++++
 .../hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp  |  5 +++++
 include/htool/hmatrix/lrmat/lrmat.hpp                  | 10 +++++-----
 8 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
index 9f64341..ef50dc5 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
@@ -6,6 +6,7 @@
 #include "../../matrix/matrix.hpp"           // for Matrix
 #include "../../misc/misc.hpp"               // for conj_if_complex
 #include "../hmatrix.hpp"                    // for HMatrix
+#include "../lrmat/linalg/scale.hpp"         // for scale
 #include "../lrmat/lrmat.hpp"                // for LowRankMatrix
 #include "../lrmat/utils/recompression.hpp"  // for recompression
 #include "add_hmatrix_matrix_product.hpp"    // for add_hmatrix_m...
@@ -34,6 +35,8 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             internal_add_hmatrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -110,6 +113,8 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
index eaccdf2..9f2328b 100644
--- a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
@@ -6,6 +6,7 @@
 #include "../../matrix/matrix.hpp"           // for Matrix
 #include "../../misc/misc.hpp"               // for conj_if_complex
 #include "../hmatrix.hpp"                    // for HMatrix
+#include "../lrmat/linalg/scale.hpp"         // for scale
 #include "../lrmat/lrmat.hpp"                // for LowRankMatrix
 #include "../lrmat/utils/recompression.hpp"  // for recompression
 #include "add_lrmat_hmatrix.hpp"             // for add_lrmat_hma...
@@ -29,6 +30,8 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             internal_add_matrix_hmatrix_product<CoefficientPrecision>(transa, transb, CoefficientPrecision(1), U, B, CoefficientPrecision(0), UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -100,6 +103,8 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
index a9a026d..6d1eaaa 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
@@ -8,6 +8,7 @@
 #include "../../../misc/misc.hpp"                               // for conj...
 #include "../lrmat.hpp"                                         // for LowR...
 #include "add_lrmat_matrix_product.hpp"                         // for add_...
+#include "scale.hpp"                                            // for scale
 #include <algorithm>                                            // for copy_n
 
 namespace htool {
@@ -28,6 +29,8 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             add_lrmat_matrix_product(transa, transb, CoefficientPrecision(1), A, V_B, CoefficientPrecision(0), AVBt);
             add_matrix_matrix_product('N', transb, alpha, AVBt, U_B, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -95,6 +98,8 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
index d921453..d120990 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
@@ -6,6 +6,7 @@
 #include "../../../matrix/linalg/transpose.hpp"                 // for tran...
 #include "../lrmat.hpp"                                         // for LowR...
 #include "../utils/recompression.hpp"                           // for reco...
+#include "scale.hpp"                                            // for scale
 #include "htool/matrix/matrix.hpp"                              // for Matrix
 #include "htool/misc/misc.hpp"                                  // for conj...
 #include <algorithm>                                            // for copy_n
@@ -29,6 +30,8 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, U, B, 0, UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -103,6 +106,8 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
index 434b68e..059a686 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
@@ -2,6 +2,7 @@
 #define HTOOL_LRMAT_LINALG_ADD_LRMAT_MATRIX_PRODUCT_ROW_MAJOR_HPP
 
 #include "../../../matrix/linalg/add_matrix_matrix_product_row_major.hpp"
+#include "../../../wrappers/wrapper_blas.hpp"
 #include "../lrmat.hpp"
 #include <vector>
 
@@ -23,6 +24,10 @@ void add_lrmat_matrix_product_row_major(char transa, char transb, CoefficientPre
             add_matrix_matrix_product_row_major(transa, transb, CoefficientPrecision(1), U, in, CoefficientPrecision(0), a.data(), mu);
             add_matrix_matrix_product_row_major(transa, 'N', alpha, V, a.data(), beta, out, mu);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        int size = (transa == 'N' ? A.nb_rows() : A.nb_cols()) * mu;
+        int incx = 1;
+        Blas<CoefficientPrecision>::scal(&size, &beta, out, &incx);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
index bc34cd7..5d24937 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
@@ -1,6 +1,7 @@
 #ifndef HTOOL_LRMAT_LINALG_ADD_LRMAT_VECTOR_PRODUCT_HPP
 #define HTOOL_LRMAT_LINALG_ADD_LRMAT_VECTOR_PRODUCT_HPP
 #include "../../../matrix/linalg/add_matrix_vector_product.hpp" // for add_...
+#include "../../../wrappers/wrapper_blas.hpp"                   // for Blas
 #include "../lrmat.hpp"                                         // for LowR...
 #include <vector>                                               // for vector
 namespace htool {
@@ -20,6 +21,10 @@ void add_lrmat_vector_product(char trans, CoefficientPrecision alpha, const LowR
             add_matrix_vector_product<CoefficientPrecision>(trans, CoefficientPrecision(1.), U, in, 0, a.data());
             add_matrix_vector_product<CoefficientPrecision>(trans, alpha, V, a.data(), beta, out);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        int size = trans == 'N' ? A.nb_rows() : A.nb_cols();
+        int incx = 1;
+        Blas<CoefficientPrecision>::scal(&size, &beta, out, &incx);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
index b50a74a..414026b 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
@@ -8,6 +8,7 @@
 #include "../../../misc/misc.hpp"                               // for conj...
 #include "../lrmat.hpp"                                         // for LowR...
 #include "../utils/recompression.hpp"                           // for reco...
+#include "scale.hpp"                                            // for scale
 #include <algorithm>                                            // for copy_n
 
 namespace htool {
@@ -32,6 +33,8 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -107,6 +110,8 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/lrmat.hpp b/include/htool/hmatrix/lrmat/lrmat.hpp
index d4cc908..fdd929b 100644
--- a/include/htool/hmatrix/lrmat/lrmat.hpp
+++ b/include/htool/hmatrix/lrmat/lrmat.hpp
@@ -7,7 +7,7 @@
 #include "../../misc/misc.hpp"                            // for underlying_type
 #include "../../wrappers/wrapper_blas.hpp"                // for Blas
 #include "../interfaces/virtual_lrmat_generator.hpp"      // for VirtualLowRankG...
-#include <algorithm>                                      // for fill
+#include <algorithm>                                      // for fill, transform
 #include <vector>                                         // for vector
 
 namespace htool {
@@ -55,7 +55,7 @@ class LowRankMatrix {
 
     void add_vector_product(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const {
         if (m_U.nb_cols() == 0) {
-            std::fill(out, out + m_U.nb_cols(), 0);
+            std::transform(out, out + (trans == 'N' ? m_U.nb_rows() : m_V.nb_cols()), out, [&beta](const CoefficientPrecision &c) { return c * beta; });
         } else if (trans == 'N') {
             std::vector<CoefficientPrecision> a(m_U.nb_cols());
             m_V.add_vector_product(trans, 1, in, 0, a.data());
@@ -69,7 +69,7 @@ class LowRankMatrix {
 
     void add_matrix_product(char transa, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu) const {
         if (m_U.nb_cols() == 0) {
-            std::fill(out, out + m_V.nb_cols() * mu, 0);
+            std::transform(out, out + (transa == 'N' ? m_U.nb_rows() : m_V.nb_cols()) * mu, out, [&beta](const CoefficientPrecision &c) { return c * beta; });
         } else if (transa == 'N') {
             std::vector<CoefficientPrecision> a(m_U.nb_cols() * mu);
             m_V.add_matrix_product(transa, 1, in, 0, a.data(), mu);
@@ -83,7 +83,7 @@ class LowRankMatrix {
 
     void add_matrix_product_row_major(char transa, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu) const {
         if (m_U.nb_cols() == 0) {
-            std::fill(out, out + m_V.nb_cols() * mu, 0);
+            std::transform(out, out + (transa == 'N' ? m_U.nb_rows() : m_V.nb_cols()) * mu, out, [&beta](const CoefficientPrecision &c) { return c * beta; });
         } else if (transa == 'N') {
             std::vector<CoefficientPrecision> a(m_U.nb_cols() * mu);
             m_V.add_matrix_product_row_major(transa, 1, in, 0, a.data(), mu);
@@ -98,7 +98,7 @@ class LowRankMatrix {
     void
     mvprod(const CoefficientPrecision *const in, CoefficientPrecision *const out) const {
         if (m_U.nb_cols() == 0) {
-            std::fill(out, out + m_U.nb_cols(), 0);
+            std::fill(out, out + m_U.nb_rows(), 0);
         } else {
             std::vector<CoefficientPrecision> a(m_U.nb_cols());
             m_V.mvprod(in, a.data());
-- 
2.43.0


From 114d3d74adab6e330668f0fe5e3ebac21a865aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 05/55] fix: report unsupported transposition of a symmetric
 hmatrix in vector products

---
 .../hmatrix/linalg/add_hmatrix_vector_product.hpp    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
index 91da819..c2b6712 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
@@ -2,12 +2,14 @@
 #define HTOOL_HMATRIX_LINALG_ADD_HMATRIX_VECTOR_PRODUCT_HPP
 
 #include "../../matrix/linalg/add_matrix_vector_product.hpp" // for add_mat...
+#include "../../misc/logger.hpp"                             // for Logger, LogLevel
 #include "../../misc/misc.hpp"                               // for underly...
 #include "../../wrappers/wrapper_blas.hpp"                   // for Blas
 #include "../hmatrix.hpp"                                    // for HMatrix
 #include "../lrmat/linalg/add_lrmat_vector_product.hpp"      // for add_lrm...
 #include <algorithm>                                         // for transform
 #include <complex>                                           // for complex
+#include <string>                                            // for string
 #include <vector>                                            // for vector
 
 namespace htool {
@@ -65,6 +67,11 @@ void sequential_internal_add_hmatrix_vector_product(char trans, CoefficientPreci
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves_for_symmetry;
     std::tie(leaves, leaves_for_symmetry) = get_leaves_from(A); // C++17 structured binding
 
+    if ((trans == 'T' && A.get_symmetry_for_leaves() == 'H')
+        || (trans == 'C' && A.get_symmetry_for_leaves() == 'S' && is_complex<CoefficientPrecision>())) {
+        htool::Logger::get_instance().log(LogLevel::ERROR, "Operation is not supported (trans=" + std::string(1, trans) + " with " + A.get_symmetry_for_leaves() + ")"); // LCOV_EXCL_LINE
+    }
+
     if (trans != 'N') {
         out_size            = A.get_source_cluster().get_size();
         get_input_cluster   = &HMatrix<CoefficientPrecision, CoordinatePrecision>::get_target_cluster;
@@ -102,6 +109,11 @@ void openmp_internal_add_hmatrix_vector_product(char trans, CoefficientPrecision
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves_for_symmetry;
     std::tie(leaves, leaves_for_symmetry) = get_leaves_from(A); // C++17 structured binding
 
+    if ((trans == 'T' && A.get_symmetry_for_leaves() == 'H')
+        || (trans == 'C' && A.get_symmetry_for_leaves() == 'S' && is_complex<CoefficientPrecision>())) {
+        htool::Logger::get_instance().log(LogLevel::ERROR, "Operation is not supported (trans=" + std::string(1, trans) + " with " + A.get_symmetry_for_leaves() + ")"); // LCOV_EXCL_LINE
+    }
+
     int out_size(A.get_target_cluster().get_size());
     auto get_output_cluster{&HMatrix<CoefficientPrecision, CoordinatePrecision>::get_target_cluster};
     auto get_input_cluster{&HMatrix<CoefficientPrecision, CoordinatePrecision>::get_source_cluster};
-- 
2.43.0


From 5e4440b407d3ba8014a8f03bd9638ec1ac94eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 06/55] fix: dense times symmetric hmatrix on a row strip or
 with a transposed dense factor

op(B)^T was replaced by B (or conj(B)) whenever the leaves of B are
symmetric, which is wrong for a rectangular strip, and the conjugation
was missing when the dense factor is transposed.
---
 .../linalg/add_matrix_hmatrix_product.hpp     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
index b959315..db6ef9a 100644
--- a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
@@ -19,32 +19,32 @@ namespace htool {
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void internal_add_matrix_hmatrix_product(char transa, char transb, CoefficientPrecision alpha, const Matrix<CoefficientPrecision> &A, const HMatrix<CoefficientPrecision, CoordinatePrecision> &B, CoefficientPrecision beta, Matrix<CoefficientPrecision> &C) {
 
-    char new_transa = transb == 'N' ? 'T' : 'N';
-    new_transa      = B.get_symmetry_for_leaves() == 'H' and transb == 'N' ? 'N' : new_transa;
-    new_transa      = B.get_symmetry_for_leaves() == 'S' and transb == 'N' ? 'N' : new_transa;
+    // transposed product op(B)^T op(A)^T, conjugated when op(B)^T alone is not available
+    bool B_is_hermitian = B.get_symmetry_for_leaves() == 'H';
+    bool need_conj      = transb == 'C' or (B_is_hermitian and transb == 'N');
+    char new_transa     = transb != 'N' ? 'N' : (B_is_hermitian ? 'C' : 'T');
     if (transa == 'N') {
-        bool need_buffer_for_conj = transb == 'C' or (B.get_symmetry_for_leaves() == 'H' and transb == 'N');
-        std::vector<CoefficientPrecision> buffer_A(need_buffer_for_conj ? A.nb_cols() * A.nb_rows() : 0);
-        if (need_buffer_for_conj) {
+        std::vector<CoefficientPrecision> buffer_A(need_conj ? A.nb_cols() * A.nb_rows() : 0);
+        if (need_conj) {
             std::copy(A.data(), A.data() + A.nb_cols() * A.nb_rows(), buffer_A.data());
             conj_if_complex(buffer_A.data(), buffer_A.size());
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
-        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', need_buffer_for_conj ? conj_if_complex(alpha) : alpha, B, need_buffer_for_conj ? buffer_A.data() : A.data(), need_buffer_for_conj ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
-        if (need_buffer_for_conj) {
+        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', need_conj ? conj_if_complex(alpha) : alpha, B, need_conj ? buffer_A.data() : A.data(), need_conj ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
+        if (need_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
     } else {
         Matrix<CoefficientPrecision> transposed_A(A.nb_cols(), A.nb_rows());
         transpose(A, transposed_A);
-        if (transb == 'C') {
+        if (need_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
-        if ((transa == 'T' && transb == 'C') or (transa == 'C' and transb != 'C')) {
+        if ((transa == 'T' and need_conj) or (transa == 'C' and !need_conj)) {
             conj_if_complex(transposed_A.data(), transposed_A.nb_rows() * transposed_A.nb_cols());
         }
-        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', transb == 'C' ? conj_if_complex(alpha) : alpha, B, transposed_A.data(), transb == 'C' ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
-        if (transb == 'C') {
+        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', need_conj ? conj_if_complex(alpha) : alpha, B, transposed_A.data(), need_conj ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
+        if (need_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
     }
-- 
2.43.0


From 424a364e2ae0191e7640a2e76ed850ce447276b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 07/55] fix: adding a rank-zero low-rank matrix to an hmatrix
 does nothing

---
 include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp b/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
index 520d7b3..cdb561f 100644
--- a/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
+++ b/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
@@ -13,6 +13,9 @@ namespace htool {
 
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void internal_add_lrmat_hmatrix(const LowRankMatrix<CoefficientPrecision, CoordinatePrecision> &lrmat, HMatrix<CoefficientPrecision, CoordinatePrecision> &hmatrix) {
+    if (lrmat.rank_of() == 0) { // nothing to add, and the factors may not be sized
+        return;
+    }
     std::vector<HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves;
     preorder_tree_traversal(hmatrix, [&leaves](HMatrix<CoefficientPrecision, CoordinatePrecision> &current_node) {
         if (!current_node.is_hierarchical()) {
-- 
2.43.0


From 4027b95626c256c37ec13810ccc676ecc5427402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 08/55] fix: product of a leaf and an hmatrix applies beta to a
 hierarchical result

---
 .../htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
index 4a23020..d0a3895 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
@@ -214,10 +214,10 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
     } else if (C.is_low_rank()) {
         internal_add_hmatrix_hmatrix_product(transa, transb, alpha, A, B, beta, *C.get_low_rank_data());
     } else {
+        if (beta != CoefficientPrecision(1)) {
+            sequential_scale(beta, C);
+        }
         if (A.is_hierarchical() and B.is_hierarchical()) {
-            if (beta != CoefficientPrecision(1)) {
-                sequential_scale(beta, C);
-            }
             bool block_tree_not_consistent = (A.get_target_cluster().get_rank() < 0 || A.get_source_cluster().get_rank() < 0 || B.get_target_cluster().get_rank() < 0 || B.get_source_cluster().get_rank() < 0);
 
             std::vector<const Cluster<CoordinatePrecision> *> output_clusters, middle_clusters, input_clusters;
-- 
2.43.0


From b269ea1234deaed6eb8887ae3c62662168ae99c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 09/55] fix: product into a hierarchical hmatrix finds blocks
 below a multi-level partition

---
 .../htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
index d0a3895..8e5a4c1 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
@@ -265,11 +265,12 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
             for (auto &output_cluster_child : output_clusters) {
                 for (auto &input_cluster_child : input_clusters) {
                     for (auto &middle_cluster_child : middle_clusters) {
-                        auto &&A_child = (transa == 'N') ? A.get_child_or_this(*output_cluster_child, *middle_cluster_child) : A.get_child_or_this(*middle_cluster_child, *output_cluster_child);
-                        auto &&B_child = (transb == 'N') ? B.get_child_or_this(*middle_cluster_child, *input_cluster_child) : B.get_child_or_this(*input_cluster_child, *middle_cluster_child);
-                        auto &&C_child = C.get_child_or_this(*output_cluster_child, *input_cluster_child);
+                        // clusters on the partition may be several levels below the roots
+                        auto &&A_child = (transa == 'N') ? A.get_sub_hmatrix(*output_cluster_child, *middle_cluster_child) : A.get_sub_hmatrix(*middle_cluster_child, *output_cluster_child);
+                        auto &&B_child = (transb == 'N') ? B.get_sub_hmatrix(*middle_cluster_child, *input_cluster_child) : B.get_sub_hmatrix(*input_cluster_child, *middle_cluster_child);
+                        auto &&C_child = C.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
                         if (A_child != nullptr && B_child != nullptr && C_child != nullptr) {
-                            internal_add_hmatrix_hmatrix_product(transa, transb, alpha, *A_child, *B_child, CoefficientPrecision(1), *C.get_child_or_this(*output_cluster_child, *input_cluster_child));
+                            internal_add_hmatrix_hmatrix_product(transa, transb, alpha, *A_child, *B_child, CoefficientPrecision(1), *C_child);
                         }
                     }
                 }
-- 
2.43.0


From 01143c87d64c43e107ebfc5acfb3e3287cc5cb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 10/55] fix: dense copy of a rank-zero low-rank matrix

---
 include/htool/hmatrix/lrmat/lrmat.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/htool/hmatrix/lrmat/lrmat.hpp b/include/htool/hmatrix/lrmat/lrmat.hpp
index fdd929b..99842cd 100644
--- a/include/htool/hmatrix/lrmat/lrmat.hpp
+++ b/include/htool/hmatrix/lrmat/lrmat.hpp
@@ -120,6 +120,10 @@ class LowRankMatrix {
     }
 
     void copy_to_dense(CoefficientPrecision *const out) const {
+        if (m_U.nb_cols() == 0) {
+            std::fill(out, out + m_U.nb_rows() * m_V.nb_cols(), CoefficientPrecision(0));
+            return;
+        }
         char transa                = 'N';
         char transb                = 'N';
         int M                      = m_U.nb_rows();
-- 
2.43.0


From 106ecf5aefe4deb3d7e1bb7c57ce1f8d480e01c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 11/55] fix: diagonal of an hmatrix whose leaves cross the
 diagonal off-centre or are rectangular low-rank

---
 include/htool/hmatrix/hmatrix.hpp | 34 ++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 314600e..f6544ce 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -388,15 +388,18 @@ void copy_diagonal(const HMatrix<CoefficientPrecision, CoordinatePrecision> &hma
         int local_nc = leaf->get_source_cluster().get_size();
         int offset_i = leaf->get_target_cluster().get_offset() - target_offset;
         int offset_j = leaf->get_source_cluster().get_offset() - source_offset;
-        if (leaf->is_dense() && offset_i == offset_j) {
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[k + offset_i] = (*leaf->get_dense_data())(k, k);
+        // part of the diagonal inside the leaf, whose rows and columns may start at different offsets
+        int begin = std::max(offset_i, offset_j);
+        int end   = std::min(offset_i + local_nr, offset_j + local_nc);
+        if (leaf->is_dense()) {
+            for (int k = begin; k < end; k++) {
+                ptr[k] = (*leaf->get_dense_data())(k - offset_i, k - offset_j);
             }
-        } else if (leaf->is_low_rank() && offset_i == offset_j) { // pretty rare...
-            Matrix<CoefficientPrecision> low_rank_to_dense(local_nc, local_nr);
+        } else if (leaf->is_low_rank() && begin < end) { // pretty rare...
+            Matrix<CoefficientPrecision> low_rank_to_dense(local_nr, local_nc);
             leaf->get_low_rank_data()->copy_to_dense(low_rank_to_dense.data());
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[k + offset_i] = (low_rank_to_dense)(k, k);
+            for (int k = begin; k < end; k++) {
+                ptr[k] = low_rank_to_dense(k - offset_i, k - offset_j);
             }
         }
     }
@@ -428,15 +431,18 @@ void copy_diagonal_in_user_numbering(const HMatrix<CoefficientPrecision, Coordin
         int local_nc = leaf->get_source_cluster().get_size();
         int offset_i = leaf->get_target_cluster().get_offset();
         int offset_j = leaf->get_source_cluster().get_offset();
-        if (leaf->is_dense() && offset_i == offset_j) {
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[permutation[k + offset_i] - target_offset] = (*leaf->get_dense_data())(k, k);
+        // part of the diagonal inside the leaf, whose rows and columns may start at different offsets
+        int begin = std::max(offset_i, offset_j);
+        int end   = std::min(offset_i + local_nr, offset_j + local_nc);
+        if (leaf->is_dense()) {
+            for (int k = begin; k < end; k++) {
+                ptr[permutation[k] - target_offset] = (*leaf->get_dense_data())(k - offset_i, k - offset_j);
             }
-        } else if (leaf->is_low_rank() && offset_i == offset_j) { // pretty rare...
-            Matrix<CoefficientPrecision> low_rank_to_dense(local_nc, local_nr);
+        } else if (leaf->is_low_rank() && begin < end) { // pretty rare...
+            Matrix<CoefficientPrecision> low_rank_to_dense(local_nr, local_nc);
             leaf->get_low_rank_data()->copy_to_dense(low_rank_to_dense.data());
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[permutation[k + offset_i] - target_offset] = (low_rank_to_dense)(k, k);
+            for (int k = begin; k < end; k++) {
+                ptr[permutation[k] - target_offset] = low_rank_to_dense(k - offset_i, k - offset_j);
             }
         }
     }
-- 
2.43.0


From f89c3b25736245489d4cd9eb89b842a1937c7437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 12/55] fix: triangular solve with an empty right-hand side
 (rank-zero block) returns at once

---
 .../htool/hmatrix/linalg/triangular_hmatrix_matrix_solve.hpp   | 3 +++
 include/htool/matrix/linalg/factorization.hpp                  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/htool/hmatrix/linalg/triangular_hmatrix_matrix_solve.hpp b/include/htool/hmatrix/linalg/triangular_hmatrix_matrix_solve.hpp
index 0f25642..c09d48e 100644
--- a/include/htool/hmatrix/linalg/triangular_hmatrix_matrix_solve.hpp
+++ b/include/htool/hmatrix/linalg/triangular_hmatrix_matrix_solve.hpp
@@ -16,6 +16,9 @@
 namespace htool {
 template <typename CoefficientPrecision, typename CoordinatePrecision = underlying_type<CoefficientPrecision>>
 void internal_triangular_hmatrix_matrix_solve_row_major(char side, char UPLO, char transa, char diag, CoefficientPrecision alpha, const HMatrix<CoefficientPrecision, CoordinatePrecision> &A, Matrix<CoefficientPrecision> &Bt) {
+    if (Bt.nb_rows() == 0 || Bt.nb_cols() == 0) {
+        return;
+    }
     if (alpha != CoefficientPrecision(1)) {
         scale(alpha, Bt);
     }
diff --git a/include/htool/matrix/linalg/factorization.hpp b/include/htool/matrix/linalg/factorization.hpp
index 02619b0..e9e255f 100644
--- a/include/htool/matrix/linalg/factorization.hpp
+++ b/include/htool/matrix/linalg/factorization.hpp
@@ -24,6 +24,9 @@ template <typename T>
 void triangular_matrix_matrix_solve(char side, char UPLO, char transa, char diag, T alpha, const Matrix<T> &A, Matrix<T> &B) {
     int m           = B.nb_rows();
     int n           = B.nb_cols();
+    if (m == 0 || n == 0) {
+        return;
+    }
     int lda         = side == 'L' ? m : n;
     int ldb         = m;
     auto &ipiv      = A.get_pivots();
-- 
2.43.0


From 0c737ad4779206013d67e6b12739c7cf15335531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 13/55] fix: hierarchical Cholesky updates off-diagonal blocks
 with both factors

---
 include/htool/hmatrix/linalg/factorization.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/htool/hmatrix/linalg/factorization.hpp b/include/htool/hmatrix/linalg/factorization.hpp
index 6124716..4f7e78a 100644
--- a/include/htool/hmatrix/linalg/factorization.hpp
+++ b/include/htool/hmatrix/linalg/factorization.hpp
@@ -133,19 +133,21 @@ void cholesky_factorization(char UPLO, HMatrix<CoefficientPrecision, CoordinateP
                     if (UPLO == 'L' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && output_cluster_child->get_offset() >= input_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
                         const HMatrix<CoefficientPrecision, CoordinatePrecision> *L = hmatrix.get_sub_hmatrix(*output_cluster_child, *cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *R = hmatrix.get_sub_hmatrix(*input_cluster_child, *cluster_child);
 
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'N', CoefficientPrecision(-1), *L, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L, *L, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L, *R, CoefficientPrecision(1), *A_child);
                         // }
                     } else if (UPLO == 'U' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() >= output_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *L = hmatrix.get_sub_hmatrix(*cluster_child, *output_cluster_child);
                         const HMatrix<CoefficientPrecision, CoordinatePrecision> *U = hmatrix.get_sub_hmatrix(*cluster_child, *input_cluster_child);
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'C', CoefficientPrecision(-1), *U, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *U, *U, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *L, *U, CoefficientPrecision(1), *A_child);
                         // }
                     }
                 }
-- 
2.43.0


From 7af8a48454554b191cb8241b6fd65a892c8bc18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 14/55] fix: copy constructor of an hmatrix keeps the symmetry
 of its leaves

---
 include/htool/hmatrix/hmatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index f6544ce..c0c224e 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -57,7 +57,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
     // Child constructor
     HMatrix(const HMatrix &parent, const Cluster<CoordinatePrecision> *target_cluster, const Cluster<CoordinatePrecision> *source_cluster) : TreeNode<HMatrix, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(parent), m_target_cluster(target_cluster), m_source_cluster(source_cluster) {}
 
-    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(), m_storage_type(rhs.m_storage_type) {
+    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(rhs.m_symmetry_type_for_leaves), m_UPLO_for_leaves(rhs.m_UPLO_for_leaves), m_storage_type(rhs.m_storage_type) {
         if (m_target_cluster->is_root() or is_cluster_on_partition(*m_target_cluster)) {
             Logger::get_instance().log(LogLevel::INFO, "Deep copy of HMatrix");
         }
-- 
2.43.0


From 65a85aced13241d5e008e22be11f2dff62295383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 15/55] fix: assigning an hmatrix drops the data the target
 held before

---
 include/htool/hmatrix/hmatrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index c0c224e..c74b8a2 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -95,6 +95,8 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         m_symmetry_type_for_leaves = rhs.m_symmetry_type_for_leaves;
         m_UPLO_for_leaves          = rhs.m_UPLO_for_leaves;
 
+        m_dense_data.reset();
+        m_low_rank_data.reset();
         if (rhs.m_dense_data) {
             m_dense_data = std::make_unique<Matrix<CoefficientPrecision>>(*rhs.m_dense_data);
         }
-- 
2.43.0


From 238000fbb834b1795947b5e7430714c98b71d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 16/55] fix: smallest block sizes reported for an hmatrix were
 capped by its number of rows or columns

---
 include/htool/hmatrix/hmatrix_output.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/hmatrix_output.hpp b/include/htool/hmatrix/hmatrix_output.hpp
index 0e7891d..4faa983 100644
--- a/include/htool/hmatrix/hmatrix_output.hpp
+++ b/include/htool/hmatrix/hmatrix_output.hpp
@@ -11,6 +11,7 @@
 #include <fstream>                 // for basic_ostream, operator<<, cha...
 #include <iomanip>                 // for operator<<, setfill, setw
 #include <iterator>                // for distance
+#include <limits>                  // for numeric_limits
 #include <map>                     // for map
 #include <string>                  // for basic_string, to_string, opera...
 #include <vector>                  // for vector, allocator
@@ -142,7 +143,7 @@ std::map<std::string, std::string> get_hmatrix_information(const HMatrix<Coeffic
     // 0 : dense mat ; 1 : lr mat ; 2 : rank ; 3 : local_size
     std::array<std::size_t, 3> maxinfos = {0, 0, 0};
     std::array<double, 3> meaninfos     = {0, 0, 0};
-    std::array<std::size_t, 3> mininfos = {std::max(nb_cols, nb_rows), std::max(nb_cols, nb_rows), std::max(nb_cols, nb_rows)};
+    std::array<std::size_t, 3> mininfos = {std::numeric_limits<std::size_t>::max(), std::numeric_limits<std::size_t>::max(), std::numeric_limits<std::size_t>::max()};
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> dense_blocks;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> low_rank_blocks;
     get_leaves(hmatrix, dense_blocks, low_rank_blocks);
-- 
2.43.0


From 3912b1380c42066cc0e77c2fea3dc9a36234d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 17/55] fix: smallest block sizes and rank over processes were
 capped by the size of processes without such blocks

---
 include/htool/hmatrix/hmatrix_distributed_output.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/hmatrix_distributed_output.hpp b/include/htool/hmatrix/hmatrix_distributed_output.hpp
index 6f671eb..a8556a1 100644
--- a/include/htool/hmatrix/hmatrix_distributed_output.hpp
+++ b/include/htool/hmatrix/hmatrix_distributed_output.hpp
@@ -12,6 +12,7 @@
 #include <cstddef>                             // for size_t
 #include <iomanip>                             // for operator<<, setfill, setw
 #include <iostream>                            // for basic_ostream, basic_ios, bas...
+#include <limits>                              // for numeric_limits
 #include <map>                                 // for map
 #include <mpi.h>                               // for MPI_Reduce, MPI_DOUBLE, MPI_I...
 #include <string>                              // for basic_string, to_string, oper...
@@ -43,7 +44,7 @@ std::map<std::string, std::string> get_distributed_hmatrix_information(const HMa
     // 0 : dense mat size ; 1 : lr mat size ; 2 : rank ; 3 : nb_rows, 4: nb_cols
     std::array<std::size_t, 5> maxinfos = {0, 0, 0, local_nb_rows, local_nb_cols};
     std::array<double, 5> meaninfos     = {0, 0, 0, double(local_nb_rows), double(local_nb_cols)};
-    std::array<std::size_t, 5> mininfos = {local_size, local_size, local_size, local_nb_rows, local_nb_cols};
+    std::array<std::size_t, 5> mininfos = {std::numeric_limits<std::size_t>::max(), std::numeric_limits<std::size_t>::max(), std::numeric_limits<std::size_t>::max(), local_nb_rows, local_nb_cols};
 
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> local_dense_blocks;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> local_low_rank_blocks;
-- 
2.43.0


From c6ef71eb4391f5497b4a5ad231888ab9a1646dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 18/55] fix: compression ratio and space saving overflowed for
 hmatrices with more than 2^32 coefficients

---
 include/htool/hmatrix/hmatrix_distributed_output.hpp | 2 +-
 include/htool/hmatrix/hmatrix_output.hpp             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix_distributed_output.hpp b/include/htool/hmatrix/hmatrix_distributed_output.hpp
index a8556a1..07efc77 100644
--- a/include/htool/hmatrix/hmatrix_distributed_output.hpp
+++ b/include/htool/hmatrix/hmatrix_distributed_output.hpp
@@ -39,7 +39,7 @@ std::map<std::string, std::string> get_distributed_hmatrix_information(const HMa
 
     unsigned int local_nb_rows = hmatrix.get_target_cluster().get_size();
     unsigned int local_nb_cols = hmatrix.get_source_cluster().get_size();
-    std::size_t local_size     = local_nb_cols * local_nb_rows;
+    std::size_t local_size     = static_cast<std::size_t>(local_nb_cols) * local_nb_rows;
 
     // 0 : dense mat size ; 1 : lr mat size ; 2 : rank ; 3 : nb_rows, 4: nb_cols
     std::array<std::size_t, 5> maxinfos = {0, 0, 0, local_nb_rows, local_nb_cols};
diff --git a/include/htool/hmatrix/hmatrix_output.hpp b/include/htool/hmatrix/hmatrix_output.hpp
index 4faa983..0b9bbf8 100644
--- a/include/htool/hmatrix/hmatrix_output.hpp
+++ b/include/htool/hmatrix/hmatrix_output.hpp
@@ -206,8 +206,8 @@ std::map<std::string, std::string> get_hmatrix_information(const HMatrix<Coeffic
     hmatrix_information["Rank_min"]                  = std::to_string(mininfos[2]);
     hmatrix_information["Number_of_low_rank_blocks"] = std::to_string(low_rank_blocks.size());
     hmatrix_information["Number_of_dense_blocks"]    = std::to_string(dense_blocks.size());
-    hmatrix_information["Compression_ratio"]         = std::to_string((nb_rows * nb_cols) / number_of_generated_coefficient);
-    hmatrix_information["Space_saving"]              = std::to_string(1 - number_of_generated_coefficient / (nb_rows * nb_cols));
+    hmatrix_information["Compression_ratio"]         = std::to_string((static_cast<double>(nb_rows) * nb_cols) / number_of_generated_coefficient);
+    hmatrix_information["Space_saving"]              = std::to_string(1 - number_of_generated_coefficient / (static_cast<double>(nb_rows) * nb_cols));
 #if defined(_OPENMP)
     hmatrix_information["Number_of_threads"] = std::to_string(omp_get_max_threads());
 #endif
-- 
2.43.0


From 3d208cd3caa9e90d61c34a5f74e12f16fd49149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 19/55] fix: cluster trees did not remember the minimal cluster
 size they were built with

---
 include/htool/clustering/tree_builder/recursive_build.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/htool/clustering/tree_builder/recursive_build.hpp b/include/htool/clustering/tree_builder/recursive_build.hpp
index b2e6892..d860da1 100644
--- a/include/htool/clustering/tree_builder/recursive_build.hpp
+++ b/include/htool/clustering/tree_builder/recursive_build.hpp
@@ -71,6 +71,7 @@ Cluster<T> ClusterTreeBuilder<T>::create_cluster_tree(int number_of_points, int
     T radius              = compute_radius(spatial_dimension, coordinates, radii, center, 0, number_of_points);
 
     Cluster<T> root_cluster(radius, center, -1, 0, number_of_points);
+    root_cluster.set_minclustersize(m_minclustersize);
     std::vector<int> &permutation = root_cluster.get_permutation();
 
     // Taking care of partition initialisation
-- 
2.43.0


From ff4c69880b3f9de371af44095002ffc30f8b3a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 20/55] fix: recompression of a rank-zero low-rank matrix
 called LAPACK with an illegal argument

---
 include/htool/hmatrix/lrmat/utils/recompression.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/htool/hmatrix/lrmat/utils/recompression.hpp b/include/htool/hmatrix/lrmat/utils/recompression.hpp
index 7e64e13..0e6b161 100644
--- a/include/htool/hmatrix/lrmat/utils/recompression.hpp
+++ b/include/htool/hmatrix/lrmat/utils/recompression.hpp
@@ -22,6 +22,10 @@ void recompression(LowRankMatrix<CoefficientPrecision> &lrmat) {
     auto rank                      = lrmat.rank_of();
     auto epsilon                   = lrmat.get_epsilon();
 
+    if (rank == 0) { // nothing to recompress
+        return;
+    }
+
     if (rank > std::min(U.nb_rows(), V.nb_cols())) {
         Matrix<CoefficientPrecision> UV(U.nb_rows(), V.nb_cols());
         add_matrix_matrix_product('N', 'N', CoefficientPrecision(1), U, V, CoefficientPrecision(1), UV);
-- 
2.43.0


From cbf737cf3078244133af1b65d34f18892e2c5fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 21/55] fix: SVD compressor did not report the rank of its
 approximation

---
 include/htool/hmatrix/lrmat/SVD.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/htool/hmatrix/lrmat/SVD.hpp b/include/htool/hmatrix/lrmat/SVD.hpp
index 253ec32..c9bea79 100644
--- a/include/htool/hmatrix/lrmat/SVD.hpp
+++ b/include/htool/hmatrix/lrmat/SVD.hpp
@@ -42,6 +42,7 @@ class SVD final : public VirtualLowRankGenerator<CoefficientPrecision, Coordinat
         } else {
             truncated_rank = std::min(rank, std::min(M, N));
         }
+        rank = truncated_rank;
 
         if (truncated_rank > 0) {
             U.resize(M, truncated_rank);
-- 
2.43.0


From 0e77fa3543506039cad6e1ce65e3da9244f14a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 22/55] fix: moved-from dense matrix kept its size without its
 data

---
 include/htool/matrix/matrix.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 9298e3b..8fb6439 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -59,7 +59,9 @@ class Matrix {
         return *this;
     }
     Matrix(Matrix &&rhs) : m_number_of_rows(rhs.m_number_of_rows), m_number_of_cols(rhs.m_number_of_cols), m_data(rhs.m_data), m_is_owning_data(rhs.m_is_owning_data), m_pivots(rhs.m_pivots) {
-        rhs.m_data = nullptr;
+        rhs.m_data           = nullptr;
+        rhs.m_number_of_rows = 0;
+        rhs.m_number_of_cols = 0;
     }
 
     Matrix &operator=(Matrix &&rhs) {
@@ -70,8 +72,11 @@ class Matrix {
             m_number_of_cols = rhs.m_number_of_cols;
             m_data           = rhs.m_data;
             m_is_owning_data = rhs.m_is_owning_data;
-            rhs.m_data       = nullptr;
             m_pivots         = rhs.m_pivots;
+
+            rhs.m_data           = nullptr;
+            rhs.m_number_of_rows = 0;
+            rhs.m_number_of_cols = 0;
         }
         return *this;
     }
-- 
2.43.0


From 26a09b98c802c06ebe88fdb793aed795f19a1fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 23/55] fix: resizing a view to its own size took ownership of
 foreign memory

---
 include/htool/matrix/matrix.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 8fb6439..35c5fc3 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -225,18 +225,16 @@ class Matrix {
     the number of columns is set to _nbc_.
     */
     void resize(int nbr, int nbc, T value = 0) {
-        if (m_data != nullptr and m_is_owning_data and m_number_of_rows * m_number_of_cols != nbr * nbc) {
-            delete[] m_data;
-            m_data = nullptr;
-            m_data = new T[nbr * nbc];
-        } else if (m_number_of_rows * m_number_of_cols != nbr * nbc) {
-            m_data = new T[nbr * nbc];
+        if (m_data == nullptr or m_number_of_rows * m_number_of_cols != nbr * nbc) {
+            if (m_is_owning_data)
+                delete[] m_data;
+            m_data           = new T[nbr * nbc];
+            m_is_owning_data = true;
         }
 
         m_number_of_rows = nbr;
         m_number_of_cols = nbc;
         std::fill_n(m_data, nbr * nbc, value);
-        m_is_owning_data = true;
     }
 
     //! ### Matrix-scalar product
-- 
2.43.0


From 271feb667fcc002bca82021e605b52fcc380fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 24/55] fix: dense matrix kept the pivots of a factorisation
 after its content was replaced

---
 include/htool/matrix/linalg/factorization.hpp | 1 +
 include/htool/matrix/matrix.hpp               | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/include/htool/matrix/linalg/factorization.hpp b/include/htool/matrix/linalg/factorization.hpp
index e9e255f..7491299 100644
--- a/include/htool/matrix/linalg/factorization.hpp
+++ b/include/htool/matrix/linalg/factorization.hpp
@@ -93,6 +93,7 @@ void cholesky_factorization(char UPLO, Matrix<T> &A) {
     int lda = M;
     int info;
 
+    A.get_pivots().clear();
     Lapack<T>::potrf(&UPLO, &M, A.data(), &lda, &info);
 }
 
diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 35c5fc3..edb5a30 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -89,6 +89,7 @@ class Matrix {
     void operator=(const T &z) {
         if (m_number_of_rows * m_number_of_cols > 0)
             std::fill_n(m_data, m_number_of_rows * m_number_of_cols, z);
+        m_pivots.clear();
     }
     //! ### Access operator
     /*!
@@ -137,6 +138,7 @@ class Matrix {
         m_number_of_cols = number_of_cols;
         m_data           = ptr;
         m_is_owning_data = owning_data;
+        m_pivots.clear();
     }
 
     int nb_cols() const { return m_number_of_cols; }
@@ -235,6 +237,7 @@ class Matrix {
         m_number_of_rows = nbr;
         m_number_of_cols = nbc;
         std::fill_n(m_data, nbr * nbc, value);
+        m_pivots.clear();
     }
 
     //! ### Matrix-scalar product
@@ -669,6 +672,7 @@ class Matrix {
         if (m_number_of_rows != 0 && m_number_of_cols != 0 && m_is_owning_data)
             delete[] m_data;
         m_data           = new T[rows * cols];
+        m_pivots.clear();
         m_number_of_rows = rows;
         m_number_of_cols = cols;
         m_is_owning_data = true;
-- 
2.43.0


From 70a0a3ee4d3f27a81fe8bd87c3bec7e44b03553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 25/55] fix: dense products with empty operands called BLAS
 with illegal arguments or ignored beta

---
 .../linalg/add_matrix_matrix_product.hpp      | 19 ++++++-----
 .../add_matrix_matrix_product_row_major.hpp   | 34 +++++++++----------
 .../linalg/add_matrix_vector_product.hpp      |  5 +++
 3 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/include/htool/matrix/linalg/add_matrix_matrix_product.hpp b/include/htool/matrix/linalg/add_matrix_matrix_product.hpp
index 4db4e08..583b1d8 100644
--- a/include/htool/matrix/linalg/add_matrix_matrix_product.hpp
+++ b/include/htool/matrix/linalg/add_matrix_matrix_product.hpp
@@ -3,6 +3,7 @@
 
 #include "../../matrix/matrix.hpp"         // for Matrix
 #include "../../wrappers/wrapper_blas.hpp" // for Blas
+#include <algorithm>                       // for max
 namespace htool {
 
 // template <typename T>
@@ -32,9 +33,9 @@ void add_matrix_matrix_product(char transa, char transb, T alpha, const Matrix<T
     int M   = C.nb_rows();
     int N   = C.nb_cols();
     int K   = transa == 'N' ? A.nb_cols() : A.nb_rows(); // also transa == 'N' ? B.nb_rows() : B.nb_cols();
-    int lda = transa == 'N' ? M : K;
-    int ldb = transb == 'N' ? K : N;
-    int ldc = M;
+    int lda = std::max(1, transa == 'N' ? M : K);
+    int ldb = std::max(1, transb == 'N' ? K : N);
+    int ldc = std::max(1, M);
 
     Blas<T>::gemm(&transa, &transb, &M, &N, &K, &alpha, A.data(), &lda, B.data(), &ldb, &beta, C.data(), &ldc);
 
@@ -100,9 +101,9 @@ template <typename T>
 void add_symmetric_matrix_matrix_product(char side, char UPLO, T alpha, const Matrix<T> &A, const Matrix<T> &B, T beta, Matrix<T> &C) {
     int M   = C.nb_rows();
     int N   = C.nb_cols();
-    int lda = (side == 'L') ? M : N;
-    int ldb = M;
-    int ldc = M;
+    int lda = std::max(1, (side == 'L') ? M : N);
+    int ldb = std::max(1, M);
+    int ldc = std::max(1, M);
     Blas<T>::symm(&side, &UPLO, &M, &N, &alpha, A.data(), &lda, B.data(), &ldb, &beta, C.data(), &ldc);
 }
 
@@ -110,9 +111,9 @@ template <typename T>
 void add_hermitian_matrix_matrix_product(char side, char UPLO, T alpha, const Matrix<T> &A, const Matrix<T> &B, T beta, Matrix<T> &C) {
     int M   = C.nb_rows();
     int N   = C.nb_cols();
-    int lda = (side == 'L') ? M : N;
-    int ldb = M;
-    int ldc = M;
+    int lda = std::max(1, (side == 'L') ? M : N);
+    int ldb = std::max(1, M);
+    int ldc = std::max(1, M);
     Blas<T>::hemm(&side, &UPLO, &M, &N, &alpha, A.data(), &lda, B.data(), &ldb, &beta, C.data(), &ldc);
 }
 
diff --git a/include/htool/matrix/linalg/add_matrix_matrix_product_row_major.hpp b/include/htool/matrix/linalg/add_matrix_matrix_product_row_major.hpp
index 762cfd7..9492229 100644
--- a/include/htool/matrix/linalg/add_matrix_matrix_product_row_major.hpp
+++ b/include/htool/matrix/linalg/add_matrix_matrix_product_row_major.hpp
@@ -4,7 +4,7 @@
 #include "../../matrix/matrix.hpp"         // for Matrix
 #include "../../misc/misc.hpp"             // for conj_if_complex
 #include "../../wrappers/wrapper_blas.hpp" // for Blas
-#include <algorithm>                       // for transform
+#include <algorithm>                       // for max, transform
 #include <complex>                         // for complex, conj
 #include <vector>                          // for vector
 namespace htool {
@@ -38,9 +38,9 @@ void add_matrix_matrix_product_row_major(char transa, char transb, T alpha, cons
         K               = nr;
     }
 
-    int lda = inverted_transa == 'N' ? M : K;
-    int ldb = inverted_transb == 'N' ? K : N;
-    int ldc = M;
+    int lda = std::max(1, inverted_transa == 'N' ? M : K);
+    int ldb = std::max(1, inverted_transb == 'N' ? K : N);
+    int ldc = std::max(1, M);
 
     Blas<T>::gemm(&inverted_transa, &inverted_transb, &M, &N, &K, &alpha, in, &lda, A.data(), &ldb, &beta, out, &ldc);
 }
@@ -64,18 +64,18 @@ void add_matrix_matrix_product_row_major(char transa, char transb, std::complex<
         K               = nr;
     }
 
-    int lda = inverted_transa == 'N' ? M : K;
-    int ldb = inverted_transb == 'N' ? K : N;
-    int ldc = M;
+    int lda = std::max(1, inverted_transa == 'N' ? M : K);
+    int ldb = std::max(1, inverted_transb == 'N' ? K : N);
+    int ldc = std::max(1, M);
 
     std::vector<std::complex<T>> buffer_A(transa == 'C' ? nr * nc : 0);
-    std::vector<std::complex<T>> buffer_B(transb == 'C' ? M * lda : 0);
+    std::vector<std::complex<T>> buffer_B(transb == 'C' ? M * K : 0);
 
     if (transa == 'C') {
         std::transform(A.data(), A.data() + nr * nc, buffer_A.data(), [](const std::complex<T> &c) { return std::conj(c); });
     }
     if (transb == 'C') {
-        std::transform(in, in + M * lda, buffer_B.data(), [](const std::complex<T> &c) { return std::conj(c); });
+        std::transform(in, in + M * K, buffer_B.data(), [](const std::complex<T> &c) { return std::conj(c); });
     }
 
     const std::complex<T> *B_final = transb != 'C' ? in : buffer_B.data();
@@ -91,15 +91,15 @@ void add_symmetric_matrix_matrix_product_row_major(char side, char UPLO, T alpha
         char inverted_side = 'R';
         int M              = mu;
         int N              = nr;
-        int lda            = N;
+        int lda            = std::max(1, N);
         if (side == 'R') {
             inverted_side = 'L';
             M             = nr;
             N             = mu;
-            lda           = M;
+            lda           = std::max(1, M);
         }
-        int ldb = M;
-        int ldc = M;
+        int ldb = std::max(1, M);
+        int ldc = std::max(1, M);
 
         Blas<T>::symm(&inverted_side, &UPLO, &M, &N, &alpha, A.data(), &lda, in, &ldb, &beta, out, &ldc);
     }
@@ -118,15 +118,15 @@ void add_hermitian_matrix_matrix_product_row_major(char side, char UPLO, std::co
         char inverted_side = 'R';
         int M              = mu;
         int N              = nr;
-        int lda            = N;
+        int lda            = std::max(1, N);
         if (side == 'R') {
             inverted_side = 'L';
             M             = nr;
             N             = mu;
-            lda           = M;
+            lda           = std::max(1, M);
         }
-        int ldb = M;
-        int ldc = M;
+        int ldb = std::max(1, M);
+        int ldc = std::max(1, M);
 
         std::vector<std::complex<T>> conjugate_in(nr * mu);
         std::complex<T> conjugate_alpha = std::conj(alpha);
diff --git a/include/htool/matrix/linalg/add_matrix_vector_product.hpp b/include/htool/matrix/linalg/add_matrix_vector_product.hpp
index a716c02..b202a59 100644
--- a/include/htool/matrix/linalg/add_matrix_vector_product.hpp
+++ b/include/htool/matrix/linalg/add_matrix_vector_product.hpp
@@ -13,6 +13,11 @@ void add_matrix_vector_product(char trans, T alpha, const Matrix<T> &A, const T
     int lda  = nr;
     int incx = 1;
     int incy = 1;
+    if (nr == 0 || nc == 0) { // gemv would ignore beta
+        int size_out = trans == 'N' ? nr : nc;
+        Blas<T>::scal(&size_out, &beta, out, &incy);
+        return;
+    }
     Blas<T>::gemv(&trans, &nr, &nc, &alpha, A.data(), &lda, in, &incx, &beta, out, &incy);
 }
 
-- 
2.43.0


From 1d1a3e3c90deda3d2d28eb5b2f99881dd070e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:54 +0000
Subject: [PATCH 26/55] fix: compression ratio of a low-rank matrix overflowed
 for large blocks

---
 include/htool/hmatrix/lrmat/lrmat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/lrmat/lrmat.hpp b/include/htool/hmatrix/lrmat/lrmat.hpp
index 99842cd..479de51 100644
--- a/include/htool/hmatrix/lrmat/lrmat.hpp
+++ b/include/htool/hmatrix/lrmat/lrmat.hpp
@@ -139,7 +139,7 @@ class LowRankMatrix {
     }
 
     double compression_ratio() const {
-        return (m_U.nb_rows() * m_V.nb_cols()) / (double)(m_U.nb_cols() * (m_U.nb_rows() + m_V.nb_cols()));
+        return (double(m_U.nb_rows()) * m_V.nb_cols()) / (double(m_U.nb_cols()) * (double(m_U.nb_rows()) + m_V.nb_cols()));
     }
 
     double space_saving() const {
-- 
2.43.0


From 639f7000db2feae9987f7ee425060364677482d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:51 +0000
Subject: [PATCH 27/55] fix: adding a low-rank matrix into a rank-zero one
 without sized factors wrote out of bounds

---
 include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp
index f888f4a..e7c10dd 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp
@@ -24,8 +24,8 @@ void add_lrmat_lrmat(const LowRankMatrix<CoefficientPrecision, CoordinatePrecisi
         auto &V_Y = Y_lrmat.get_V();
 
         if (C_is_overwritten) {
-            U_Y.resize(Y_lrmat.nb_rows(), X_lrmat.rank_of());
-            V_Y.resize(X_lrmat.rank_of(), Y_lrmat.nb_cols());
+            U_Y.resize(Y_target_cluster.get_size(), X_lrmat.rank_of());
+            V_Y.resize(X_lrmat.rank_of(), Y_source_cluster.get_size());
 
             for (int i = 0; i < U_X.nb_cols(); i++) {
                 std::copy_n(U_X.data() + U_X.nb_rows() * i, U_X.nb_rows(), U_Y.data() + i * U_Y.nb_rows() + row_offset);
@@ -70,8 +70,8 @@ void add_lrmat_lrmat(const LowRankMatrix<CoefficientPrecision, CoordinatePrecisi
         auto &V_Y = Y_lrmat.get_V();
 
         if (C_is_overwritten) {
-            U_Y.resize(Y_lrmat.nb_rows(), X_lrmat.rank_of());
-            V_Y.resize(X_lrmat.rank_of(), Y_lrmat.nb_cols());
+            U_Y.resize(Y_target_cluster.get_size(), X_lrmat.rank_of());
+            V_Y.resize(X_lrmat.rank_of(), Y_source_cluster.get_size());
 
             for (int i = 0; i < U_X.nb_cols(); i++) {
                 std::copy_n(U_X.data() + U_X.nb_rows() * i + row_offset, U_Y.nb_rows(), U_Y.data() + i * U_Y.nb_rows());
-- 
2.43.0


From ede1dd128eda374d15c02684a24756e3731e0c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:51 +0000
Subject: [PATCH 28/55] fix: writing a vector to a stream sent its elements to
 the standard output

---
 include/htool/basic_types/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/basic_types/vector.hpp b/include/htool/basic_types/vector.hpp
index e19266d..223ade3 100644
--- a/include/htool/basic_types/vector.hpp
+++ b/include/htool/basic_types/vector.hpp
@@ -27,7 +27,7 @@ std::ostream &operator<<(std::ostream &out, const std::vector<T> &v) {
     if (!v.empty()) {
         out << '[';
         for (typename std::vector<T>::const_iterator i = v.begin(); i != v.end(); ++i)
-            std::cout << *i << ',';
+            out << *i << ',';
         out << "\b]";
     }
     return out;
-- 
2.43.0


From 005d0aed856e18c241be14ace80b54f5a76e46d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:51 +0000
Subject: [PATCH 29/55] fix: product of a vector by a scalar on its right did
 not compile

---
 include/htool/basic_types/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/basic_types/vector.hpp b/include/htool/basic_types/vector.hpp
index 223ade3..bc9a69e 100644
--- a/include/htool/basic_types/vector.hpp
+++ b/include/htool/basic_types/vector.hpp
@@ -71,7 +71,7 @@ std::vector<T> mult(T value, const std::vector<T> &a) {
 
 template <typename T>
 std::vector<T> mult(const std::vector<T> &b, T value) {
-    return value * b;
+    return mult(value, b);
 }
 
 template <typename T, typename V>
-- 
2.43.0


From a5090f4fe26c0b809f77b2dad2f6ba9741acd2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 30/55] fix: assigning to a dense matrix whose data was
 released wrote through a null pointer

---
 include/htool/matrix/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index edb5a30..5b173d4 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -41,7 +41,7 @@ class Matrix {
         if (&rhs == this) {
             return *this;
         }
-        if (m_number_of_rows * m_number_of_cols == rhs.m_number_of_cols * rhs.m_number_of_rows) {
+        if (m_data != nullptr && m_number_of_rows * m_number_of_cols == rhs.m_number_of_cols * rhs.m_number_of_rows) {
             std::copy_n(rhs.m_data, m_number_of_rows * m_number_of_cols, m_data);
             m_number_of_rows = rhs.m_number_of_rows;
             m_number_of_cols = rhs.m_number_of_cols;
-- 
2.43.0


From c0e58603fc27d6bc2de7ed6564b3a2bc8c54e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 31/55] fix: dense matrices without coefficients leaked their
 allocation when given other data

---
 include/htool/matrix/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 5b173d4..9434ce4 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -131,7 +131,7 @@ class Matrix {
     }
 
     void assign(int number_of_rows, int number_of_cols, T *ptr, bool owning_data) {
-        if (m_number_of_rows * m_number_of_cols > 0 && m_is_owning_data)
+        if (m_is_owning_data)
             delete[] m_data;
 
         m_number_of_rows = number_of_rows;
@@ -669,7 +669,7 @@ class Matrix {
         int rows = 0, cols = 0;
         in.read((char *)(&rows), sizeof(int));
         in.read((char *)(&cols), sizeof(int));
-        if (m_number_of_rows != 0 && m_number_of_cols != 0 && m_is_owning_data)
+        if (m_is_owning_data)
             delete[] m_data;
         m_data           = new T[rows * cols];
         m_pivots.clear();
-- 
2.43.0


From 2e31cf3befb05a52b215a1a1cda670895d85df00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 32/55] fix: joining strings dropped the delimiters after
 leading empty strings

---
 include/htool/misc/user.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/misc/user.hpp b/include/htool/misc/user.hpp
index 8e23c02..0483fcc 100644
--- a/include/htool/misc/user.hpp
+++ b/include/htool/misc/user.hpp
@@ -41,7 +41,7 @@ inline std::vector<std::string> split(const std::string &s, const std::string &d
 }
 
 inline std::string join(std::string delimiter, std::vector<std::string> x) {
-    return std::accumulate(x.begin(), x.end(), std::string(), [&](std::string ss, const std::string &s) { return ss.empty() ? s : ss + delimiter + s; });
+    return x.empty() ? std::string() : std::accumulate(x.begin() + 1, x.end(), x.front(), [&](std::string ss, const std::string &s) { return ss + delimiter + s; });
 }
 } // namespace htool
 
-- 
2.43.0


From def13044c135c2b304bc2be992eafeeaf25ac9a2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 33/55] fix: products with a range of columns were wrong when
 the range and the local operator's columns differ

---
 .../distributed_operator.hpp                  | 11 ++++++++-
 .../htool/local_operators/local_operator.hpp  | 24 +++++++++----------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index c3705c0..b86bd99 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -665,8 +665,17 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_l
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_sub_matrix_product_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const {
+    int rankWorld;
+    MPI_Comm_rank(m_comm, &rankWorld);
+    int local_size = m_target_partition.get_size_of_partition(rankWorld);
+    std::fill_n(out, local_size * mu, CoefficientPrecision(0));
+
+    // each local operator overwrites its output
+    std::vector<CoefficientPrecision> temp(local_size * mu);
     for (auto &local_operator : m_local_operators) {
-        local_operator->sub_matrix_product_to_local(in, out, mu, offset, size);
+        std::fill(temp.begin(), temp.end(), CoefficientPrecision(0));
+        local_operator->sub_matrix_product_to_local(in, temp.data(), mu, offset, size);
+        std::transform(out, out + local_size * mu, temp.data(), out, std::plus<CoefficientPrecision>());
     }
 }
 
diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 93104a3..ccd23a2 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -36,7 +36,8 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
     virtual void local_add_matrix_product_symmetric_row_major(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu, char UPLO, char symmetry) const = 0;
 
     virtual void local_sub_matrix_vector_product(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const {
-        std::vector<CoefficientPrecision> temp(m_source_cluster.get_size() * mu, 0);
+        // the product reads its input at the offset of the source cluster
+        std::vector<CoefficientPrecision> temp((m_source_cluster.get_offset() + m_source_cluster.get_size()) * mu, 0);
         std::copy_n(in, size * mu, temp.data() + offset * mu);
         add_matrix_product_global_to_local(1, temp.data(), 0, out, mu);
     }
@@ -212,22 +213,21 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
     }
 
     void sub_matrix_product_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const override {
-        int source_offset   = m_source_cluster.get_offset();
-        int source_size     = m_source_cluster.get_size();
-        bool is_output_null = ((offset + size) < source_offset) || (source_offset + m_source_cluster.get_size() < offset);
+        // columns of the local operator that belong to the range
+        int source_offset = m_source_cluster.get_offset();
+        int source_size   = m_source_cluster.get_size();
+        int temp_offset   = std::max(offset, source_offset);
+        int temp_size     = std::min(offset + size, source_offset + source_size) - temp_offset;
 
-        if (!is_output_null) {
+        if (temp_size > 0) {
             // Same size as local operator
-            if (source_offset == offset && source_size + source_offset == size + offset)
+            if (source_offset == offset && source_size == size && m_symmetry == 'N' && !m_target_use_permutation_to_mvprod && !m_source_use_permutation_to_mvprod)
                 local_add_matrix_product_row_major('N', 1, in, 0, out, mu);
             else {
-
-                int temp_offset                           = std::max(offset, source_offset);
-                const CoefficientPrecision *const temp_in = (offset < source_offset) ? in + source_offset - offset : in;
-                int temp_size                             = (size + offset <= source_size + source_offset) ? size - std::max(source_offset - offset, 0) : size - std::max(source_offset - offset, 0) - (size + offset - source_offset - source_size);
-
-                local_sub_matrix_vector_product(temp_in, out, mu, temp_offset, temp_size);
+                local_sub_matrix_vector_product(in + (temp_offset - offset) * mu, out, mu, temp_offset, temp_size);
             }
+        } else {
+            std::fill_n(out, m_target_cluster.get_size() * mu, CoefficientPrecision(0));
         }
         // std::vector<CoefficientPrecision> test(source_size * mu, 0);
         // std::copy_n(in, size * mu, test.data() + offset * mu);
-- 
2.43.0


From 07fb0523cb7b4e9afeeffd49de1a77562157e39d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 34/55] fix: transposed products with several right-hand sides
 lost the contributions of all but the last local operator

---
 .../htool/local_operators/local_operator.hpp  | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index ccd23a2..740750b 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -183,14 +183,18 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         // Local to local product
         if (m_symmetry == 'N') {
-            local_add_matrix_product_row_major('T', alpha, input, beta, output_perm.data(), mu);
+            local_add_matrix_product_row_major('T', alpha, input, 0, output_perm.data(), mu);
         } else if (m_symmetry == 'S' || m_symmetry == 'H') {
-            local_add_matrix_product_symmetric_row_major('T', alpha, input, beta, output_perm.data(), mu, m_UPLO, m_symmetry);
+            local_add_matrix_product_symmetric_row_major('T', alpha, input, 0, output_perm.data(), mu, m_UPLO, m_symmetry);
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
         }
 
+        if (m_symmetry == 'H') {
+            conj_if_complex<CoefficientPrecision>(output_perm.data(), nc * mu);
+        }
+
         // Permutation + transpose
         if (m_source_use_permutation_to_mvprod) {
             for (int i = 0; i < mu; i++) {
@@ -201,15 +205,14 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
             }
             for (int i = 0; i < mu; i++) {
                 for (int j = 0; j < nc; j++) {
-                    out[i + (m_source_cluster.get_offset() + j) * mu] = buffer_out[nc + j + i * nc];
+                    output_perm[i + j * mu] = buffer_out[nc + j + i * nc];
                 }
             }
-        } else { // we have to conjugate to apply in this particular case
-            std::copy_n(output_perm.data(), output_perm.size(), out + m_source_cluster.get_offset() * mu);
-        }
-        if (m_symmetry == 'H') {
-            conj_if_complex<CoefficientPrecision>(out + m_source_cluster.get_offset() * mu, nc * mu);
         }
+
+        // Other local operators may contribute to the same output
+        CoefficientPrecision *output = out + m_source_cluster.get_offset() * mu;
+        std::transform(output_perm.begin(), output_perm.end(), output, output, [beta](const CoefficientPrecision &product, const CoefficientPrecision &previous) { return beta == CoefficientPrecision(0) ? product : product + beta * previous; });
     }
 
     void sub_matrix_product_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const override {
-- 
2.43.0


From 41149d8b9b979276028ce394154cc2b4ede3620e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 35/55] fix: transposed products of a Hermitian local operator

---
 include/htool/local_operators/local_operator.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 740750b..ed446ad 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -152,9 +152,15 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_vector_product('T', alpha, in, beta, output);
-        } else if (m_symmetry == 'S' || m_symmetry == 'H') {
+        } else if (m_symmetry == 'S') {
             // m_data.add_vector_product('T', alpha, in, beta, output);
             local_add_vector_product_symmetric('T', alpha, in, beta, output, m_UPLO, m_symmetry);
+        } else if (m_symmetry == 'H') { // the transpose is the conjugate of the adjoint
+            std::vector<CoefficientPrecision> input_conj(in, in + m_target_cluster.get_size());
+            conj_if_complex<CoefficientPrecision>(input_conj.data(), input_conj.size());
+            conj_if_complex<CoefficientPrecision>(output, m_source_cluster.get_size());
+            local_add_vector_product_symmetric('C', conj_if_complex<CoefficientPrecision>(alpha), input_conj.data(), conj_if_complex<CoefficientPrecision>(beta), output, m_UPLO, m_symmetry);
+            conj_if_complex<CoefficientPrecision>(output, m_source_cluster.get_size());
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
@@ -184,8 +190,10 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_matrix_product_row_major('T', alpha, input, 0, output_perm.data(), mu);
-        } else if (m_symmetry == 'S' || m_symmetry == 'H') {
+        } else if (m_symmetry == 'S') {
             local_add_matrix_product_symmetric_row_major('T', alpha, input, 0, output_perm.data(), mu, m_UPLO, m_symmetry);
+        } else if (m_symmetry == 'H') { // the transpose is the conjugate of the adjoint
+            local_add_matrix_product_symmetric_row_major('C', conj_if_complex<CoefficientPrecision>(alpha), input, 0, output_perm.data(), mu, m_UPLO, m_symmetry);
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
-- 
2.43.0


From d87312fd56d0650fe4009368321faf3238a132e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 36/55] fix: renumbering of the rows of a local operator was
 ignored by products

---
 .../htool/local_operators/local_operator.hpp  | 51 ++++++++++++++++---
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index ed446ad..906ae20 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -118,6 +118,19 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         const CoefficientPrecision *input = m_source_use_permutation_to_mvprod || m_symmetry == 'H' ? in_perm.data() : in + m_source_cluster.get_offset() * mu;
 
+        std::vector<CoefficientPrecision> column(m_target_use_permutation_to_mvprod ? 2 * nr : 0);
+        if (m_target_use_permutation_to_mvprod) {
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nr; j++) {
+                    column[j] = out[i + j * mu];
+                }
+                user_to_cluster(m_target_cluster, column.data(), column.data() + nr);
+                for (int j = 0; j < nr; j++) {
+                    buffer_out[i + j * mu] = column[nr + j];
+                }
+            }
+        }
+
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_matrix_product_row_major('N', alpha, input, beta, output, mu);
@@ -132,12 +145,18 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         //     conj_if_complex<CoefficientPrecision>(output, nr * mu);
         // }
 
-        // Permutation TODO
-        // if (m_target_use_permutation_to_mvprod) {
-        //     for (int i = 0; i < mu; i++) {
-        //         cluster_to_user(m_cluster_tree_target.get(), output + i * nr, out + i * nr);
-        //     }
-        // }
+        // Permutation
+        if (m_target_use_permutation_to_mvprod) {
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nr; j++) {
+                    column[j] = output[i + j * mu];
+                }
+                cluster_to_user(m_target_cluster, column.data(), column.data() + nr);
+                for (int j = 0; j < nr; j++) {
+                    out[i + j * mu] = column[nr + j];
+                }
+            }
+        }
     }
 
     void add_vector_product_transp_local_to_global(CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override {
@@ -148,6 +167,11 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         if (m_source_use_permutation_to_mvprod) {
             user_to_cluster(m_source_cluster, out + m_source_cluster.get_offset(), buffer_out.data());
         }
+        std::vector<CoefficientPrecision> buffer_in(m_target_use_permutation_to_mvprod ? m_target_cluster.get_size() : 0);
+        if (m_target_use_permutation_to_mvprod) {
+            user_to_cluster(m_target_cluster, in, buffer_in.data());
+            in = buffer_in.data();
+        }
 
         // Local to local product
         if (m_symmetry == 'N') {
@@ -180,6 +204,21 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? nc * mu + nc : 0);
         std::vector<CoefficientPrecision> output_perm(nc * mu);
 
+        std::vector<CoefficientPrecision> buffer_in(m_target_use_permutation_to_mvprod ? nr * mu : 0);
+        if (m_target_use_permutation_to_mvprod) {
+            std::vector<CoefficientPrecision> column(2 * nr);
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nr; j++) {
+                    column[j] = in[i + j * mu];
+                }
+                user_to_cluster(m_target_cluster, column.data(), column.data() + nr);
+                for (int j = 0; j < nr; j++) {
+                    buffer_in[i + j * mu] = column[nr + j];
+                }
+            }
+            in = buffer_in.data();
+        }
+
         if (m_symmetry == 'H') { // we have to conjugate to apply in this particular case
             std::copy_n(in, input_perm.size(), input_perm.data());
             conj_if_complex<CoefficientPrecision>(input_perm.data(), input_perm.size());
-- 
2.43.0


From dc0074f42a8c0990497782ec9b3256e4f75c7e7a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 37/55] fix: internal transposed local-to-local products read
 their output and ignored the conjugation of Hermitian operators

---
 .../distributed_operator.hpp                  | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index b86bd99..8edede1 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -575,9 +575,17 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_local_to
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
+    if (m_symmetry == 'S') {
         this->internal_vector_product_local_to_local(in, out, work);
         return;
+    } else if (m_symmetry == 'H') {
+        int rank;
+        MPI_Comm_rank(m_comm, &rank);
+        std::vector<CoefficientPrecision> in_conj(in, in + m_target_partition.get_size_of_partition(rank));
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
+        this->internal_vector_product_local_to_local(in_conj.data(), out, work);
+        conj_if_complex<CoefficientPrecision>(out, m_source_partition.get_size_of_partition(rank));
+        return;
     }
 
     int sizeWorld, rankWorld;
@@ -621,9 +629,17 @@ void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_l
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
+    if (m_symmetry == 'S') {
         this->internal_matrix_product_local_to_local(in, out, mu, work);
         return;
+    } else if (m_symmetry == 'H') {
+        int rank;
+        MPI_Comm_rank(m_comm, &rank);
+        std::vector<CoefficientPrecision> in_conj(in, in + m_target_partition.get_size_of_partition(rank) * mu);
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
+        this->internal_matrix_product_local_to_local(in_conj.data(), out, mu, work);
+        conj_if_complex<CoefficientPrecision>(out, m_source_partition.get_size_of_partition(rank) * mu);
+        return;
     }
 
     int sizeWorld, rankWorld;
@@ -635,6 +651,7 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_l
     std::vector<CoefficientPrecision> buffer((work == nullptr) ? (nc + local_size_source * sizeWorld) * mu : 0);
     CoefficientPrecision *buffer_ptr = (work == nullptr) ? buffer.data() : work;
 
+    std::fill(out, out + local_size_source * mu, 0);
     std::fill(buffer_ptr, buffer_ptr + nc * mu, 0);
     CoefficientPrecision *rbuf = buffer_ptr + nc * mu;
 
-- 
2.43.0


From c1d3538b1dab83bccf55a3b244a3e752e8257405 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 38/55] fix: access to the hierarchical matrix of a local
 operator did not compile

---
 include/htool/local_operators/local_hmatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/local_operators/local_hmatrix.hpp b/include/htool/local_operators/local_hmatrix.hpp
index fced428..e4c283b 100644
--- a/include/htool/local_operators/local_hmatrix.hpp
+++ b/include/htool/local_operators/local_hmatrix.hpp
@@ -29,7 +29,7 @@ class LocalHMatrix final : public LocalOperator<CoefficientPrecision, Coordinate
     void local_add_matrix_product_row_major(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu) const override { openmp_internal_add_hmatrix_matrix_product_row_major(trans, 'N', alpha, m_data, in, beta, out, mu); }
     void local_add_matrix_product_symmetric_row_major(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu, char, char) const override { openmp_internal_add_hmatrix_matrix_product_row_major(trans, 'N', alpha, m_data, in, beta, out, mu); }
 
-    const HMatrix<CoefficientPrecision, CoordinatePrecision> &get_hmatrix() const { return *m_data.get(); }
+    const HMatrix<CoefficientPrecision, CoordinatePrecision> &get_hmatrix() const { return m_data; }
 };
 } // namespace htool
 #endif
-- 
2.43.0


From b4ff22fc49b9f77ea56da8e40b86ac871acfac61 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 39/55] fix: local solver with overlap solved another system in
 the symmetric case

---
 .../local_solvers/local_hmatrix_plus_overlap_solvers.hpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp b/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
index e552d56..28c6379 100644
--- a/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
+++ b/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
@@ -99,7 +99,7 @@ class LocalHMatrixPlusOverlapSolver : public VirtualLocalSolver<CoefficientPreci
 
             if (m_C.nb_rows() > 0) {
                 add_matrix_matrix_product('N', 'N', CoefficientPrecision(-1), m_C, b1, CoefficientPrecision(1), b2);
-                triangular_matrix_matrix_solve('L', 'L', 'N', 'U', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'L', 'N', 'N', CoefficientPrecision(1), m_D, b2);
                 triangular_matrix_matrix_solve('L', 'L', is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(1), m_D, b2);
                 add_matrix_matrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), m_C, b2, CoefficientPrecision(1), b1);
             }
@@ -109,7 +109,8 @@ class LocalHMatrixPlusOverlapSolver : public VirtualLocalSolver<CoefficientPreci
 
             if (m_B.nb_cols() > 0) {
                 add_matrix_matrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), m_B, b1, CoefficientPrecision(1), b2);
-                triangular_matrix_matrix_solve('L', 'U', 'N', 'U', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'U', is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'U', 'N', 'N', CoefficientPrecision(1), m_D, b2);
                 add_matrix_matrix_product('N', 'N', CoefficientPrecision(-1), m_B, b2, CoefficientPrecision(1), b1);
             }
 
-- 
2.43.0


From 6e90f6deb8c8fc5fab03e5a94c1e9764e3d8640e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:39:51 +0000
Subject: [PATCH 40/55] fix: local cluster trees of the DDM solvers follow the
 coordinate precision

---
 include/htool/solvers/utility.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/htool/solvers/utility.hpp b/include/htool/solvers/utility.hpp
index 78de9b1..7cda986 100644
--- a/include/htool/solvers/utility.hpp
+++ b/include/htool/solvers/utility.hpp
@@ -137,7 +137,7 @@ class DDMSolverWithDenseLocalSolver {
     std::function<Cluster<CoordinatePrecision>(int, const CoordinatePrecision *)> initialize_local_cluster = [this](int spatial_dimension0, const CoordinatePrecision *global_geometry0) {
         // Local geometry
         int local_size = local_to_global_numbering.size();
-        std::vector<double> local_geometry(spatial_dimension0 * local_size);
+        std::vector<CoordinatePrecision> local_geometry(spatial_dimension0 * local_size);
         for (int i = 0; i < local_to_global_numbering.size(); i++) {
             for (int dimension = 0; dimension < spatial_dimension0; dimension++) {
                 local_geometry[spatial_dimension0 * i + dimension] = global_geometry0[spatial_dimension0 * local_to_global_numbering[i] + dimension];
@@ -145,7 +145,7 @@ class DDMSolverWithDenseLocalSolver {
         }
 
         // Local cluster
-        ClusterTreeBuilder<double> recursive_build_strategy;
+        ClusterTreeBuilder<CoordinatePrecision> recursive_build_strategy;
         return recursive_build_strategy.create_cluster_tree(local_to_global_numbering.size(), spatial_dimension0, local_geometry.data(), 2, 2, nullptr);
     };
 
@@ -238,7 +238,7 @@ class DDMSolverBuilder {
     std::function<Cluster<CoordinatePrecision>(int, const CoordinatePrecision *)> initialize_local_cluster = [this](int spatial_dimension0, const CoordinatePrecision *global_geometry0) {
         // Local geometry
         int local_size = local_to_global_numbering.size();
-        std::vector<double> local_geometry(spatial_dimension0 * local_size);
+        std::vector<CoordinatePrecision> local_geometry(spatial_dimension0 * local_size);
         for (int i = 0; i < local_to_global_numbering.size(); i++) {
             for (int dimension = 0; dimension < spatial_dimension0; dimension++) {
                 local_geometry[spatial_dimension0 * i + dimension] = global_geometry0[spatial_dimension0 * local_to_global_numbering[i] + dimension];
@@ -246,7 +246,7 @@ class DDMSolverBuilder {
         }
 
         // Local cluster
-        ClusterTreeBuilder<double> recursive_build_strategy;
+        ClusterTreeBuilder<CoordinatePrecision> recursive_build_strategy;
         return recursive_build_strategy.create_cluster_tree(local_to_global_numbering.size(), spatial_dimension0, local_geometry.data(), 2, 2);
     };
 
-- 
2.43.0


From 9fc7f8264770764d2c8bb7f9febbbd30425e297e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:40:03 +0000
Subject: [PATCH 41/55] fix: DDM solvers with a local hierarchical matrix
 accept subdomains of less than 22 unknowns

---
 include/htool/solvers/utility.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/utility.hpp b/include/htool/solvers/utility.hpp
index 7cda986..df7bf12 100644
--- a/include/htool/solvers/utility.hpp
+++ b/include/htool/solvers/utility.hpp
@@ -146,7 +146,8 @@ class DDMSolverWithDenseLocalSolver {
 
         // Local cluster
         ClusterTreeBuilder<CoordinatePrecision> recursive_build_strategy;
-        return recursive_build_strategy.create_cluster_tree(local_to_global_numbering.size(), spatial_dimension0, local_geometry.data(), 2, 2, nullptr);
+        recursive_build_strategy.set_minclustersize(std::max(0, std::min(10, local_size / 2 - 1))); // small subdomains can be split too
+        return recursive_build_strategy.create_cluster_tree(local_to_global_numbering.size(), spatial_dimension0, local_geometry.data(), 2, std::min(2, local_size), nullptr);
     };
 
     std::unique_ptr<Cluster<CoordinatePrecision>> local_cluster;
@@ -247,7 +248,8 @@ class DDMSolverBuilder {
 
         // Local cluster
         ClusterTreeBuilder<CoordinatePrecision> recursive_build_strategy;
-        return recursive_build_strategy.create_cluster_tree(local_to_global_numbering.size(), spatial_dimension0, local_geometry.data(), 2, 2);
+        recursive_build_strategy.set_minclustersize(std::max(0, std::min(10, local_size / 2 - 1))); // small subdomains can be split too
+        return recursive_build_strategy.create_cluster_tree(local_to_global_numbering.size(), spatial_dimension0, local_geometry.data(), 2, std::min(2, local_size));
     };
 
     std::unique_ptr<Cluster<CoordinatePrecision>> local_cluster;
-- 
2.43.0


From adfa01266c99ef3e4c0b10ab8f5a2d8706cc868e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 42/55] fix: GenEO coarse spaces in single precision compile

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index 125d9b7..3d6871d 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -67,7 +67,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         int ldvl = n, ldvr = n, lwork = -1;
         int lda = n, ldb = n;
         std::vector<CoefficientPrecision> work(n);
-        std::vector<double> rwork;
+        std::vector<underlying_type<CoefficientPrecision>> rwork;
         std::vector<int> index(n, 0);
         std::iota(index.begin(), index.end(), int(0));
         int nevi = m_geneo_nu;
-- 
2.43.0


From 06f0ab63db9144cc872a150e1b41a70ebe61d7b8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:50:09 +0000
Subject: [PATCH 43/55] fix: both coupling blocks of the overlap are filled for
 nonsymmetric problems

---
 include/htool/solvers/utility.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/htool/solvers/utility.hpp b/include/htool/solvers/utility.hpp
index df7bf12..540dc44 100644
--- a/include/htool/solvers/utility.hpp
+++ b/include/htool/solvers/utility.hpp
@@ -228,7 +228,8 @@ class DDMSolverBuilder {
         if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'U') {
             B.resize(local_size_without_overlap, local_size_with_overlap - local_size_without_overlap);
             generator0.copy_submatrix(local_size_without_overlap, local_size_with_overlap - local_size_without_overlap, inside_num.data(), overlap_num.data(), B.data());
-        } else if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'L') {
+        }
+        if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'L') {
             C.resize(local_size_with_overlap - local_size_without_overlap, local_size_without_overlap);
 
             generator0.copy_submatrix(local_size_with_overlap - local_size_without_overlap, local_size_without_overlap, overlap_num.data(), inside_num.data(), C.data());
-- 
2.43.0


From 2f19ca55e3cd817646e5c30c9d3f5b7e3a459746 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:52:50 +0000
Subject: [PATCH 44/55] fix: numbering exposed by block Jacobi solvers is the
 one of the subdomain

---
 include/htool/solvers/utility.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/utility.hpp b/include/htool/solvers/utility.hpp
index 540dc44..89d46c3 100644
--- a/include/htool/solvers/utility.hpp
+++ b/include/htool/solvers/utility.hpp
@@ -24,6 +24,8 @@ class LocalNumberingBuilder {
     std::vector<int> local_to_global_numbering;
     std::vector<std::vector<int>> intersections;
     LocalNumberingBuilder() {}
+    template <typename CoordinatePrecision>
+    explicit LocalNumberingBuilder(const Cluster<CoordinatePrecision> &cluster) : local_to_global_numbering(cluster.get_permutation().begin() + cluster.get_offset(), cluster.get_permutation().begin() + cluster.get_offset() + cluster.get_size()) {}
     LocalNumberingBuilder(const std::vector<int> &ovr_subdomain_to_global, const std::vector<int> &cluster_to_ovr_subdomain, const std::vector<std::vector<int>> &input_intersections) : local_to_global_numbering(ovr_subdomain_to_global.size()), intersections(input_intersections.size()) {
 
         // Renumbering for the overlap
@@ -187,7 +189,7 @@ class DDMSolverWithDenseLocalSolver {
     DDM<CoefficientPrecision, HPDDM::LapackTRSub> solver;
 
     // Block Jacobi
-    DDMSolverWithDenseLocalSolver(DistributedOperator<CoefficientPrecision> &distributed_operator, const HMatrix<CoefficientPrecision, CoordinatePrecision> &block_diagonal_hmatrix) : local_to_global_numbering(block_diagonal_hmatrix.get_target_cluster().get_permutation()), block_diagonal_dense_matrix(initialize_diagonal_block_without_overlap(block_diagonal_hmatrix)), solver(make_DDM_solver(distributed_operator, block_diagonal_dense_matrix, m_neighbors, m_intersections)) {}
+    DDMSolverWithDenseLocalSolver(DistributedOperator<CoefficientPrecision> &distributed_operator, const HMatrix<CoefficientPrecision, CoordinatePrecision> &block_diagonal_hmatrix) : m_local_numbering(block_diagonal_hmatrix.get_target_cluster()), local_to_global_numbering(m_local_numbering.local_to_global_numbering), block_diagonal_dense_matrix(initialize_diagonal_block_without_overlap(block_diagonal_hmatrix)), solver(make_DDM_solver(distributed_operator, block_diagonal_dense_matrix, m_neighbors, m_intersections)) {}
 
     // DDM adding overlap to local hmatrix without overlap
     DDMSolverWithDenseLocalSolver(DistributedOperator<CoefficientPrecision> &distributed_operator, const HMatrix<CoefficientPrecision, CoordinatePrecision> &block_diagonal_hmatrix, const VirtualGenerator<CoefficientPrecision> &generator, const std::vector<int> &ovr_subdomain_to_global, const std::vector<int> &cluster_to_ovr_subdomain, const std::vector<int> &neighbors, const std::vector<std::vector<int>> &intersections) : m_local_numbering(ovr_subdomain_to_global, cluster_to_ovr_subdomain, intersections), local_to_global_numbering(m_local_numbering.local_to_global_numbering), block_diagonal_dense_matrix(initialize_diagonal_block_adding_overlap(distributed_operator, block_diagonal_hmatrix, generator)), solver(make_DDM_solver(distributed_operator, block_diagonal_dense_matrix, neighbors, m_local_numbering.intersections)) {}
@@ -290,7 +292,7 @@ class DDMSolverBuilder {
     DDM<CoefficientPrecision, HPDDMCustomLocalSolver> solver;
 
     // Block Jacobi
-    DDMSolverBuilder(DistributedOperator<CoefficientPrecision> &distributed_operator, HMatrix<CoefficientPrecision, CoordinatePrecision> &block_diagonal_hmatrix) : local_to_global_numbering(block_diagonal_hmatrix.get_target_cluster().get_permutation()), solver(make_DDM_solver_w_custom_local_solver(distributed_operator, block_diagonal_hmatrix, m_neighbors, m_intersections, false)) {}
+    DDMSolverBuilder(DistributedOperator<CoefficientPrecision> &distributed_operator, HMatrix<CoefficientPrecision, CoordinatePrecision> &block_diagonal_hmatrix) : m_local_numbering(block_diagonal_hmatrix.get_target_cluster()), local_to_global_numbering(m_local_numbering.local_to_global_numbering), solver(make_DDM_solver_w_custom_local_solver(distributed_operator, block_diagonal_hmatrix, m_neighbors, m_intersections, false)) {}
 
     // DDM building local hmatrix adding overlap
     DDMSolverBuilder(DistributedOperator<CoefficientPrecision> &distributed_operator, HMatrix<CoefficientPrecision, CoordinatePrecision> &block_diagonal_hmatrix, const VirtualGenerator<CoefficientPrecision> &generator, const std::vector<int> &ovr_subdomain_to_global, const std::vector<int> &cluster_to_ovr_subdomain, const std::vector<int> &neighbors, const std::vector<std::vector<int>> &intersections) : m_local_numbering(ovr_subdomain_to_global, cluster_to_ovr_subdomain, intersections), local_to_global_numbering(m_local_numbering.local_to_global_numbering), blocks_in_overlap(initialize_blocks_in_overlap(distributed_operator, block_diagonal_hmatrix, generator)), solver(make_DDM_solver_w_custom_local_solver(distributed_operator, block_diagonal_hmatrix, blocks_in_overlap[0], blocks_in_overlap[1], blocks_in_overlap[2], neighbors, m_local_numbering.intersections)) {}
-- 
2.43.0


From 983c9bb1ce487ab0759e38f1fcc193805e2e1ddc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 45/55] fix: DDM operator applied the conjugate of Hermitian
 operators to several vectors

---
 include/htool/wrappers/wrapper_hpddm.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/htool/wrappers/wrapper_hpddm.hpp b/include/htool/wrappers/wrapper_hpddm.hpp
index 6655b0b..68c6afb 100644
--- a/include/htool/wrappers/wrapper_hpddm.hpp
+++ b/include/htool/wrappers/wrapper_hpddm.hpp
@@ -103,9 +103,6 @@ class HPDDMOperator final : public HPDDM::Dense<LocalSolver, HPDDM::LapackTR, 'G
                     (*buffer)[i + j * mu] = in[i * this->getDof() + j];
                 }
             }
-            if (HA->get_symmetry_type() == 'H') {
-                conj_if_complex(buffer->data(), local_size * mu);
-            }
         }
 
         // All gather
@@ -117,9 +114,6 @@ class HPDDMOperator final : public HPDDM::Dense<LocalSolver, HPDDM::LapackTR, 'G
 
         // Tranpose
         if (mu != 1) {
-            if (HA->get_symmetry_type() == 'H') {
-                conj_if_complex(buffer->data() + local_size * mu, local_size * mu);
-            }
             for (int i = 0; i < mu; i++) {
                 for (int j = 0; j < local_size; j++) {
                     out[i * this->getDof() + j] = (*buffer)[i + j * mu + local_size * mu];
-- 
2.43.0


From f855a25dbd1fd4b4c7c99859fc76337ad0197a88 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:01:51 +0000
Subject: [PATCH 46/55] fix: coarse operators of Hermitian operators were not
 Z*AZ

---
 .../htool/solvers/geneo/coarse_operator_builder.hpp    | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_operator_builder.hpp b/include/htool/solvers/geneo/coarse_operator_builder.hpp
index 8877df2..9b232ab 100644
--- a/include/htool/solvers/geneo/coarse_operator_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_operator_builder.hpp
@@ -95,9 +95,6 @@ void build_geneo_coarse_operator(const DistributedOperator<CoefficientPrecision>
         //     std::cout << buffer << "\n";
         // }
         MPI_Bcast(buffer.data() + margin * recvcounts[i], HA.get_target_partition().get_size_of_partition(i) * recvcounts[i], wrapper_mpi<CoefficientPrecision>::mpi_type(), i, HA.get_comm());
-        if (HA.get_symmetry_type() == 'H') {
-            conj_if_complex(buffer.data(), buffer.size());
-        }
         HA.internal_sub_matrix_product_to_local(buffer.data(), AZ.data(), recvcounts[i], HA.get_target_partition().get_offset_of_partition(i), HA.get_target_partition().get_size_of_partition(i));
 
         // if (rankWorld == 0) {
@@ -105,10 +102,9 @@ void build_geneo_coarse_operator(const DistributedOperator<CoefficientPrecision>
         //     std::cout << AZ << "\n";
         // }
 
-        // Removed because complex scalar product afterward
-        // if (HA.get_symmetry_type() == 'H') {
-        //     conj_if_complex(AZ.data(), AZ.size());
-        // }
+        if (HA.get_symmetry_type() == 'H') {
+            conj_if_complex(AZ.data(), AZ.size());
+        }
 
         for (int j = 0; j < recvcounts[i]; j++) {
             for (int k = 0; k < n_inside; k++) {
-- 
2.43.0


From a32fe78b2424c9d9b69bce65a99da349f71ac660 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:02:20 +0000
Subject: [PATCH 47/55] fix: GenEO threshold selecting all eigenvectors read
 past the end of the eigenvalues

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index 3d6871d..afb7f26 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -97,7 +97,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
             });
             if (m_geneo_threshold > 0.0) {
                 nevi = 0;
-                while (std::abs(w[index[nevi]]) > m_geneo_threshold && nevi < index.size()) {
+                while (nevi < index.size() && std::abs(w[index[nevi]]) > m_geneo_threshold) {
                     nevi++;
                 }
             }
@@ -145,7 +145,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         });
         if (m_geneo_threshold > 0.0) {
             nevi = 0;
-            while (std::abs(beta[index[nevi]]) < 1e-15 || (std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold && nevi < index.size())) {
+            while (nevi < index.size() && (std::abs(beta[index[nevi]]) < 1e-15 || std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold)) {
                 nevi++;
             }
         }
-- 
2.43.0


From b95e5e0304e0e74629d2ce4d7a40facffa4a28e1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:02:20 +0000
Subject: [PATCH 48/55] fix: GenEO coarse spaces can be built several times
 from the same builder

---
 .../htool/solvers/geneo/coarse_space_builder.hpp    | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index afb7f26..525eb60 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -63,6 +63,9 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
 
     virtual Matrix<CoefficientPrecision> build_coarse_space() override {
 
+        // overwritten by LAPACK
+        Matrix<CoefficientPrecision> DAiD(m_DAiD), Bi(m_Bi);
+
         int n    = m_size_with_overlap;
         int ldvl = n, ldvr = n, lwork = -1;
         int lda = n, ldb = n;
@@ -86,10 +89,10 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
             }
 
             // std::cout << "OUAAAAH\n";
-            Lapack<CoefficientPrecision>::gv(&itype, "V", &m_uplo, &n, m_DAiD.data(), &lda, m_Bi.data(), &ldb, w.data(), work.data(), &lwork, rwork.data(), &info);
+            Lapack<CoefficientPrecision>::gv(&itype, "V", &m_uplo, &n, DAiD.data(), &lda, Bi.data(), &ldb, w.data(), work.data(), &lwork, rwork.data(), &info);
             lwork = (int)std::real(work[0]);
             work.resize(lwork);
-            Lapack<CoefficientPrecision>::gv(&itype, "V", &m_uplo, &n, m_DAiD.data(), &lda, m_Bi.data(), &ldb, w.data(), work.data(), &lwork, rwork.data(), &info);
+            Lapack<CoefficientPrecision>::gv(&itype, "V", &m_uplo, &n, DAiD.data(), &lda, Bi.data(), &ldb, w.data(), work.data(), &lwork, rwork.data(), &info);
 
             // std::cout << "OUAAAAH 2\n";
             std::sort(index.begin(), index.end(), [&](const int &a, const int &b) {
@@ -123,7 +126,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
             Matrix<CoefficientPrecision> Z(n, nevi);
             for (int i = 0; i < m_size_wo_overlap; i++) {
                 for (int j = 0; j < nevi; j++) {
-                    Z(i, j) = m_DAiD(i, index[j]);
+                    Z(i, j) = DAiD(i, index[j]);
                 }
             }
             return Z;
@@ -135,10 +138,10 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         std::vector<CoefficientPrecision> alphar(n), alphai((is_complex<CoefficientPrecision>() ? 0 : n)), beta(n);
         std::vector<CoefficientPrecision> vl(n * n), vr(n * n);
 
-        Lapack<CoefficientPrecision>::ggev("N", "V", &n, m_DAiD.data(), &lda, m_Bi.data(), &ldb, alphar.data(), alphai.data(), beta.data(), vl.data(), &ldvl, vr.data(), &ldvr, work.data(), &lwork, rwork.data(), &info);
+        Lapack<CoefficientPrecision>::ggev("N", "V", &n, DAiD.data(), &lda, Bi.data(), &ldb, alphar.data(), alphai.data(), beta.data(), vl.data(), &ldvl, vr.data(), &ldvr, work.data(), &lwork, rwork.data(), &info);
         lwork = (int)std::real(work[0]);
         work.resize(lwork);
-        Lapack<CoefficientPrecision>::ggev("N", "V", &n, m_DAiD.data(), &lda, m_Bi.data(), &ldb, alphar.data(), alphai.data(), beta.data(), vl.data(), &ldvl, vr.data(), &ldvr, work.data(), &lwork, rwork.data(), &info);
+        Lapack<CoefficientPrecision>::ggev("N", "V", &n, DAiD.data(), &lda, Bi.data(), &ldb, alphar.data(), alphai.data(), beta.data(), vl.data(), &ldvl, vr.data(), &ldvr, work.data(), &lwork, rwork.data(), &info);
 
         std::sort(index.begin(), index.end(), [&](const int &a, const int &b) {
             return ((std::abs(beta[a]) < 1e-15 || (std::abs(alphar[a] / beta[a]) > std::abs(alphar[b] / beta[b]))) && !(std::abs(beta[b]) < 1e-15));
-- 
2.43.0


From 3b24a677c72c00581282f27692e5154309ba6104 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:13:30 +0000
Subject: [PATCH 49/55] fix: bounding box of clusters with negative coordinates

The largest coordinate started from the smallest positive number, so the
longest side was wrong for points with negative coordinates.
---
 include/htool/clustering/tree_builder/direction_computation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/clustering/tree_builder/direction_computation.hpp b/include/htool/clustering/tree_builder/direction_computation.hpp
index 9ee1c8c..976439c 100644
--- a/include/htool/clustering/tree_builder/direction_computation.hpp
+++ b/include/htool/clustering/tree_builder/direction_computation.hpp
@@ -63,7 +63,7 @@ class ComputeBoundingBox final : public VirtualDirectionComputationStrategy<T> {
 
         // min max for each axis
         std::vector<T> min_point(spatial_dimension, std::numeric_limits<T>::max());
-        std::vector<T> max_point(spatial_dimension, std::numeric_limits<T>::min());
+        std::vector<T> max_point(spatial_dimension, std::numeric_limits<T>::lowest());
         for (int j = 0; j < cluster->get_size(); j++) {
             std::vector<T> u(spatial_dimension, 0);
             for (int p = 0; p < spatial_dimension; p++) {
-- 
2.43.0


From c506bc82b809b91226f5475f614faf357c5ca404 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:18:48 +0000
Subject: [PATCH 50/55] fix: direction of largest extent of small, large or
 rotation-symmetric clusters

---
 .../tree_builder/direction_computation.hpp    | 12 +++++++++
 include/htool/misc/evp.hpp                    | 26 ++++++++++++++++---
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/include/htool/clustering/tree_builder/direction_computation.hpp b/include/htool/clustering/tree_builder/direction_computation.hpp
index 976439c..746face 100644
--- a/include/htool/clustering/tree_builder/direction_computation.hpp
+++ b/include/htool/clustering/tree_builder/direction_computation.hpp
@@ -45,6 +45,18 @@ class ComputeLargestExtent final : public VirtualDirectionComputationStrategy<T>
                 }
             }
         }
+        // The direction does not depend on the scale of the geometry
+        T trace = 0;
+        for (int p = 0; p < spatial_dimension; p++) {
+            trace += cov(p, p);
+        }
+        if (trace > 0) {
+            for (int p = 0; p < spatial_dimension; p++) {
+                for (int q = 0; q < spatial_dimension; q++) {
+                    cov(p, q) /= trace;
+                }
+            }
+        }
         if (spatial_dimension == 2) {
             direction = solve_EVP_2(cov);
         } else if (spatial_dimension == 3) {
diff --git a/include/htool/misc/evp.hpp b/include/htool/misc/evp.hpp
index 95eb27b..7edaf27 100644
--- a/include/htool/misc/evp.hpp
+++ b/include/htool/misc/evp.hpp
@@ -3,6 +3,8 @@
 
 #include "../basic_types/vector.hpp" // for dprod
 #include "../matrix/matrix.hpp"      // for Matrix
+#include <algorithm>                 // for max
+#include <cmath>                     // for sqrt, pow, abs
 #include <limits>                    // for numeric_limits
 #include <vector>                    // for vector
 
@@ -18,8 +20,9 @@ std::vector<T> solve_EVP_2(const Matrix<T> &cov) {
     Matrix<T> prod(2, 2);
     T trace = cov(0, 0) + cov(1, 1);
     T det   = cov(0, 0) * cov(1, 1) - cov(0, 1) * cov(1, 0);
-    eigs[0] = trace / static_cast<T>(2.) + std::sqrt((trace * trace / static_cast<T>(4.) - det));
-    eigs[1] = trace / static_cast<T>(2.) - std::sqrt((trace * trace / static_cast<T>(4.) - det));
+    T discriminant = std::max(trace * trace / static_cast<T>(4.) - det, static_cast<T>(0.)); // rounding errors can make it negative
+    eigs[0]        = trace / static_cast<T>(2.) + std::sqrt(discriminant);
+    eigs[1]        = trace / static_cast<T>(2.) - std::sqrt(discriminant);
     if (std::abs(eigs[0]) > std::numeric_limits<T>::epsilon()) {
 
         prod      = (cov - eigs[1] * I);
@@ -133,10 +136,27 @@ std::vector<T> solve_EVP_3(const Matrix<T> &cov) {
                 imax = 1;
             }
             if (d2 > dmax) {
+                dmax = d2;
                 imax = 2;
             }
 
-            if (imax == 0) {
+            T tolerance = static_cast<T>(100.) * std::numeric_limits<T>::epsilon() * std::pow(eigs[0], 2);
+            if (dmax <= tolerance * tolerance) {
+                // eig1 = eig2 up to rounding errors: every direction orthogonal to the columns of prod, which are parallel, is a solution
+                int column = 0, axis = 0;
+                for (int k = 0; k < 3; k++) {
+                    if (norm2(prod.get_col(k)) > norm2(prod.get_col(column)))
+                        column = k;
+                }
+                std::vector<T> normal = prod.get_col(column) / norm2(prod.get_col(column));
+                for (int k = 0; k < 3; k++) {
+                    if (std::abs(normal[k]) < std::abs(normal[axis]))
+                        axis = k;
+                }
+                for (int k = 0; k < 3; k++)
+                    dir[k] = (k == axis ? static_cast<T>(1) : static_cast<T>(0)) - normal[axis] * normal[k];
+                dir = dir / norm2(dir);
+            } else if (imax == 0) {
                 dir = c0xc1 / std::sqrt(d0);
             } else if (imax == 1) {
                 dir = c0xc2 / std::sqrt(d1);
-- 
2.43.0


From 3f58ac0623fe36d53bffa57307f27939c4ddd6a7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:32:04 +0000
Subject: [PATCH 51/55] fix: ACA compressors stopped early on blocks of small
 coefficients

---
 include/htool/hmatrix/lrmat/fullACA.hpp       | 4 +++-
 include/htool/hmatrix/lrmat/partialACA.hpp    | 4 +++-
 include/htool/hmatrix/lrmat/sympartialACA.hpp | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/htool/hmatrix/lrmat/fullACA.hpp b/include/htool/hmatrix/lrmat/fullACA.hpp
index f8de95a..7d484b1 100644
--- a/include/htool/hmatrix/lrmat/fullACA.hpp
+++ b/include/htool/hmatrix/lrmat/fullACA.hpp
@@ -57,6 +57,7 @@ class fullACA final : public VirtualLowRankGenerator<CoefficientPrecision, Coord
         std::vector<std::vector<CoefficientPrecision>> uu;
         std::vector<std::vector<CoefficientPrecision>> vv;
         double Norm = normFrob(mat);
+        underlying_type<CoefficientPrecision> largest_pivot = 0; // what is negligible depends on the scale of the block
 
         while (((reqrank > 0) && (q < std::min(reqrank, std::min(M, N)))) || ((reqrank < 0) && (normFrob(mat) / Norm > epsilon || q == 0))) {
 
@@ -67,7 +68,8 @@ class fullACA final : public VirtualLowRankGenerator<CoefficientPrecision, Coord
             } else {
                 std::pair<int, int> ind    = argmax(mat);
                 CoefficientPrecision pivot = mat(ind.first, ind.second);
-                if (std::abs(pivot) < 1e-15) {
+                largest_pivot = std::max(largest_pivot, std::abs(pivot));
+                if (std::abs(pivot) <= 1e-15 * largest_pivot) {
                     q += -1;
                     break;
                 }
diff --git a/include/htool/hmatrix/lrmat/partialACA.hpp b/include/htool/hmatrix/lrmat/partialACA.hpp
index d8262ee..0ae6a23 100644
--- a/include/htool/hmatrix/lrmat/partialACA.hpp
+++ b/include/htool/hmatrix/lrmat/partialACA.hpp
@@ -76,6 +76,7 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
         underlying_type<CoefficientPrecision> frob = 0;
         underlying_type<CoefficientPrecision> aux  = 0;
         underlying_type<CoefficientPrecision> pivot, tmp;
+        underlying_type<CoefficientPrecision> largest_pivot = 0; // what is negligible depends on the scale of the block
         CoefficientPrecision coef;
         int incx(1), incy(1);
         std::vector<CoefficientPrecision> r(source_size), c(target_size);
@@ -120,7 +121,8 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
                 CoefficientPrecision gamma = CoefficientPrecision(1.) / r[J];
                 //==================//
                 // Look for a line
-                if (std::abs(r[J]) > 1e-15) {
+                largest_pivot = std::max(largest_pivot, std::abs(r[J]));
+                if (std::abs(r[J]) > 1e-15 * largest_pivot) {
                     std::fill(c.begin(), c.end(), CoefficientPrecision(0));
                     A.copy_submatrix(target_size, 1, target_offset, J + source_offset, c.data());
                     for (int k = 0; k < uu.size(); k++) {
diff --git a/include/htool/hmatrix/lrmat/sympartialACA.hpp b/include/htool/hmatrix/lrmat/sympartialACA.hpp
index 36e4575..669dabf 100644
--- a/include/htool/hmatrix/lrmat/sympartialACA.hpp
+++ b/include/htool/hmatrix/lrmat/sympartialACA.hpp
@@ -93,6 +93,7 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
         underlying_type<CoefficientPrecision> aux  = 0;
 
         underlying_type<CoefficientPrecision> pivot, tmp;
+        underlying_type<CoefficientPrecision> largest_pivot = 0; // what is negligible depends on the scale of the block
         CoefficientPrecision coef;
         int incx(1), incy(1);
         std::vector<CoefficientPrecision> u1(n2), u2(n1);
@@ -137,7 +138,8 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
 
                 //==================//
                 // Look for a line
-                if (std::abs(u1[I2]) > 1e-15) {
+                largest_pivot = std::max(largest_pivot, std::abs(u1[I2]));
+                if (std::abs(u1[I2]) > 1e-15 * largest_pivot) {
                     std::fill(u2.begin(), u2.end(), CoefficientPrecision(0));
                     if (t.get_offset() >= s.get_offset()) {
                         A.copy_submatrix(n1, 1, i1, i2 + I2, u2.data());
-- 
2.43.0


From 6ff5778d788c3746c51731c42a73c467eee7f43b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:32:04 +0000
Subject: [PATCH 52/55] fix: GenEO took all eigenvalue ratios for infinite when
 the second matrix is small

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index 525eb60..a809479 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -143,12 +143,19 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         work.resize(lwork);
         Lapack<CoefficientPrecision>::ggev("N", "V", &n, DAiD.data(), &lda, Bi.data(), &ldb, alphar.data(), alphai.data(), beta.data(), vl.data(), &ldvl, vr.data(), &ldvr, work.data(), &lwork, rwork.data(), &info);
 
+        // what is negligible depends on the scale of the matrices
+        underlying_type<CoefficientPrecision> negligible = 0;
+        for (const auto &elt : beta) {
+            negligible = std::max(negligible, std::abs(elt));
+        }
+        negligible *= 1e-15;
+
         std::sort(index.begin(), index.end(), [&](const int &a, const int &b) {
-            return ((std::abs(beta[a]) < 1e-15 || (std::abs(alphar[a] / beta[a]) > std::abs(alphar[b] / beta[b]))) && !(std::abs(beta[b]) < 1e-15));
+            return ((std::abs(beta[a]) <= negligible || (std::abs(alphar[a] / beta[a]) > std::abs(alphar[b] / beta[b]))) && !(std::abs(beta[b]) <= negligible));
         });
         if (m_geneo_threshold > 0.0) {
             nevi = 0;
-            while (nevi < index.size() && (std::abs(beta[index[nevi]]) < 1e-15 || std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold)) {
+            while (nevi < index.size() && (std::abs(beta[index[nevi]]) <= negligible || std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold)) {
                 nevi++;
             }
         }
-- 
2.43.0


From 6a46c92ed9e92488f997085c900bb0573623cf3b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:41:24 +0000
Subject: [PATCH 53/55] fix: compressors refused blocks with more coefficients
 than an int counts

---
 include/htool/hmatrix/lrmat/SVD.hpp                             | 2 +-
 include/htool/hmatrix/lrmat/fullACA.hpp                         | 2 +-
 include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp | 2 +-
 include/htool/hmatrix/lrmat/partialACA.hpp                      | 2 +-
 include/htool/hmatrix/lrmat/sympartialACA.hpp                   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/htool/hmatrix/lrmat/SVD.hpp b/include/htool/hmatrix/lrmat/SVD.hpp
index c9bea79..de4ea2e 100644
--- a/include/htool/hmatrix/lrmat/SVD.hpp
+++ b/include/htool/hmatrix/lrmat/SVD.hpp
@@ -35,7 +35,7 @@ class SVD final : public VirtualLowRankGenerator<CoefficientPrecision, Coordinat
         int truncated_rank = SVD_truncation(mat, epsilon, u, vt, singular_values);
 
         if (rank == -1) {
-            if (truncated_rank * (M + N) > (M * N)) {
+            if (static_cast<double>(truncated_rank) * (static_cast<double>(M) + N) > static_cast<double>(M) * N) {
                 truncated_rank = -1;
             }
 
diff --git a/include/htool/hmatrix/lrmat/fullACA.hpp b/include/htool/hmatrix/lrmat/fullACA.hpp
index 7d484b1..87c8f3e 100644
--- a/include/htool/hmatrix/lrmat/fullACA.hpp
+++ b/include/htool/hmatrix/lrmat/fullACA.hpp
@@ -62,7 +62,7 @@ class fullACA final : public VirtualLowRankGenerator<CoefficientPrecision, Coord
         while (((reqrank > 0) && (q < std::min(reqrank, std::min(M, N)))) || ((reqrank < 0) && (normFrob(mat) / Norm > epsilon || q == 0))) {
 
             q += 1;
-            if (q * (M + N) > (M * N)) { // the current rank would not be advantageous
+            if (static_cast<double>(q) * (static_cast<double>(M) + N) > static_cast<double>(M) * N) { // the current rank would not be advantageous
                 q = -1;
                 break;
             } else {
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
index d120990..bb9e718 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
@@ -57,7 +57,7 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
                 }
                 add_matrix_matrix_product<CoefficientPrecision>(transa, transb, alpha, U_A, B, 0, V_C);
             }
-            if (C.rank_of() * (C.nb_rows() + C.nb_cols()) > (C.nb_rows() * C.nb_cols())) {
+            if (static_cast<double>(C.rank_of()) * (static_cast<double>(C.nb_rows()) + C.nb_cols()) > static_cast<double>(C.nb_rows()) * C.nb_cols()) {
                 recompression(C);
             }
         } else {
diff --git a/include/htool/hmatrix/lrmat/partialACA.hpp b/include/htool/hmatrix/lrmat/partialACA.hpp
index 0ae6a23..081e4ca 100644
--- a/include/htool/hmatrix/lrmat/partialACA.hpp
+++ b/include/htool/hmatrix/lrmat/partialACA.hpp
@@ -89,7 +89,7 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
             // Next current rank
             q += 1;
 
-            if (q * (target_size + source_size) > (target_size * source_size)) { // the next current rank would not be advantageous
+            if (static_cast<double>(q) * (static_cast<double>(target_size) + source_size) > static_cast<double>(target_size) * source_size) { // the next current rank would not be advantageous
                 q = -1;
                 break;
             } else {
diff --git a/include/htool/hmatrix/lrmat/sympartialACA.hpp b/include/htool/hmatrix/lrmat/sympartialACA.hpp
index 669dabf..ffebde6 100644
--- a/include/htool/hmatrix/lrmat/sympartialACA.hpp
+++ b/include/htool/hmatrix/lrmat/sympartialACA.hpp
@@ -106,7 +106,7 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
             // Next current rank
             q += 1;
 
-            if (q * (n1 + n2) > (n1 * n2)) { // the next current rank would not be advantageous
+            if (static_cast<double>(q) * (static_cast<double>(n1) + n2) > static_cast<double>(n1) * n2) { // the next current rank would not be advantageous
                 q = -1;
                 break;
             } else {
-- 
2.43.0


From cf9a751ea6bec02d66ecc491b82a867e1c7e7084 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:32:13 +0000
Subject: [PATCH 54/55] fix: GenEO ignored the imaginary part of the ratios of
 real matrices

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index a809479..f93f5f7 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -6,6 +6,7 @@
 #include "../interfaces/virtual_coarse_space_builder.hpp" // for VirtualCoa...
 #include "htool/misc/misc.hpp"                            // for underlying...
 #include <algorithm>                                      // for copy, max
+#include <cmath>                                          // for hypot
 #include <complex>                                        // for real
 #include <numeric>                                        // for iota
 #include <vector>                                         // for vector
@@ -150,12 +151,17 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         }
         negligible *= 1e-15;
 
+        // with real coefficients, the imaginary part of a ratio is given apart
+        auto ratio = [&](int i) {
+            return (is_complex<CoefficientPrecision>() ? std::abs(alphar[i]) : std::hypot(std::abs(alphar[i]), std::abs(alphai[i]))) / std::abs(beta[i]);
+        };
+
         std::sort(index.begin(), index.end(), [&](const int &a, const int &b) {
-            return ((std::abs(beta[a]) <= negligible || (std::abs(alphar[a] / beta[a]) > std::abs(alphar[b] / beta[b]))) && !(std::abs(beta[b]) <= negligible));
+            return ((std::abs(beta[a]) <= negligible || (ratio(a) > ratio(b))) && !(std::abs(beta[b]) <= negligible));
         });
         if (m_geneo_threshold > 0.0) {
             nevi = 0;
-            while (nevi < index.size() && (std::abs(beta[index[nevi]]) <= negligible || std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold)) {
+            while (nevi < index.size() && (std::abs(beta[index[nevi]]) <= negligible || ratio(index[nevi]) > m_geneo_threshold)) {
                 nevi++;
             }
         }
-- 
2.43.0


From c20cf94b95e4789e0773667b5e4fc0e788c4dca7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:54:04 +0000
Subject: [PATCH 55/55] fix: products of hierarchical matrices whose block
 trees are not consistent

The blocks of the operands need not match when the block trees were built with
set_block_tree_consistency(false): missing blocks were dereferenced or their
contributions dropped.
---
 .../hmatrix/linalg/add_hmatrix_hmatrix_product.hpp   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
index 8e5a4c1..6b6bce7 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
@@ -26,7 +26,7 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
         scale(beta, C);
     }
 
-    if (A.is_hierarchical() and B.is_hierarchical()) {
+    if (A.is_hierarchical() and B.is_hierarchical() and A.is_block_tree_consistent() and B.is_block_tree_consistent()) {
 
         bool block_tree_not_consistent = (A.get_target_cluster().get_rank() < 0 || A.get_source_cluster().get_rank() < 0 || B.get_target_cluster().get_rank() < 0 || B.get_source_cluster().get_rank() < 0);
 
@@ -114,6 +114,10 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
                 internal_add_hmatrix_lrmat_product(transa, transb, alpha, A, *B.get_low_rank_data(), CoefficientPrecision(1), C);
             } else if (B.is_dense()) {
                 internal_add_hmatrix_matrix_product(transa, transb, alpha, A, *B.get_dense_data(), CoefficientPrecision(1), C);
+            } else { // the blocks of A and B do not match
+                Matrix<CoefficientPrecision> B_dense(B.nb_rows(), B.nb_cols());
+                copy_to_dense(B, B_dense.data());
+                internal_add_hmatrix_matrix_product(transa, transb, alpha, A, B_dense, CoefficientPrecision(1), C);
             }
         }
     }
@@ -217,7 +221,7 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
         if (beta != CoefficientPrecision(1)) {
             sequential_scale(beta, C);
         }
-        if (A.is_hierarchical() and B.is_hierarchical()) {
+        if (A.is_hierarchical() and B.is_hierarchical() and A.is_block_tree_consistent() and B.is_block_tree_consistent() and C.is_block_tree_consistent()) {
             bool block_tree_not_consistent = (A.get_target_cluster().get_rank() < 0 || A.get_source_cluster().get_rank() < 0 || B.get_target_cluster().get_rank() < 0 || B.get_source_cluster().get_rank() < 0);
 
             std::vector<const Cluster<CoordinatePrecision> *> output_clusters, middle_clusters, input_clusters;
@@ -300,6 +304,10 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
                     internal_add_matrix_hmatrix_product(transa, transb, alpha, *A.get_dense_data(), B, beta, lrmat);
                 } else if (A.is_hierarchical() and B.is_dense()) {
                     internal_add_hmatrix_matrix_product(transa, transb, alpha, A, *B.get_dense_data(), beta, lrmat);
+                } else { // the blocks of A, B and C do not match
+                    Matrix<CoefficientPrecision> B_dense(B.nb_rows(), B.nb_cols());
+                    copy_to_dense(B, B_dense.data());
+                    internal_add_hmatrix_matrix_product(transa, transb, alpha, A, B_dense, beta, lrmat);
                 }
 
                 internal_add_lrmat_hmatrix(lrmat, C);
-- 
2.43.0

