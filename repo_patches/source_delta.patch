From 6924725b34eab7ece9e5a053130b2d7e99bf2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 01/26] fix: Base64 Decode indexed its table with negative
 values for bytes above 0x7F

---
 src/arc_utilities/base64_helpers.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/arc_utilities/base64_helpers.cpp b/src/arc_utilities/base64_helpers.cpp
index 90d0f82..6cb5b35 100644
--- a/src/arc_utilities/base64_helpers.cpp
+++ b/src/arc_utilities/base64_helpers.cpp
@@ -30,17 +30,21 @@ std::vector<uint8_t> Decode(const std::string& encoded) {
   const size_t L = ((encoded_length + 3) / 4 - pad) * 4;
   std::vector<uint8_t> buffer(L / 4 * 3 + pad, 0x00);
   for (size_t i = 0, j = 0; i < L; i += 4) {
-    const int32_t n = B64IndexTable[encoded[i]] << 18 | B64IndexTable[encoded[i + 1]] << 12 |
-                      B64IndexTable[encoded[i + 2]] << 6 | B64IndexTable[encoded[i + 3]];
+    // char may be signed, so every character must be converted to an unsigned index
+    const int32_t n = B64IndexTable[static_cast<uint8_t>(encoded[i])] << 18 |
+                      B64IndexTable[static_cast<uint8_t>(encoded[i + 1])] << 12 |
+                      B64IndexTable[static_cast<uint8_t>(encoded[i + 2])] << 6 |
+                      B64IndexTable[static_cast<uint8_t>(encoded[i + 3])];
     buffer[j++] = (uint8_t)(n >> 16);
     buffer[j++] = (uint8_t)(n >> 8 & 0xFF);
     buffer[j++] = (uint8_t)(n & 0xFF);
   }
   if (pad > 0) {
-    int32_t n = B64IndexTable[encoded[L]] << 18 | B64IndexTable[encoded[L + 1]] << 12;
+    int32_t n = B64IndexTable[static_cast<uint8_t>(encoded[L])] << 18 |
+                B64IndexTable[static_cast<uint8_t>(encoded[L + 1])] << 12;
     buffer[buffer.size() - 1] = (uint8_t)(n >> 16);
     if (encoded_length > L + 2 && encoded[L + 2] != '=') {
-      n |= B64IndexTable[encoded[L + 2]] << 6;
+      n |= B64IndexTable[static_cast<uint8_t>(encoded[L + 2])] << 6;
       buffer.push_back((uint8_t)(n >> 8 & 0xFF));
     }
   }
-- 
2.43.0


From dd77e3ff0d6db56eeb4f4658dd24c0784cdaca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 02/26] fix: GetBit truncated its mask to 32 bits, so bits
 32..63 of uint64_t always read as unset

---
 include/arc_utilities/arc_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 379e1a4..1b5b93c 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -172,7 +172,7 @@ inline T SetBit(const T current, const uint32_t bit_position, const bool bit_val
 template <typename T>
 inline bool GetBit(const T current, const uint32_t bit_position) {
   // Type safety checks are performed in the SetBit() function
-  const uint32_t mask = arc_helpers::SetBit((T)0, bit_position, true);
+  const T mask = arc_helpers::SetBit((T)0, bit_position, true);
   return (mask & current) > 0;
 }
 
-- 
2.43.0


From 9849e45651fbba2fb3929c28e1bc9616e4d30d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 03/26] fix: two-set BuildDistanceMatrix sized the result data1
 x data1 and wrote the mirrored cell, out of bounds unless both sets match

---
 include/arc_utilities/arc_helpers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 1b5b93c..15c767f 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -509,7 +509,7 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
 #if defined(_OPENMP)
 #pragma omp parallel for
 #endif
@@ -517,7 +517,6 @@ inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
@@ -548,12 +547,11 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixSerial(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
   for (size_t idx = 0; idx < data1.size(); idx++) {
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
-- 
2.43.0


From f6ca60763227630e6dcccac9e7d60784e99bf4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 04/26] fix: XorShift1024StarPRNG::seed left the position
 index, so reseeding a used generator did not reproduce the sequence

---
 include/arc_utilities/arc_helpers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 15c767f..f9a976c 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -902,10 +902,7 @@ class XorShift1024StarPRNG {
   }
 
  public:
-  inline XorShift1024StarPRNG(const uint64_t seed_val) {
-    seed(seed_val);
-    p = 0;
-  }
+  inline XorShift1024StarPRNG(const uint64_t seed_val) { seed(seed_val); }
 
   static constexpr uint64_t min(void) { return 0u; }
 
@@ -916,6 +913,7 @@ class XorShift1024StarPRNG {
     for (size_t idx = 0u; idx < state_.size(); idx++) {
       state_[idx] = temp_seed_gen();
     }
+    p = 0;
   }
 
   inline void discard(const unsigned long long z) {
-- 
2.43.0


From 0aea64408408e1a4d8815f12ef1875e3a7b1f82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 05/26] fix: TruncatedNormalDistribution drew its uniform
 proposals from the unstandardized bounds, so samples left the bounds

---
 include/arc_utilities/arc_helpers.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index f9a976c..d5fbfab 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -1134,6 +1134,8 @@ class TruncatedNormalDistribution {
           case_ = TYPE_3;
         } else {
           case_ = TYPE_4;
+          // Draws are standardized, so the proposal range has to be as well
+          uniform_range_dist_ = std::uniform_real_distribution<double>(std_lower_bound_, std_upper_bound_);
         }
       }
       assert((case_ == TYPE_1) || (case_ == TYPE_2) || (case_ == TYPE_3) || (case_ == TYPE_4));
-- 
2.43.0


From 37dff0d89306805400fd140e70527c7ca03a6074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:05 +0000
Subject: [PATCH 06/26] fix: connected components left the starting node
 unmarked, so isolated nodes had no component and nodes were counted twice

---
 include/arc_utilities/graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/graph.hpp b/include/arc_utilities/graph.hpp
index e2209ba..7508572 100644
--- a/include/arc_utilities/graph.hpp
+++ b/include/arc_utilities/graph.hpp
@@ -276,6 +276,7 @@ class Graph {
     // avoid duplication, unlike what is used in CollisionMapGrid::MarkConnectedComponent
     std::queue<int64_t> working_queue;
     working_queue.push(starting_node_idx);
+    components[starting_node_idx] = component_id;
     size_t num_marked = 1;
 
     while (working_queue.size() > 0) {
-- 
2.43.0


From 25eb89b4c918ffe1dc6fa5a469c159bc4b11ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 07/26] fix: VoxelGrid maps a location to the cell that
 contains it, also at negative coordinates (floor, not truncation)

---
 include/arc_utilities/voxel_grid.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/arc_utilities/voxel_grid.hpp b/include/arc_utilities/voxel_grid.hpp
index 64f13f7..065b6c3 100644
--- a/include/arc_utilities/voxel_grid.hpp
+++ b/include/arc_utilities/voxel_grid.hpp
@@ -757,23 +757,23 @@ class VoxelGrid {
   }
 
   inline GRID_INDEX PointInFrameToGridIndex(const double x, const double y, const double z) const {
-    const int64_t x_cell = (int64_t)(x * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(y * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(z * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)(floor(x * inv_cell_x_size_));
+    const int64_t y_cell = (int64_t)(floor(y * inv_cell_y_size_));
+    const int64_t z_cell = (int64_t)(floor(z * inv_cell_z_size_));
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex3d(const Eigen::Vector3d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)(floor(point_in_grid_frame(0) * inv_cell_x_size_));
+    const int64_t y_cell = (int64_t)(floor(point_in_grid_frame(1) * inv_cell_y_size_));
+    const int64_t z_cell = (int64_t)(floor(point_in_grid_frame(2) * inv_cell_z_size_));
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex4d(const Eigen::Vector4d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)(floor(point_in_grid_frame(0) * inv_cell_x_size_));
+    const int64_t y_cell = (int64_t)(floor(point_in_grid_frame(1) * inv_cell_y_size_));
+    const int64_t z_cell = (int64_t)(floor(point_in_grid_frame(2) * inv_cell_z_size_));
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
-- 
2.43.0


From a0d58ba739f0a66ab16238367d4845597d85074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 08/26] fix: DynamicSpatialHashedVoxelGrid::SetChunkValue(x, y,
 z, value) sets the chunk, not one cell

---
 include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 1220884..a892645 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -538,12 +538,12 @@ class DynamicSpatialHashedVoxelGrid {
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, const T& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, T&& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline CHUNK_REGION GetContainingChunkRegion(const Eigen::Vector3d& grid_location) const {
-- 
2.43.0


From 8a493f89130d73917fdf205f780950ef5672bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 09/26] fix: a default-constructed
 DynamicSpatialHashedVoxelGrid is not initialized

---
 include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index a892645..f64f99f 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -489,7 +489,7 @@ class DynamicSpatialHashedVoxelGrid {
     chunk_z_size_ = cell_z_size_ * (double)chunk_num_z_cells_;
     chunk_stride1_ = chunk_num_y_cells_ * chunk_num_z_cells_;
     chunk_stride2_ = chunk_num_z_cells_;
-    initialized_ = true;
+    initialized_ = false;
   }
 
   inline void Initialize(const Eigen::Isometry3d& origin_transform, const double cell_x_size, const double cell_y_size,
-- 
2.43.0


From c3bdbd038f16ad18388a7a5670acea6fa1ee6ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:34 +0000
Subject: [PATCH 10/26] fix: ContinuousRevoluteSignedDistance has the wrong
 sign when the shortest way crosses pi

---
 include/arc_utilities/math_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/math_helpers.hpp b/include/arc_utilities/math_helpers.hpp
index 4f81a18..790f7ec 100644
--- a/include/arc_utilities/math_helpers.hpp
+++ b/include/arc_utilities/math_helpers.hpp
@@ -179,9 +179,9 @@ inline double ContinuousRevoluteSignedDistance(const double p1, const double p2)
   const double raw_distance = real_p2 - real_p1;
   if ((raw_distance <= -M_PI) || (raw_distance > M_PI)) {
     if (raw_distance <= -M_PI) {
-      return (-(2.0 * M_PI) - raw_distance);
+      return (raw_distance + (2.0 * M_PI));
     } else if (raw_distance > M_PI) {
-      return ((2.0 * M_PI) - raw_distance);
+      return (raw_distance - (2.0 * M_PI));
     } else {
       return raw_distance;
     }
-- 
2.43.0


From a906de0c06854c7bd6d199e5f259edaa25b048dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 11/26] fix: DTW takes the diagonal step although both other
 steps are equally cheap and cheaper

---
 include/arc_utilities/simple_dtw.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_dtw.hpp b/include/arc_utilities/simple_dtw.hpp
index f4f021c..bc67546 100644
--- a/include/arc_utilities/simple_dtw.hpp
+++ b/include/arc_utilities/simple_dtw.hpp
@@ -60,9 +60,9 @@ class SimpleDTW {
         double im1jm1 = dtw_matrix_(i - 1, j - 1);
         double ijm1 = dtw_matrix_(i, j - 1);
         // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1) {
+        if (im1j <= im1jm1 && im1j <= ijm1) {
           prev_cost = im1j;
-        } else if (ijm1 < im1j && ijm1 < im1jm1) {
+        } else if (ijm1 <= im1j && ijm1 <= im1jm1) {
           prev_cost = ijm1;
         } else {
           prev_cost = im1jm1;
-- 
2.43.0


From 6aae3fbc0fefb92096e28e645221fcf99cd40bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:32 +0000
Subject: [PATCH 12/26] fix: the DTW cost with one empty sequence depends on
 the sequences evaluated before

---
 include/arc_utilities/simple_dtw.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/arc_utilities/simple_dtw.hpp b/include/arc_utilities/simple_dtw.hpp
index bc67546..3c37ceb 100644
--- a/include/arc_utilities/simple_dtw.hpp
+++ b/include/arc_utilities/simple_dtw.hpp
@@ -24,13 +24,11 @@ class SimpleDTW {
     const ssize_t cols = (ssize_t)second_sequence_size + 1;
     if (dtw_matrix_.rows() < rows || dtw_matrix_.cols() < cols) {
       dtw_matrix_ = Eigen::MatrixXd::Zero(rows, cols);
-      if (rows > 1 && cols > 1) {
-        for (ssize_t row = 1; row < rows; row++) {
-          dtw_matrix_(row, 0) = std::numeric_limits<double>::infinity();
-        }
-        for (ssize_t col = 1; col < cols; col++) {
-          dtw_matrix_(0, col) = std::numeric_limits<double>::infinity();
-        }
+      for (ssize_t row = 1; row < rows; row++) {
+        dtw_matrix_(row, 0) = std::numeric_limits<double>::infinity();
+      }
+      for (ssize_t col = 1; col < cols; col++) {
+        dtw_matrix_(0, col) = std::numeric_limits<double>::infinity();
       }
     }
   }
-- 
2.43.0


From 1459ce2a9a3bd63b8608074041abfad74b4ee2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 13/26] fix: hierarchical clustering with an infinite distance
 limit runs past the last merge

---
 include/arc_utilities/simple_hierarchical_clustering.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_hierarchical_clustering.hpp b/include/arc_utilities/simple_hierarchical_clustering.hpp
index 945960a..8da80bb 100644
--- a/include/arc_utilities/simple_hierarchical_clustering.hpp
+++ b/include/arc_utilities/simple_hierarchical_clustering.hpp
@@ -259,7 +259,8 @@ class SimpleHierarchicalClustering {
           closest_element_pair.first;
       closest_distance = closest_element_pair.second;
       // std::cout << "Element pair: " << PrettyPrint::PrettyPrint(closest_element_pair, true) << std::endl;
-      if (closest_distance <= max_cluster_distance) {
+      // An infinite distance means that there is no pair left to merge
+      if (closest_distance <= max_cluster_distance && closest_distance < INFINITY) {
         const std::pair<bool, int64_t>& first_element = closest_elements.first;
         const std::pair<bool, int64_t>& second_element = closest_elements.second;
         // If both elements are points, create a new cluster
-- 
2.43.0


From d0449b060abec395210089ee6814edadf772b1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 14/26] fix: weighted k-means preliminary clustering averages
 its subset with the weights of other items

---
 include/arc_utilities/simple_kmeans_clustering.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_kmeans_clustering.hpp b/include/arc_utilities/simple_kmeans_clustering.hpp
index fd90f64..6a922ed 100644
--- a/include/arc_utilities/simple_kmeans_clustering.hpp
+++ b/include/arc_utilities/simple_kmeans_clustering.hpp
@@ -299,20 +299,24 @@ class SimpleKMeansClustering {
       }
       std::vector<Datatype, Allocator> random_subset;
       random_subset.reserve(subset_size);
+      std::vector<double> random_subset_weights;
+      random_subset_weights.reserve(subset_size);
       for (auto itr = index_map.begin(); itr != index_map.end(); ++itr) {
         if (itr->second == 1u) {
           const size_t random_index = itr->first;
           const Datatype& random_element = data[random_index];
           random_subset.push_back(random_element);
+          random_subset_weights.push_back(weights[random_index]);
         }
       }
       assert(random_subset.size() == subset_size);
       // Run clustering on the subset
       std::vector<uint32_t> random_subset_labels =
-          ClusterWeighted(random_subset, weights, distance_fn, average_fn, num_clusters, false);
+          ClusterWeighted(random_subset, random_subset_weights, distance_fn, average_fn, num_clusters, false);
       // Now we use the centers of the clusters to form the cluster centers
       cluster_centers =
-          ComputeClusterCentersWeighted(random_subset, weights, random_subset_labels, average_fn, num_clusters);
+          ComputeClusterCentersWeighted(random_subset, random_subset_weights, random_subset_labels, average_fn,
+                                        num_clusters);
     } else {
       // This makes sure we don't get duplicates
       std::map<size_t, uint8_t> index_map;
-- 
2.43.0


From 065b1ff1cbd0dd7bc24a1316ad4b3e45edbde38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 15/26] fix: UpsamplePathPartial returned the whole path when
 the portion needed no upsampling

The function documents that it returns the portion [start_ind, end_ind) only;
both early returns gave back the complete path instead.
---
 include/arc_utilities/path_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/path_utils.hpp b/include/arc_utilities/path_utils.hpp
index b31fa13..f38181c 100644
--- a/include/arc_utilities/path_utils.hpp
+++ b/include/arc_utilities/path_utils.hpp
@@ -167,7 +167,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
 
   // Return early with no message if the number of points already matches
   if (end_ind - start_ind == num_points) {
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   }
   // Abort with a warning if the number of points is already too many
   else if (end_ind - start_ind > num_points) {
@@ -175,7 +175,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
                  "number of points\n"
               << "Start ind: " << start_ind << "    End ind: " << end_ind << "    Num points: " << num_points
               << std::endl;
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   } else {
     const ssize_t num_segments = end_ind - start_ind - 1;
     assert(num_segments > 0);
-- 
2.43.0


From 321c06dd4689bf0801636e801d4fbb0535404be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 16/26] fix: simple_rrt_planner.hpp did not compile

PlanMultiPath was left half way through a renaming: it used template parameters
and variables that do not exist, and the macro unlikely, which is called
arc_unlikely. One overload of the bidirectional planner lacked its RNG parameter.
---
 include/arc_utilities/simple_rrt_planner.hpp | 48 +++++++++++---------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/include/arc_utilities/simple_rrt_planner.hpp b/include/arc_utilities/simple_rrt_planner.hpp
index 1aa7a55..b1576af 100644
--- a/include/arc_utilities/simple_rrt_planner.hpp
+++ b/include/arc_utilities/simple_rrt_planner.hpp
@@ -1,9 +1,13 @@
 #include <stdlib.h>
 
 #include <Eigen/Dense>
+#include <algorithm>
+#include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/serialization.hpp>
 #include <chrono>
 #include <functional>
+#include <iostream>
+#include <map>
 #include <memory>
 #include <random>
 #include <stdexcept>
@@ -503,16 +507,16 @@ class SimpleHybridRRTPlanner {
    */
   template <typename T, typename Allocator = std::allocator<T>>
   static std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>> PlanMultiPath(
-      std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>& tree,
-      const std::function<int64_t(const std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>&,
-                                  const SampleType&)>& nearest_neighbor_fn,
-      const std::function<void(std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>&, const int64_t)>&
+      std::vector<SimpleRRTPlannerState<T, Allocator>>& tree,
+      const std::function<int64_t(const std::vector<SimpleRRTPlannerState<T, Allocator>>&, const T&)>&
+          nearest_neighbor_fn,
+      const std::function<void(std::vector<SimpleRRTPlannerState<T, Allocator>>&, const int64_t)>&
           state_added_fn,
-      const std::function<bool(const StateType&)>& goal_reached_fn,
-      const std::function<void(std::vector<SimpleRRTPlannerState<StateType, StateAllocator>>&, const int64_t)>&
+      const std::function<bool(const T&)>& goal_reached_fn,
+      const std::function<void(std::vector<SimpleRRTPlannerState<T, Allocator>>&, const int64_t)>&
           goal_reached_callback_fn,
-      const std::function<SampleType(void)>& sampling_fn,
-      const std::function<std::vector<std::pair<StateType, int64_t>>(const StateType&, const SampleType&)>&
+      const std::function<T(void)>& sampling_fn,
+      const std::function<std::vector<std::pair<T, int64_t>>(const T&, const T&)>&
           forward_propagation_fn,
       const std::function<bool(void)>& termination_check_fn) {
     // Make sure we've been given a start state
@@ -543,20 +547,20 @@ class SimpleHybridRRTPlanner {
     // Plan
     while (!termination_check_fn()) {
       // Sample a random goal
-      const StateType random_target = sampling_fn();
+      const T random_target = sampling_fn();
       // Get the nearest neighbor
-      const int64_t nearest_neighbor_index = nearest_neighbor_fn(nodes, random_target);
-      if (unlikely(nearest_neighbor_index < 0)) {
+      const int64_t nearest_neighbor_index = nearest_neighbor_fn(tree, random_target);
+      if (arc_unlikely(nearest_neighbor_index < 0)) {
         break;
       }
-      const T& nearest_neighbor = nodes.at(nearest_neighbor_index).GetValueImmutable();
+      const T& nearest_neighbor = tree.at(nearest_neighbor_index).GetValueImmutable();
       // Forward propagate towards the goal
-      std::vector<std::pair<StateType, int64_t>> propagated = forward_propagation_fn(nearest_neighbor, random_target);
+      std::vector<std::pair<T, int64_t>> propagated = forward_propagation_fn(nearest_neighbor, random_target);
       if (!propagated.empty()) {
         statistics["total_samples"] += 1.0;
         statistics["successful_samples"] += 1.0;
         for (size_t idx = 0; idx < propagated.size(); idx++) {
-          const std::pair<StateType, int64_t>& current_propagation = propagated[idx];
+          const std::pair<T, int64_t>& current_propagation = propagated[idx];
           // Determine the parent index of the new state
           // This process deserves some explanation
           // The "current relative parent index" is the index of the parent, relative to the list of propagated nodes.
@@ -581,9 +585,9 @@ class SimpleHybridRRTPlanner {
           const T& current_propagated = current_propagation.first;
           const SimpleRRTPlannerState<T, Allocator> new_state(current_propagated, node_parent_index);
           // Add the state to the tree
-          nodes.push_back(new_state);
-          const int64_t new_node_index = (int64_t)nodes.size() - 1;
-          nodes[node_parent_index].AddChildIndex(new_node_index);
+          tree.push_back(new_state);
+          const int64_t new_node_index = (int64_t)tree.size() - 1;
+          tree[node_parent_index].AddChildIndex(new_node_index);
           // Call the state added callback
           state_added_fn(tree, new_node_index);
           // Check if we've reached the goal
@@ -602,14 +606,14 @@ class SimpleHybridRRTPlanner {
     if (CheckTreeLinkage(tree) == false) {
       throw std::runtime_error("Tree linkage was corrupted during planning");
     }
-    const std::vector<std::vector<StateType, StateAllocator>> planned_paths =
+    const std::vector<std::vector<T, Allocator>> planned_paths =
         ExtractSolutionPaths(tree, goal_state_indices);
     const std::chrono::time_point<std::chrono::steady_clock> cur_time = std::chrono::steady_clock::now();
     const std::chrono::duration<double> planning_time(cur_time - start_time);
     statistics["planning_time"] = planning_time.count();
     statistics["total_states"] = tree.size();
     statistics["solutions"] = (double)planned_paths.size();
-    return std::pair<std::vector<std::vector<StateType, StateAllocator>>, std::map<std::string, double>>(planned_paths,
+    return std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>>(planned_paths,
                                                                                                          statistics);
   }
 
@@ -817,8 +821,8 @@ class SimpleHybridBiRRTPlanner {
    * statistics - map of string keys/double values of planner statistics (i.e. run time, #states explored, #states in
    * solution
    */
-  template <typename T, typename Allocator = std::allocator<T>>
-  static std::pair<std::vector<std::vector<T>>, std::map<std::string, double>> PlanMultiPath(
+  template <typename RNG, typename T, typename Allocator = std::allocator<T>>
+  static std::pair<std::vector<std::vector<T, Allocator>>, std::map<std::string, double>> PlanMultiPath(
       const T& start, const T& goal,
       const std::function<int64_t(const std::vector<SimpleRRTPlannerState<T, Allocator>>&, const T&)>&
           nearest_neighbor_fn,
@@ -915,7 +919,7 @@ class SimpleHybridBiRRTPlanner {
           (sample_from_tree) ? target_tree.at(target_tree_node_index).GetValueImmutable() : state_sampling_fn();
       // Get the nearest neighbor
       const int64_t nearest_neighbor_index = nearest_neighbor_fn(active_tree, target_state);
-      if (unlikely(nearest_neighbor_index < 0)) {
+      if (arc_unlikely(nearest_neighbor_index < 0)) {
         break;
       }
       const StateType& nearest_neighbor = active_tree.at(nearest_neighbor_index).GetValueImmutable();
-- 
2.43.0


From 1a5ca838a5519ce40325d79e73878a806f1edf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 17/26] fix: CheckTreeLinkage accepted parent indices beyond
 the tree

The path extraction then failed with out_of_range for a tree that had passed the check.
---
 include/arc_utilities/simple_rrt_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_rrt_planner.hpp b/include/arc_utilities/simple_rrt_planner.hpp
index b1576af..d4c2a26 100644
--- a/include/arc_utilities/simple_rrt_planner.hpp
+++ b/include/arc_utilities/simple_rrt_planner.hpp
@@ -652,7 +652,7 @@ class SimpleHybridRRTPlanner {
                     << " [Indices can't be the same]" << std::endl;
           return false;
         }
-      } else if (parent_index < -1) {
+      } else if (parent_index != -1) {
         std::cerr << "Invalid parent index " << parent_index << " for state " << current_index << std::endl;
         return false;
       }
-- 
2.43.0


From f09fe617d8be01ef3f66bf49612232066f79d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 18/26] fix: deserializing an empty matrix at the end of a
 buffer indexed past the buffer

The address of the cells was taken with operator[] one past the last byte; with
library assertions enabled a valid buffer aborted the program.
---
 include/arc_utilities/serialization_eigen.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/arc_utilities/serialization_eigen.hpp b/include/arc_utilities/serialization_eigen.hpp
index dcfe645..6f59705 100644
--- a/include/arc_utilities/serialization_eigen.hpp
+++ b/include/arc_utilities/serialization_eigen.hpp
@@ -116,7 +116,7 @@ inline std::pair<Eigen::VectorXd, uint64_t> DeserializeEigen<Eigen::VectorXd>(co
   const uint64_t serialized_size = SerializedSizeEigen(temp_value);
   assert((current + serialized_size) <= buffer.size());
   // Load from the buffer
-  memcpy(temp_value.data(), &buffer[current + sizeof(size_header)], (serialized_size - sizeof(size_header)));
+  memcpy(temp_value.data(), buffer.data() + current + sizeof(size_header), (serialized_size - sizeof(size_header)));
   return std::make_pair(temp_value, serialized_size);
 }
 
@@ -136,7 +136,7 @@ inline std::pair<Eigen::MatrixXd, uint64_t> DeserializeEigen<Eigen::MatrixXd>(co
   const uint64_t serialized_size = SerializedSizeEigen(temp_value);
   assert((current + serialized_size) <= buffer.size());
   // Load from the buffer
-  memcpy(temp_value.data(), &buffer[current + 2 * sizeof(rows_header)], (serialized_size - 2 * sizeof(rows_header)));
+  memcpy(temp_value.data(), buffer.data() + current + 2 * sizeof(rows_header), (serialized_size - 2 * sizeof(rows_header)));
   return std::make_pair(temp_value, serialized_size);
 }
 
@@ -154,7 +154,7 @@ inline std::pair<Eigen::Matrix3Xd, uint64_t> DeserializeEigen<Eigen::Matrix3Xd>(
   const uint64_t serialized_size = SerializedSizeEigen(temp_value);
   assert((current + serialized_size) <= buffer.size());
   // Load from the buffer
-  memcpy(temp_value.data(), &buffer[current + sizeof(cols_header)], (serialized_size - sizeof(cols_header)));
+  memcpy(temp_value.data(), buffer.data() + current + sizeof(cols_header), (serialized_size - sizeof(cols_header)));
   return std::make_pair(temp_value, serialized_size);
 }
 
@@ -172,7 +172,7 @@ inline std::pair<Eigen::Matrix3Xf, uint64_t> DeserializeEigen<Eigen::Matrix3Xf>(
   const uint64_t serialized_size = SerializedSizeEigen(temp_value);
   assert((current + serialized_size) <= buffer.size());
   // Load from the buffer
-  memcpy(temp_value.data(), &buffer[current + sizeof(cols_header)], (serialized_size - sizeof(cols_header)));
+  memcpy(temp_value.data(), buffer.data() + current + sizeof(cols_header), (serialized_size - sizeof(cols_header)));
   return std::make_pair(temp_value, serialized_size);
 }
 
@@ -192,7 +192,7 @@ inline std::pair<Eigen::MatrixXf, uint64_t> DeserializeEigen<Eigen::MatrixXf>(co
   const uint64_t serialized_size = SerializedSizeEigen(temp_value);
   assert((current + serialized_size) <= buffer.size());
   // Load from the buffer
-  memcpy(temp_value.data(), &buffer[current + 2 * sizeof(rows_header)], (serialized_size - 2 * sizeof(rows_header)));
+  memcpy(temp_value.data(), buffer.data() + current + 2 * sizeof(rows_header), (serialized_size - 2 * sizeof(rows_header)));
   return std::make_pair(temp_value, serialized_size);
 }
 
-- 
2.43.0


From 30175cd53f20b97cef75006199942a6849f6f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 19/26] fix: simple_prm_planner.hpp did not compile without
 eigen or math helpers included before it

---
 include/arc_utilities/simple_prm_planner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index 95834d5..666820a 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -3,6 +3,7 @@
 
 #include <arc_utilities/arc_helpers.hpp>
 #include <arc_utilities/dijkstras.hpp>
+#include <arc_utilities/math_helpers.hpp>
 #include <chrono>
 #include <functional>
 #include <random>
-- 
2.43.0


From d36de87fa033d66fcb506bac332ccbb38fc5c8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 20/26] fix: UpdateRoadMapEdges called a member that does not
 exist

---
 include/arc_utilities/simple_prm_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index 666820a..6c78acc 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -143,7 +143,7 @@ class SimpleGeometricPrmPlanner {
   static void UpdateRoadMapEdges(arc_dijkstras::Graph<T, Allocator>& roadmap,
                                  const std::function<bool(const T&, const T&)>& edge_validity_check_fn,
                                  const std::function<double(const T&, const T&)>& distance_fn) {
-    if (roadmap.CheckGraphLinkage() == false) {
+    if (roadmap.checkGraphLinkage() == false) {
       throw std::invalid_argument("Provided roadmap has invalid linkage");
     }
 #ifdef ENABLE_PARALLEL_ROADMAP
-- 
2.43.0


From 1638af89dceacf08aa5a2bdc035c6b1ccda19e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:03 +0000
Subject: [PATCH 21/26] fix: adding a state that leads to the roadmap failed
 for asymmetric distances

---
 include/arc_utilities/simple_prm_planner.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index 6c78acc..cee1de6 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -69,10 +69,11 @@ class SimpleGeometricPrmPlanner {
         if (distance_is_symmetric) {
           nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, nearest_neighbor_distance);
         } else {
-          const double reverse_graph_distance = distance_fn(state, roadmap.getNode(nearest_neighbor_index).getValue());
           if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
+            const double reverse_graph_distance = distance_fn(state, nearest_neighbor_state);
             nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, reverse_graph_distance);
-          } else if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
+          } else if (nn_distance_direction == NEW_STATE_TO_ROADMAP) {
+            const double reverse_graph_distance = distance_fn(nearest_neighbor_state, state);
             nearest_neighbors_distances[idx] = std::make_pair(reverse_graph_distance, nearest_neighbor_distance);
           } else {
             assert(false && "This code should not be reachable");
-- 
2.43.0


From e58a0a16f2105720f108240bd2f4122795de336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 22/26] fix: measure the distance to a line from the offset to
 it, so the check in DistanceToLine does not abort for points far from the
 origin

---
 include/arc_utilities/eigen_helpers.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index cfd2ab7..d2b4430 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -890,8 +890,9 @@ inline std::pair<double, double> DistanceToLine(const Eigen::Vector3d& point_on_
 
   const auto delta = x - point_on_line;
   const double displacement_along_line = real_unit_vector.dot(delta);
-  const auto x_projected_onto_line = point_on_line + real_unit_vector * displacement_along_line;
-  const double distance_to_line = (x_projected_onto_line - x).norm();
+  // Measured from delta: projecting in absolute coordinates loses the digits that the check below needs when x is close
+  // to point_on_line but far from the origin
+  const double distance_to_line = (delta - real_unit_vector * displacement_along_line).norm();
 
   // A simple neccescary (but not sufficient) check to look for math errors
   assert(IsApprox(distance_to_line * distance_to_line + displacement_along_line * displacement_along_line,
-- 
2.43.0


From ce68f1bb32b3eed6efa58d83b79301c943b2faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 23/26] fix: ConvertConeToPyramid aborted for cones along (1,
 1, 1)

---
 include/arc_utilities/eigen_helpers.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index d2b4430..172fe98 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -912,6 +912,10 @@ inline VectorVector3d ConvertConeToPyramid(const Eigen::Vector3d& cone_direction
   auto tmp = VectorRejection(cone_direction, Eigen::Vector3d::UnitX());
   tmp += VectorRejection(cone_direction, Eigen::Vector3d::UnitY());
   tmp += VectorRejection(cone_direction, Eigen::Vector3d::UnitZ());
+  // The sum vanishes if cone_direction is parallel to (1, 1, 1), no axis is parallel to that
+  if (tmp.norm() <= 1e-6) {
+    tmp = VectorRejection(cone_direction, Eigen::Vector3d::UnitX());
+  }
 
   assert(tmp.norm() > 1e-6);
   tmp.normalize();
-- 
2.43.0


From 060dca436e37d30ae5481b7347817a2ef3720d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 24/26] fix: ConvertTo<std::vector<double>> read eight times
 the size of the vector

---
 include/arc_utilities/eigen_std_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_std_conversions.hpp b/include/arc_utilities/eigen_std_conversions.hpp
index c0d6819..be4c5fb 100644
--- a/include/arc_utilities/eigen_std_conversions.hpp
+++ b/include/arc_utilities/eigen_std_conversions.hpp
@@ -10,7 +10,7 @@ Output ConvertTo(Eigen::VectorXd const &vec);
 
 template <>
 std::vector<double> ConvertTo<std::vector<double>>(Eigen::VectorXd const &vec) {
-  return std::vector<double>(vec.data(), vec.data() + static_cast<unsigned long>(vec.size()) * sizeof(double));
+  return std::vector<double>(vec.data(), vec.data() + vec.size());
 }
 
 #endif  // LGV_EIGEN_STD_CONVERSIONS
-- 
2.43.0


From 78ca18bd907086ff33a583ee6d5f782b6bfb07d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 25/26] fix: TwistBetweenTransforms did not compile for any
 transform

---
 include/arc_utilities/eigen_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index 172fe98..9c3256e 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -213,7 +213,7 @@ inline Eigen::Matrix<double, 6, 1> TwistBetweenTransforms(const Eigen::Transform
                                                           const Eigen::Transform<double, 3, _Mode>& end) {
   EIGEN_STATIC_ASSERT(_Mode == Eigen::Affine || _Mode == Eigen::Isometry,
                       "THIS FUNCTION IS ONLY INTENDED FOR HOMOGENEOUS TRANSFORMS!!!");
-  const Eigen::Transform<double, 3, _Mode> t_diff = start.inverse(_Mode) * end;
+  const Eigen::Transform<double, 3, _Mode> t_diff = start.inverse((Eigen::TransformTraits)_Mode) * end;
   return TwistUnhat(t_diff.matrix().log());
 }
 
-- 
2.43.0


From cb2e5df2e68fcf780271b6add4fefd7cfe404ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:49 +0000
Subject: [PATCH 26/26] fix: the distance between (nearly) equal rotation
 matrices was not a number

---
 include/arc_utilities/eigen_helpers.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index 9c3256e..f5d4b01 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -347,7 +347,9 @@ inline double Distance(const Eigen::Quaterniond& q1, const Eigen::Quaterniond& q
 inline double Distance(const Eigen::Matrix3d& r1, const Eigen::Matrix3d& r2) {
   const auto delta = r1 * r2.transpose();
   const auto tr = delta.trace();
-  return acos((tr - 1.0) / 2.0);
+  // Rounding can take the cosine slightly out of [-1, 1], where acos is not a number
+  const double cos_angle = (tr - 1.0) / 2.0;
+  return acos(std::max(-1.0, std::min(1.0, cos_angle)));
 }
 
 inline double Distance(const Eigen::Isometry3d& t1, const Eigen::Isometry3d& t2, const double alpha = 0.5) {
-- 
2.43.0

