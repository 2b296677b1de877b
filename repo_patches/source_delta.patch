From c64667fd0c10762b81109134443c67f9b6ee2e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 01/22] fix: base64 decode no longer indexes its table with
 negative characters

---
 src/arc_utilities/base64_helpers.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/arc_utilities/base64_helpers.cpp b/src/arc_utilities/base64_helpers.cpp
index 90d0f82..cb978f9 100644
--- a/src/arc_utilities/base64_helpers.cpp
+++ b/src/arc_utilities/base64_helpers.cpp
@@ -30,17 +30,20 @@ std::vector<uint8_t> Decode(const std::string& encoded) {
   const size_t L = ((encoded_length + 3) / 4 - pad) * 4;
   std::vector<uint8_t> buffer(L / 4 * 3 + pad, 0x00);
   for (size_t i = 0, j = 0; i < L; i += 4) {
-    const int32_t n = B64IndexTable[encoded[i]] << 18 | B64IndexTable[encoded[i + 1]] << 12 |
-                      B64IndexTable[encoded[i + 2]] << 6 | B64IndexTable[encoded[i + 3]];
+    const int32_t n = B64IndexTable[static_cast<uint8_t>(encoded[i])] << 18 |
+                      B64IndexTable[static_cast<uint8_t>(encoded[i + 1])] << 12 |
+                      B64IndexTable[static_cast<uint8_t>(encoded[i + 2])] << 6 |
+                      B64IndexTable[static_cast<uint8_t>(encoded[i + 3])];
     buffer[j++] = (uint8_t)(n >> 16);
     buffer[j++] = (uint8_t)(n >> 8 & 0xFF);
     buffer[j++] = (uint8_t)(n & 0xFF);
   }
   if (pad > 0) {
-    int32_t n = B64IndexTable[encoded[L]] << 18 | B64IndexTable[encoded[L + 1]] << 12;
+    int32_t n = B64IndexTable[static_cast<uint8_t>(encoded[L])] << 18 |
+                B64IndexTable[static_cast<uint8_t>(encoded[L + 1])] << 12;
     buffer[buffer.size() - 1] = (uint8_t)(n >> 16);
     if (encoded_length > L + 2 && encoded[L + 2] != '=') {
-      n |= B64IndexTable[encoded[L + 2]] << 6;
+      n |= B64IndexTable[static_cast<uint8_t>(encoded[L + 2])] << 6;
       buffer.push_back((uint8_t)(n >> 8 & 0xFF));
     }
   }
-- 
2.43.0


From af1d55e44643f65908e3a3ab954abfd1b5442256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 02/22] fix: report a failed flush or close when writing
 compressed files

---
 src/arc_utilities/zlib_helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arc_utilities/zlib_helpers.cpp b/src/arc_utilities/zlib_helpers.cpp
index b7222ad..ac3e7cd 100644
--- a/src/arc_utilities/zlib_helpers.cpp
+++ b/src/arc_utilities/zlib_helpers.cpp
@@ -186,7 +186,7 @@ void CompressAndWriteToFile(const std::vector<uint8_t>& uncompressed, const std:
   }
   output_file.write(reinterpret_cast<const char*>(compressed.data()), (std::streamsize)compressed.size());
   output_file.close();
-  if (output_file.bad()) {
+  if (output_file.fail()) {
     throw_arc_exception(std::runtime_error, "Error writing to file");
   }
 }
-- 
2.43.0


From fedacaf6288288e74a7c78f56eea5a862ea24033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 03/22] fix: locations just outside the low faces of a voxel
 grid no longer map to cell 0

---
 include/arc_utilities/voxel_grid.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/arc_utilities/voxel_grid.hpp b/include/arc_utilities/voxel_grid.hpp
index 64f13f7..b175b53 100644
--- a/include/arc_utilities/voxel_grid.hpp
+++ b/include/arc_utilities/voxel_grid.hpp
@@ -757,23 +757,23 @@ class VoxelGrid {
   }
 
   inline GRID_INDEX PointInFrameToGridIndex(const double x, const double y, const double z) const {
-    const int64_t x_cell = (int64_t)(x * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(y * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(z * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(x * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(y * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(z * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex3d(const Eigen::Vector3d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
   inline GRID_INDEX PointInFrameToGridIndex4d(const Eigen::Vector4d& point_in_grid_frame) const {
-    const int64_t x_cell = (int64_t)(point_in_grid_frame(0) * inv_cell_x_size_);
-    const int64_t y_cell = (int64_t)(point_in_grid_frame(1) * inv_cell_y_size_);
-    const int64_t z_cell = (int64_t)(point_in_grid_frame(2) * inv_cell_z_size_);
+    const int64_t x_cell = (int64_t)std::floor(point_in_grid_frame(0) * inv_cell_x_size_);
+    const int64_t y_cell = (int64_t)std::floor(point_in_grid_frame(1) * inv_cell_y_size_);
+    const int64_t z_cell = (int64_t)std::floor(point_in_grid_frame(2) * inv_cell_z_size_);
     return GRID_INDEX(x_cell, y_cell, z_cell);
   }
 
-- 
2.43.0


From 71900d93bcd891d2b164487992e386e2d0ed9d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 04/22] fix: SetChunkValue by coordinates sets the chunk, not a
 single cell

---
 include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index 1220884..a892645 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -538,12 +538,12 @@ class DynamicSpatialHashedVoxelGrid {
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, const T& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline SET_STATUS SetChunkValue(const double x, const double y, const double z, T&& value) {
     Eigen::Vector3d location(x, y, z);
-    return SetCellValue(location, value);
+    return SetChunkValue(location, value);
   }
 
   inline CHUNK_REGION GetContainingChunkRegion(const Eigen::Vector3d& grid_location) const {
-- 
2.43.0


From d4c6f906b3e05cd3901f8766a436c8ece4706ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 05/22] fix: a default-constructed dynamic voxel grid reports
 itself uninitialized

---
 include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
index a892645..f64f99f 100644
--- a/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
+++ b/include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp
@@ -489,7 +489,7 @@ class DynamicSpatialHashedVoxelGrid {
     chunk_z_size_ = cell_z_size_ * (double)chunk_num_z_cells_;
     chunk_stride1_ = chunk_num_y_cells_ * chunk_num_z_cells_;
     chunk_stride2_ = chunk_num_z_cells_;
-    initialized_ = true;
+    initialized_ = false;
   }
 
   inline void Initialize(const Eigen::Isometry3d& origin_transform, const double cell_x_size, const double cell_y_size,
-- 
2.43.0


From d094b7014a0b620e88e649afe01a31f7bc7919fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 06/22] fix: mark the starting node of a connected component

---
 include/arc_utilities/graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/graph.hpp b/include/arc_utilities/graph.hpp
index e2209ba..7508572 100644
--- a/include/arc_utilities/graph.hpp
+++ b/include/arc_utilities/graph.hpp
@@ -276,6 +276,7 @@ class Graph {
     // avoid duplication, unlike what is used in CollisionMapGrid::MarkConnectedComponent
     std::queue<int64_t> working_queue;
     working_queue.push(starting_node_idx);
+    components[starting_node_idx] = component_id;
     size_t num_marked = 1;
 
     while (working_queue.size() > 0) {
-- 
2.43.0


From a870df8013213e0ebcf1721713e9a05f3f996bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 07/22] fix: connect new roadmap states whose distances depend
 on the direction

---
 include/arc_utilities/simple_prm_planner.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index 95834d5..d042617 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -68,10 +68,11 @@ class SimpleGeometricPrmPlanner {
         if (distance_is_symmetric) {
           nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, nearest_neighbor_distance);
         } else {
-          const double reverse_graph_distance = distance_fn(state, roadmap.getNode(nearest_neighbor_index).getValue());
           if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
+            const double reverse_graph_distance = distance_fn(state, nearest_neighbor_state);
             nearest_neighbors_distances[idx] = std::make_pair(nearest_neighbor_distance, reverse_graph_distance);
-          } else if (nn_distance_direction == ROADMAP_TO_NEW_STATE) {
+          } else if (nn_distance_direction == NEW_STATE_TO_ROADMAP) {
+            const double reverse_graph_distance = distance_fn(nearest_neighbor_state, state);
             nearest_neighbors_distances[idx] = std::make_pair(reverse_graph_distance, nearest_neighbor_distance);
           } else {
             assert(false && "This code should not be reachable");
-- 
2.43.0


From f932dc97c2fe666369a135aa7bb3ee718e585f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 08/22] fix: call the roadmap's own linkage check so that
 updating its edges compiles

---
 include/arc_utilities/simple_prm_planner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_prm_planner.hpp b/include/arc_utilities/simple_prm_planner.hpp
index d042617..b102b03 100644
--- a/include/arc_utilities/simple_prm_planner.hpp
+++ b/include/arc_utilities/simple_prm_planner.hpp
@@ -143,7 +143,7 @@ class SimpleGeometricPrmPlanner {
   static void UpdateRoadMapEdges(arc_dijkstras::Graph<T, Allocator>& roadmap,
                                  const std::function<bool(const T&, const T&)>& edge_validity_check_fn,
                                  const std::function<double(const T&, const T&)>& distance_fn) {
-    if (roadmap.CheckGraphLinkage() == false) {
+    if (roadmap.checkGraphLinkage() == false) {
       throw std::invalid_argument("Provided roadmap has invalid linkage");
     }
 #ifdef ENABLE_PARALLEL_ROADMAP
-- 
2.43.0


From d5d55bb46cdce3ba9b38a0915500a64cdd17417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 09/22] fix: size the distance matrix between two data sets by
 both of them

---
 include/arc_utilities/arc_helpers.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 379e1a4..65ca776 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -509,7 +509,7 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
 #if defined(_OPENMP)
 #pragma omp parallel for
 #endif
@@ -517,7 +517,6 @@ inline Eigen::MatrixXd BuildDistanceMatrixParallel(
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
@@ -548,12 +547,11 @@ template <typename FirstDatatype, typename SecondDatatype, typename FirstAllocat
 inline Eigen::MatrixXd BuildDistanceMatrixSerial(
     const std::vector<FirstDatatype, FirstAllocator>& data1, const std::vector<SecondDatatype, SecondAllocator>& data2,
     const std::function<double(const FirstDatatype&, const SecondDatatype&)>& distance_fn) {
-  Eigen::MatrixXd distance_matrix(data1.size(), data1.size());
+  Eigen::MatrixXd distance_matrix(data1.size(), data2.size());
   for (size_t idx = 0; idx < data1.size(); idx++) {
     for (size_t jdx = 0; jdx < data2.size(); jdx++) {
       const double distance = distance_fn(data1[idx], data2[jdx]);
       distance_matrix((ssize_t)idx, (ssize_t)jdx) = distance;
-      distance_matrix((ssize_t)jdx, (ssize_t)idx) = distance;
     }
   }
   return distance_matrix;
-- 
2.43.0


From 1fde4f6f547ff66626f8cc5da0386b1149b5e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 10/22] fix: leave unfilled entries out of the nearest
 neighbors found serially

---
 include/arc_utilities/arc_helpers.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 65ca776..d6a2db8 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -651,6 +651,10 @@ std::vector<std::pair<int64_t, double>> GetKNearestNeighborsSerial(
         itr->second = distance;
       }
     }
+    // Entries that no item at a finite distance has filled are not neighbors
+    k_nearests.erase(std::remove_if(k_nearests.begin(), k_nearests.end(),
+                                    [](const std::pair<int64_t, double>& nearest) { return nearest.first == -1; }),
+                     k_nearests.end());
     return k_nearests;
   } else {
     std::vector<std::pair<int64_t, double>> k_nearests(items.size(),
-- 
2.43.0


From 9f463496e82c8b3a022d2ca72256586f124836ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:40 +0000
Subject: [PATCH 11/22] fix: give the signed distance between wrapped angles
 the sign of the shorter way around

---
 include/arc_utilities/math_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/math_helpers.hpp b/include/arc_utilities/math_helpers.hpp
index 4f81a18..790f7ec 100644
--- a/include/arc_utilities/math_helpers.hpp
+++ b/include/arc_utilities/math_helpers.hpp
@@ -179,9 +179,9 @@ inline double ContinuousRevoluteSignedDistance(const double p1, const double p2)
   const double raw_distance = real_p2 - real_p1;
   if ((raw_distance <= -M_PI) || (raw_distance > M_PI)) {
     if (raw_distance <= -M_PI) {
-      return (-(2.0 * M_PI) - raw_distance);
+      return (raw_distance + (2.0 * M_PI));
     } else if (raw_distance > M_PI) {
-      return ((2.0 * M_PI) - raw_distance);
+      return (raw_distance - (2.0 * M_PI));
     } else {
       return raw_distance;
     }
-- 
2.43.0


From dd077de6affe03b664ed79ee3166261c078a64de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 12/22] fix: give the preliminary weighted clustering the
 weights of its own subset

---
 include/arc_utilities/simple_kmeans_clustering.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/arc_utilities/simple_kmeans_clustering.hpp b/include/arc_utilities/simple_kmeans_clustering.hpp
index fd90f64..9a78ecb 100644
--- a/include/arc_utilities/simple_kmeans_clustering.hpp
+++ b/include/arc_utilities/simple_kmeans_clustering.hpp
@@ -299,20 +299,23 @@ class SimpleKMeansClustering {
       }
       std::vector<Datatype, Allocator> random_subset;
       random_subset.reserve(subset_size);
+      std::vector<double> random_subset_weights;
+      random_subset_weights.reserve(subset_size);
       for (auto itr = index_map.begin(); itr != index_map.end(); ++itr) {
         if (itr->second == 1u) {
           const size_t random_index = itr->first;
           const Datatype& random_element = data[random_index];
           random_subset.push_back(random_element);
+          random_subset_weights.push_back(weights[random_index]);
         }
       }
       assert(random_subset.size() == subset_size);
       // Run clustering on the subset
       std::vector<uint32_t> random_subset_labels =
-          ClusterWeighted(random_subset, weights, distance_fn, average_fn, num_clusters, false);
+          ClusterWeighted(random_subset, random_subset_weights, distance_fn, average_fn, num_clusters, false);
       // Now we use the centers of the clusters to form the cluster centers
-      cluster_centers =
-          ComputeClusterCentersWeighted(random_subset, weights, random_subset_labels, average_fn, num_clusters);
+      cluster_centers = ComputeClusterCentersWeighted(random_subset, random_subset_weights, random_subset_labels,
+                                                      average_fn, num_clusters);
     } else {
       // This makes sure we don't get duplicates
       std::map<size_t, uint8_t> index_map;
-- 
2.43.0


From c264114039d28c2157345e5651162f3443c8dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 13/22] fix: end hierarchical clustering when no pair is left
 to merge

---
 include/arc_utilities/simple_hierarchical_clustering.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/simple_hierarchical_clustering.hpp b/include/arc_utilities/simple_hierarchical_clustering.hpp
index 945960a..beef63f 100644
--- a/include/arc_utilities/simple_hierarchical_clustering.hpp
+++ b/include/arc_utilities/simple_hierarchical_clustering.hpp
@@ -259,7 +259,8 @@ class SimpleHierarchicalClustering {
           closest_element_pair.first;
       closest_distance = closest_element_pair.second;
       // std::cout << "Element pair: " << PrettyPrint::PrettyPrint(closest_element_pair, true) << std::endl;
-      if (closest_distance <= max_cluster_distance) {
+      // No pair is left once everything has been merged (or everything left is infinitely far apart)
+      if (closest_elements.first.second >= 0 && closest_distance <= max_cluster_distance) {
         const std::pair<bool, int64_t>& first_element = closest_elements.first;
         const std::pair<bool, int64_t>& second_element = closest_elements.second;
         // If both elements are points, create a new cluster
-- 
2.43.0


From deaca12c663ad0313aebb98446185fbcd63c6372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 14/22] fix: keep the angle between rotation matrices a number
 when rounding pushes its cosine out of range

---
 include/arc_utilities/eigen_helpers.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index cfd2ab7..8462c5a 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -347,7 +347,9 @@ inline double Distance(const Eigen::Quaterniond& q1, const Eigen::Quaterniond& q
 inline double Distance(const Eigen::Matrix3d& r1, const Eigen::Matrix3d& r2) {
   const auto delta = r1 * r2.transpose();
   const auto tr = delta.trace();
-  return acos((tr - 1.0) / 2.0);
+  // Rounding can push the cosine slightly outside of [-1, 1]
+  const double cosine = std::max(-1.0, std::min((tr - 1.0) / 2.0, 1.0));
+  return acos(cosine);
 }
 
 inline double Distance(const Eigen::Isometry3d& t1, const Eigen::Isometry3d& t2, const double alpha = 0.5) {
-- 
2.43.0


From 819c7a970724207c4403c69e37db7e422391b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 15/22] fix: build a pyramid for cones in every direction, (1,
 1, 1) included

---
 include/arc_utilities/eigen_helpers.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/arc_utilities/eigen_helpers.hpp b/include/arc_utilities/eigen_helpers.hpp
index 8462c5a..919ec2a 100644
--- a/include/arc_utilities/eigen_helpers.hpp
+++ b/include/arc_utilities/eigen_helpers.hpp
@@ -910,12 +910,7 @@ inline std::pair<double, double> DistanceToLine(const Eigen::Vector3d& point_on_
 inline VectorVector3d ConvertConeToPyramid(const Eigen::Vector3d& cone_direction,
                                            const double min_normalized_dot_product) {
   // Build a vector that is garunteed to be perpendicular to cone_direction, and non-zero
-  auto tmp = VectorRejection(cone_direction, Eigen::Vector3d::UnitX());
-  tmp += VectorRejection(cone_direction, Eigen::Vector3d::UnitY());
-  tmp += VectorRejection(cone_direction, Eigen::Vector3d::UnitZ());
-
-  assert(tmp.norm() > 1e-6);
-  tmp.normalize();
+  const Eigen::Vector3d tmp = cone_direction.unitOrthogonal();
 
   const Eigen::Vector3d p1 = tmp;
   const Eigen::Vector3d p2 = cone_direction.cross(p1).normalized();
-- 
2.43.0


From 062941fa88699f41b7dc46ace06815385983067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 16/22] fix: keep the blend angle of a path that turns straight
 back a number

---
 src/arc_utilities/time_optimal_trajectory_parametrization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
index ab1ee4b..b2cea82 100644
--- a/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
+++ b/src/arc_utilities/time_optimal_trajectory_parametrization.cpp
@@ -56,7 +56,8 @@ class CircularPathSegment : public PathSegment {
       return;
     }
     double distance = std::min((start - intersection).norm(), (end - intersection).norm());
-    const double angle = std::acos(start_direction.dot(end_direction));
+    // Rounding can push the cosine slightly outside of [-1, 1]
+    const double angle = std::acos(std::max(-1.0, std::min(start_direction.dot(end_direction), 1.0)));
     // Enforce max deviation limit
     const double deviation_limited_distance = max_deviation * std::sin(0.5 * angle) / (1.0 - std::cos(0.5 * angle));
     distance = std::min(distance, deviation_limited_distance);
-- 
2.43.0


From 791ddf54f7867cca1349dfa248e9d0b65d7c3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:36 +0000
Subject: [PATCH 17/22] fix: read only the vector's own numbers when converting
 it to a std::vector

---
 include/arc_utilities/eigen_std_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/eigen_std_conversions.hpp b/include/arc_utilities/eigen_std_conversions.hpp
index c0d6819..be4c5fb 100644
--- a/include/arc_utilities/eigen_std_conversions.hpp
+++ b/include/arc_utilities/eigen_std_conversions.hpp
@@ -10,7 +10,7 @@ Output ConvertTo(Eigen::VectorXd const &vec);
 
 template <>
 std::vector<double> ConvertTo<std::vector<double>>(Eigen::VectorXd const &vec) {
-  return std::vector<double>(vec.data(), vec.data() + static_cast<unsigned long>(vec.size()) * sizeof(double));
+  return std::vector<double>(vec.data(), vec.data() + vec.size());
 }
 
 #endif  // LGV_EIGEN_STD_CONVERSIONS
-- 
2.43.0


From 126b8fed9f0988a52ca0236e5c6a1f36bb9e025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 18/22] fix: take the cheapest neighbour in dynamic time
 warping even when two are tied

---
 include/arc_utilities/simple_dtw.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/arc_utilities/simple_dtw.hpp b/include/arc_utilities/simple_dtw.hpp
index f4f021c..ee766c6 100644
--- a/include/arc_utilities/simple_dtw.hpp
+++ b/include/arc_utilities/simple_dtw.hpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -54,19 +55,12 @@ class SimpleDTW {
       for (ssize_t j = 1; j <= (ssize_t)second_sequence.size(); j++) {
         const SecondDatatype& second_item = second_sequence[(size_t)j - 1];
         const double index_cost = distance_fn(first_item, second_item);
-        double prev_cost = 0.0;
         // Get the three neighboring values from the matrix to use for the update
         double im1j = dtw_matrix_(i - 1, j);
         double im1jm1 = dtw_matrix_(i - 1, j - 1);
         double ijm1 = dtw_matrix_(i, j - 1);
-        // Start the update step
-        if (im1j < im1jm1 && im1j < ijm1) {
-          prev_cost = im1j;
-        } else if (ijm1 < im1j && ijm1 < im1jm1) {
-          prev_cost = ijm1;
-        } else {
-          prev_cost = im1jm1;
-        }
+        // The cheapest way to get here, whichever neighbours are tied
+        const double prev_cost = std::min(im1jm1, std::min(im1j, ijm1));
         // Update the value in the matrix
         const double new_cost = index_cost + prev_cost;
         dtw_matrix_(i, j) = new_cost;
-- 
2.43.0


From 188e1ba5edbcd8e237c4d436d39f10329b64709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:17 +0000
Subject: [PATCH 19/22] fix: make the cost of warping to an empty sequence
 independent of earlier evaluations

---
 include/arc_utilities/simple_dtw.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/arc_utilities/simple_dtw.hpp b/include/arc_utilities/simple_dtw.hpp
index ee766c6..04f6961 100644
--- a/include/arc_utilities/simple_dtw.hpp
+++ b/include/arc_utilities/simple_dtw.hpp
@@ -25,13 +25,12 @@ class SimpleDTW {
     const ssize_t cols = (ssize_t)second_sequence_size + 1;
     if (dtw_matrix_.rows() < rows || dtw_matrix_.cols() < cols) {
       dtw_matrix_ = Eigen::MatrixXd::Zero(rows, cols);
-      if (rows > 1 && cols > 1) {
-        for (ssize_t row = 1; row < rows; row++) {
-          dtw_matrix_(row, 0) = std::numeric_limits<double>::infinity();
-        }
-        for (ssize_t col = 1; col < cols; col++) {
-          dtw_matrix_(0, col) = std::numeric_limits<double>::infinity();
-        }
+      // Also set for a single row or column: warping something to nothing must cost the same for every history
+      for (ssize_t row = 1; row < rows; row++) {
+        dtw_matrix_(row, 0) = std::numeric_limits<double>::infinity();
+      }
+      for (ssize_t col = 1; col < cols; col++) {
+        dtw_matrix_(0, col) = std::numeric_limits<double>::infinity();
       }
     }
   }
-- 
2.43.0


From 06e108d0c585a9f9b2c18666c22175056bc45fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 20/22] fix: return only the requested part of a path that has
 enough points already

---
 include/arc_utilities/path_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arc_utilities/path_utils.hpp b/include/arc_utilities/path_utils.hpp
index b31fa13..f38181c 100644
--- a/include/arc_utilities/path_utils.hpp
+++ b/include/arc_utilities/path_utils.hpp
@@ -167,7 +167,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
 
   // Return early with no message if the number of points already matches
   if (end_ind - start_ind == num_points) {
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   }
   // Abort with a warning if the number of points is already too many
   else if (end_ind - start_ind > num_points) {
@@ -175,7 +175,7 @@ inline std::vector<Configuration, ConfigAlloc> UpsamplePathPartial(const std::ve
                  "number of points\n"
               << "Start ind: " << start_ind << "    End ind: " << end_ind << "    Num points: " << num_points
               << std::endl;
-    return path;
+    return std::vector<Configuration, ConfigAlloc>(path.begin() + start_ind, path.begin() + end_ind);
   } else {
     const ssize_t num_segments = end_ind - start_ind - 1;
     assert(num_segments > 0);
-- 
2.43.0


From b64d3df5ca81c06a169e0f5a5d54675bb370b937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:25 +0000
Subject: [PATCH 21/22] fix: read bits above 31 of wide words

GetBit kept the mask in 32 bits, so every higher bit of a 64-bit word read as false.
---
 include/arc_utilities/arc_helpers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index d6a2db8..3a6aa4e 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -172,7 +172,7 @@ inline T SetBit(const T current, const uint32_t bit_position, const bool bit_val
 template <typename T>
 inline bool GetBit(const T current, const uint32_t bit_position) {
   // Type safety checks are performed in the SetBit() function
-  const uint32_t mask = arc_helpers::SetBit((T)0, bit_position, true);
+  const T mask = arc_helpers::SetBit((T)0, bit_position, true);
   return (mask & current) > 0;
 }
 
-- 
2.43.0


From 4fa5c0a0362b8e4855b0c88fac46a97bfd0fc17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:23 +0000
Subject: [PATCH 22/22] fix: start from the first position when XorShift1024*
 is seeded again

seed() refilled the words but kept the position of the earlier draws, so the same seed gave another sequence.
---
 include/arc_utilities/arc_helpers.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/arc_utilities/arc_helpers.hpp b/include/arc_utilities/arc_helpers.hpp
index 3a6aa4e..20348c7 100644
--- a/include/arc_utilities/arc_helpers.hpp
+++ b/include/arc_utilities/arc_helpers.hpp
@@ -916,6 +916,7 @@ class XorShift1024StarPRNG {
   static constexpr uint64_t max(void) { return std::numeric_limits<uint64_t>::max(); }
 
   inline void seed(const uint64_t seed_val) {
+    p = 0;
     SplitMix64PRNG temp_seed_gen(seed_val);
     for (size_t idx = 0u; idx < state_.size(); idx++) {
       state_[idx] = temp_seed_gen();
-- 
2.43.0

