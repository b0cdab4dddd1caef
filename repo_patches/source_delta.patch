From 0916241a0d3b7e2bfd40d0fd19a4b6f686991039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:05 +0000
Subject: [PATCH 001/105] fix: kmeans.predict fails after processing by the C++
 core

---
 pyclustering/cluster/kmeans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/kmeans.py b/pyclustering/cluster/kmeans.py
index 91e1acb..43b8780 100755
--- a/pyclustering/cluster/kmeans.py
+++ b/pyclustering/cluster/kmeans.py
@@ -400,7 +400,7 @@ class kmeans:
                                  (self.__observer is not None), ccore_metric.get_pointer())
 
         self.__clusters = results[0]
-        self.__centers = results[1]
+        self.__centers = numpy.array(results[1])
 
         if self.__observer is not None:
             self.__observer.set_evolution_clusters(results[2])
-- 
2.43.0


From b5479f21c38641f2d5ad8ab29a11b7a7675db058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:05 +0000
Subject: [PATCH 002/105] fix: C++ K-Medians sorts a cluster lexicographically
 instead of by the processed dimension

---
 ccore/src/cluster/kmedians.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/kmedians.cpp b/ccore/src/cluster/kmedians.cpp
index 9a03aaf..9c1fac4 100755
--- a/ccore/src/cluster/kmedians.cpp
+++ b/ccore/src/cluster/kmedians.cpp
@@ -148,9 +148,9 @@ void kmedians::calculate_median(cluster & current_cluster, point & median) {
 
     for (size_t index_dimension = 0; index_dimension < dimension; index_dimension++) {
         std::sort(current_cluster.begin(), current_cluster.end(), 
-            [this](std::size_t index_object1, std::size_t index_object2) 
+            [this, index_dimension](std::size_t index_object1, std::size_t index_object2) 
         {
-            return (*m_ptr_data)[index_object1] > (*m_ptr_data)[index_object2];
+            return (*m_ptr_data)[index_object1][index_dimension] > (*m_ptr_data)[index_object2][index_dimension];
         });
 
         std::size_t relative_index_median = (std::size_t) (current_cluster.size() - 1) / 2;
-- 
2.43.0


From 628d7b523a838a3899312fabc0a11cc9818e1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:04 +0000
Subject: [PATCH 003/105] fix: parallel loops divide by zero threads on a
 machine with a single hardware thread

---
 ccore/include/pyclustering/parallel/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/include/pyclustering/parallel/parallel.hpp b/ccore/include/pyclustering/parallel/parallel.hpp
index 41a9e89..39264c3 100755
--- a/ccore/include/pyclustering/parallel/parallel.hpp
+++ b/ccore/include/pyclustering/parallel/parallel.hpp
@@ -36,7 +36,7 @@ namespace parallel {
 
 /* Pool of threads is used to prevent overhead in case of nested loop */
 const std::size_t AMOUNT_HARDWARE_THREADS = std::thread::hardware_concurrency();
-const std::size_t AMOUNT_THREADS = (AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 0;
+const std::size_t AMOUNT_THREADS = (AMOUNT_HARDWARE_THREADS > 1) ? (AMOUNT_HARDWARE_THREADS - 1) : 1;
 
 
 /*!
-- 
2.43.0


From da92c72d6bcf4a6d9074ce9726490062ea0daaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:04 +0000
Subject: [PATCH 004/105] fix: a task of the thread pool can be waited for only
 once, further waiting never returns

---
 ccore/src/parallel/task.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ccore/src/parallel/task.cpp b/ccore/src/parallel/task.cpp
index 7bcdc83..2fd2294 100755
--- a/ccore/src/parallel/task.cpp
+++ b/ccore/src/parallel/task.cpp
@@ -29,6 +29,7 @@ void task::set_ready() {
 
 void task::wait_ready() const {
     m_ready.lock();
+    m_ready.unlock();
 }
 
 
-- 
2.43.0


From 13257d1acf335f7a1ec62dcc5695ba277460510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:01 +0000
Subject: [PATCH 005/105] fix: nearest node of C++ kd-tree searcher may lie
 outside the requested radius

---
 ccore/src/container/kdtree_searcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/container/kdtree_searcher.cpp b/ccore/src/container/kdtree_searcher.cpp
index 62a085b..ac7eaaf 100755
--- a/ccore/src/container/kdtree_searcher.cpp
+++ b/ccore/src/container/kdtree_searcher.cpp
@@ -101,7 +101,7 @@ void kdtree_searcher::find_nearest(const rule_store & p_store_rule) const {
 
 kdnode::ptr kdtree_searcher::find_nearest_node() const {
     m_nearest_nodes = { nullptr };
-    m_nodes_distance = { std::numeric_limits<double>::max() };
+    m_nodes_distance = { m_sqrt_distance };
 
     m_proc = std::bind(&kdtree_searcher::store_best_if_reachable, this, std::placeholders::_1);
     recursive_nearest_nodes(m_initial_node);
-- 
2.43.0


From 3b19a71b599ce63647721a8bbf8ce79cd1007643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 006/105] fix: BIRCH keeps more entries than the limit after
 the tree is re-built

---
 pyclustering/cluster/birch.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyclustering/cluster/birch.py b/pyclustering/cluster/birch.py
index d8ee8a1..c75683a 100755
--- a/pyclustering/cluster/birch.py
+++ b/pyclustering/cluster/birch.py
@@ -290,15 +290,15 @@ class birch:
             # build tree with update parameters
             tree = cftree(self.__tree.branch_factor, self.__tree.max_entries, increased_diameter, self.__tree.type_measurement)
             
-            for index_point in range(0, index_point + 1):
-                point = self.__pointer_data[index_point]
+            for index_inserted_point in range(0, index_point + 1):
+                point = self.__pointer_data[index_inserted_point]
                 tree.insert_point(point)
 
                 if tree.amount_entries > self.__entry_size_limit:
                     increased_diameter *= self.__diameter_multiplier
-                    continue
-            
-            # Re-build is successful.
-            rebuild_result = True
+                    break
+            else:
+                # Re-build is successful.
+                rebuild_result = True
         
         return tree
-- 
2.43.0


From 161ac2934bc201996b92c62eabdffd65be0c733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:25 +0000
Subject: [PATCH 007/105] fix: BIRCH fails when points are represented by numpy
 arrays (square sum of a vector)

---
 pyclustering/utils/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/utils/__init__.py b/pyclustering/utils/__init__.py
index eb50a55..3313ad8 100755
--- a/pyclustering/utils/__init__.py
+++ b/pyclustering/utils/__init__.py
@@ -1156,7 +1156,7 @@ def linear_sum(list_vector):
     """
     dimension = 1
     linear_sum = 0.0
-    list_representation = (type(list_vector[0]) == list)
+    list_representation = isinstance(list_vector[0], (list, tuple, numpy.ndarray))
     
     if list_representation is True:
         dimension = len(list_vector[0])
@@ -1183,7 +1183,7 @@ def square_sum(list_vector):
     """
     
     square_sum = 0.0
-    list_representation = (type(list_vector[0]) == list)
+    list_representation = isinstance(list_vector[0], (list, tuple, numpy.ndarray))
         
     for index_element in range(0, len(list_vector)):
         if list_representation is True:
-- 
2.43.0


From 5ca5f63701c78fc0b9bc1e1cc120439763e74258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 008/105] fix: Python agglomerative clustering by centroid link
 fails for numpy arrays

---
 pyclustering/cluster/agglomerative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/agglomerative.py b/pyclustering/cluster/agglomerative.py
index ceae07e..d348f98 100755
--- a/pyclustering/cluster/agglomerative.py
+++ b/pyclustering/cluster/agglomerative.py
@@ -126,7 +126,7 @@ class agglomerative:
             self.__ccore = ccore_library.workable()
 
         if self.__similarity == type_link.CENTROID_LINK:
-            self.__centers = self.__pointer_data.copy()    # used in case of usage of centroid links
+            self.__centers = list(self.__pointer_data)    # used in case of usage of centroid links
 
     
     def process(self):
-- 
2.43.0


From 8147ee6cc200380fda215912b60520a0914e0794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:43 +0000
Subject: [PATCH 009/105] fix: C++ agglomerative clustering keeps stale centers
 when the centroid link is used

---
 ccore/src/cluster/agglomerative.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/agglomerative.cpp b/ccore/src/cluster/agglomerative.cpp
index 7733ad0..2e86317 100755
--- a/ccore/src/cluster/agglomerative.cpp
+++ b/ccore/src/cluster/agglomerative.cpp
@@ -138,7 +138,7 @@ void agglomerative::merge_by_centroid_link() {
     }
 
     (*m_ptr_clusters)[index_cluster1].insert((*m_ptr_clusters)[index_cluster1].end(), (*m_ptr_clusters)[index_cluster2].begin(), (*m_ptr_clusters)[index_cluster2].end());
-    calculate_center((*m_ptr_clusters)[index_cluster1], m_centers[index_cluster2]);
+    calculate_center((*m_ptr_clusters)[index_cluster1], m_centers[index_cluster1]);
 
     m_ptr_clusters->erase(m_ptr_clusters->begin() + index_cluster2);
     m_centers.erase(m_centers.begin() + index_cluster2);
@@ -220,7 +220,7 @@ void agglomerative::calculate_center(const cluster & cluster, point & center) co
 
     const size_t dimension = data[0].size();
 
-    center.resize(dimension, 0.0);
+    center.assign(dimension, 0.0);
 
     for (auto index_point : cluster) {
         for (size_t index_dimension = 0; index_dimension < dimension; index_dimension++) {
-- 
2.43.0


From 70b244217c426246976441737bc7d892b1552708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:43 +0000
Subject: [PATCH 010/105] fix: average link of agglomerative clustering is not
 the average distance between objects of two clusters

---
 ccore/src/cluster/agglomerative.cpp   | 2 +-
 pyclustering/cluster/agglomerative.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/agglomerative.cpp b/ccore/src/cluster/agglomerative.cpp
index 2e86317..679b413 100755
--- a/ccore/src/cluster/agglomerative.cpp
+++ b/ccore/src/cluster/agglomerative.cpp
@@ -103,7 +103,7 @@ void agglomerative::merge_by_average_link() {
                 }
             }
 
-            candidate_average_distance /= static_cast<double>(((*m_ptr_clusters)[index_cluster1].size()) + (*m_ptr_clusters)[index_cluster2].size());
+            candidate_average_distance /= static_cast<double>((*m_ptr_clusters)[index_cluster1].size() * (*m_ptr_clusters)[index_cluster2].size());
 
             if (candidate_average_distance < minimum_average_distance) {
                 minimum_average_distance = candidate_average_distance;
diff --git a/pyclustering/cluster/agglomerative.py b/pyclustering/cluster/agglomerative.py
index d348f98..0e8e93a 100755
--- a/pyclustering/cluster/agglomerative.py
+++ b/pyclustering/cluster/agglomerative.py
@@ -221,7 +221,7 @@ class agglomerative:
                     for index_object2 in self.__clusters[index_cluster2]:
                         candidate_average_distance += euclidean_distance_square(self.__pointer_data[index_object1], self.__pointer_data[index_object2])
                 
-                candidate_average_distance /= (len(self.__clusters[index_cluster1]) + len(self.__clusters[index_cluster2]))
+                candidate_average_distance /= (len(self.__clusters[index_cluster1]) * len(self.__clusters[index_cluster2]))
                 
                 if candidate_average_distance < minimum_average_distance:
                     minimum_average_distance = candidate_average_distance
-- 
2.43.0


From d75e8e955828b8db94155d8f0ceb2f1aad33a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:46 +0000
Subject: [PATCH 011/105] fix: BSAS, MBSAS and TTSAS modify the input data when
 a representative is updated

---
 pyclustering/cluster/bsas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/bsas.py b/pyclustering/cluster/bsas.py
index c12c379..22e02a0 100755
--- a/pyclustering/cluster/bsas.py
+++ b/pyclustering/cluster/bsas.py
@@ -241,11 +241,13 @@ class bsas:
 
         """
         length = len(self._clusters[index_cluster])
-        rep = self._representatives[index_cluster]
+        rep = list(self._representatives[index_cluster])    # never change input data that is used as an initial representative
 
         for dimension in range(len(rep)):
             rep[dimension] = ((length - 1) * rep[dimension] + point[dimension]) / length
 
+        self._representatives[index_cluster] = rep
+
 
     def _verify_arguments(self):
         """!
-- 
2.43.0


From 123da88e030acfa69402b58f595bca31d0ec74cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:22 +0000
Subject: [PATCH 012/105] fix: Python ROCK considers points at the distance of
 the radius as neighbors in contrast to documentation and C++ implementation

---
 pyclustering/cluster/rock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/rock.py b/pyclustering/cluster/rock.py
index 30ee758..647e283 100755
--- a/pyclustering/cluster/rock.py
+++ b/pyclustering/cluster/rock.py
@@ -195,7 +195,7 @@ class rock:
         for i in range(0, size_data):
             for j in range(i + 1, size_data):
                 distance = euclidean_distance(self.__pointer_data[i], self.__pointer_data[j])
-                if (distance <= self.__eps):
+                if (distance < self.__eps):
                     self.__adjacency_matrix[i][j] = 1
                     self.__adjacency_matrix[j][i] = 1
         
-- 
2.43.0


From 9c150dc136d0aaaca03f1fc1e4be26801d02f3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:28 +0000
Subject: [PATCH 013/105] fix: Python CURE may merge clusters that are not the
 closest, its queue gets out of order when clusters are relocated

---
 pyclustering/cluster/cure.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/pyclustering/cluster/cure.py b/pyclustering/cluster/cure.py
index 6ef9533..d369d98 100755
--- a/pyclustering/cluster/cure.py
+++ b/pyclustering/cluster/cure.py
@@ -219,10 +219,14 @@ class cure:
 
                         cluster_relocation_requests.append(item)
 
-            # New cluster and updated clusters should relocated in queue
+            # Updated clusters break order of the queue, therefore they should be removed before any insertion
+            for item in cluster_relocation_requests:
+                self.__queue.remove(item)
+
+            # New cluster and updated clusters should be inserted to the queue
             self.__insert_cluster(merged_cluster)
             for item in cluster_relocation_requests:
-                self.__relocate_cluster(item)
+                self.__insert_cluster(item)
 
         # Change cluster representation
         self.__clusters = [cure_cluster_unit.indexes for cure_cluster_unit in self.__queue]
@@ -338,18 +342,6 @@ class cure:
         self.__queue.append(cluster)
 
 
-    def __relocate_cluster(self, cluster):
-        """!
-        @brief Relocate cluster in list in line with distance order.
-        
-        @param[in] cluster (cure_cluster): Cluster that should be relocated in line with order.
-        
-        """
-        
-        self.__queue.remove(cluster)
-        self.__insert_cluster(cluster)
-
-
     def __closest_cluster(self, cluster, distance):
         """!
         @brief Find closest cluster to the specified cluster in line with distance.
-- 
2.43.0


From 88f3eb7aecb1be455577c4123328da04f95f7823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 014/105] fix: K-Medoids applies the swap even if it increases
 the total deviation

---
 ccore/src/cluster/kmedoids.cpp   | 4 ++--
 pyclustering/cluster/kmedoids.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ccore/src/cluster/kmedoids.cpp b/ccore/src/cluster/kmedoids.cpp
index 2094746..47a310b 100755
--- a/ccore/src/cluster/kmedoids.cpp
+++ b/ccore/src/cluster/kmedoids.cpp
@@ -31,7 +31,7 @@ const std::size_t        kmedoids::OBJECT_ALREADY_CONTAINED  = std::numeric_limi
 
 const std::size_t        kmedoids::INVALID_INDEX             = std::numeric_limits<std::size_t>::max();
 
-const double             kmedoids::NOTHING_TO_SWAP           = std::numeric_limits<double>::max();
+const double             kmedoids::NOTHING_TO_SWAP           = 0.0;
 
 
 kmedoids::appropriate_cluster::appropriate_cluster(const std::size_t p_index, const double p_distance_first_medoid, const double p_distance_second_medoid) :
@@ -174,7 +174,7 @@ kmedoids::appropriate_cluster kmedoids::find_appropriate_cluster(const std::size
 
 
 double kmedoids::swap_medoids() {
-    double optimal_swap_cost = std::numeric_limits<double>::max();
+    double optimal_swap_cost = NOTHING_TO_SWAP;     /* only swap with negative cost improves clustering */
     std::size_t optimal_index_cluster = INVALID_INDEX;
     std::size_t optimal_index_medoid = INVALID_INDEX;
 
diff --git a/pyclustering/cluster/kmedoids.py b/pyclustering/cluster/kmedoids.py
index 504b141..64e89d8 100755
--- a/pyclustering/cluster/kmedoids.py
+++ b/pyclustering/cluster/kmedoids.py
@@ -441,7 +441,7 @@ class kmedoids:
                 self.__iterations += 1
                 swap_cost = self.__swap_medoids()
 
-                if swap_cost != float('inf'):
+                if swap_cost < 0.0:
                     previous_deviation = self.__total_deviation
                     self.__total_deviation = self.__update_clusters()
                     changes = previous_deviation - self.__total_deviation
@@ -656,11 +656,11 @@ class kmedoids:
         """!
         @brief Swap existed medoid with non-medoid points in order to find the most optimal medoid.
 
-        @return (double) Cost that is needed to swap two medoids.
+        @return (double) Cost that is needed to swap two medoids, only negative cost improves clustering, in case of '0.0' there is nothing to swap.
 
         """
 
-        optimal_swap_cost = float('inf')
+        optimal_swap_cost = 0.0
         optimal_index_cluster = None
         optimal_index_medoid = None
 
-- 
2.43.0


From 6b17ea5fb45bf838872344ac9033ad0551f0e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 015/105] fix: Python K-Medoids labels do not correspond to
 clusters when empty clusters are erased

---
 pyclustering/cluster/kmedoids.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclustering/cluster/kmedoids.py b/pyclustering/cluster/kmedoids.py
index 64e89d8..9d51903 100755
--- a/pyclustering/cluster/kmedoids.py
+++ b/pyclustering/cluster/kmedoids.py
@@ -738,6 +738,10 @@ class kmedoids:
         self.__clusters = none_empty_clusters
         self.__medoid_indexes = none_empty_medoids
 
+        for index_cluster in range(len(self.__clusters)):
+            for index_point in self.__clusters[index_cluster]:
+                self.__labels[index_point] = index_cluster
+
 
 class pam(kmedoids):
     """!
-- 
2.43.0


From 66de867652b465ea77544ea416fe1426be2508ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:56 +0000
Subject: [PATCH 016/105] fix: Python fuzzy C-means memberships of a point that
 coincides with a center do not sum to one

---
 pyclustering/cluster/fcm.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyclustering/cluster/fcm.py b/pyclustering/cluster/fcm.py
index 0f7ab8e..993c23d 100755
--- a/pyclustering/cluster/fcm.py
+++ b/pyclustering/cluster/fcm.py
@@ -239,6 +239,10 @@ class fcm:
         centers = numpy.zeros((len(self.__centers), dimension))
 
         for i in range(len(self.__centers)):
+            if numpy.sum(self.__membership[:, i]) == 0.0:   # nothing belongs to the center
+                centers[i] = self.__centers[i]
+                continue
+
             # multiplication '@' requires python version 3.5
             centers[i] = numpy.divide(self.__membership[:, i] @ self.__data, numpy.sum(self.__membership[:, i]))
 
@@ -256,13 +260,15 @@ class fcm:
             data_difference[i] = numpy.sum(numpy.square(self.__data - self.__centers[i]), axis=1)
 
         for i in range(len(self.__data)):
+            coincident = numpy.count_nonzero(data_difference[:, i] == 0.0)
+            if coincident > 0:   # the point belongs only to centers that have the same coordinates
+                self.__membership[i] = numpy.where(data_difference[:, i] == 0.0, 1.0 / coincident, 0.0)
+                continue
+
             for j in range(len(self.__centers)):
-                divider = sum([pow(data_difference[j][i] / data_difference[k][i], self.__degree) for k in range(len(self.__centers)) if data_difference[k][i] != 0.0])
+                divider = sum([pow(data_difference[j][i] / data_difference[k][i], self.__degree) for k in range(len(self.__centers))])
 
-                if divider != 0.0:
-                    self.__membership[i][j] = 1.0 / divider
-                else:
-                    self.__membership[i][j] = 1.0
+                self.__membership[i][j] = 1.0 / divider
 
 
     def __calculate_changes(self, updated_centers):
-- 
2.43.0


From f385d3d97db34c6c2c77903bf4aae34299f9d111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:56 +0000
Subject: [PATCH 017/105] fix: fuzzy C-means applies the membership exponent to
 square distances instead of distances

---
 ccore/src/cluster/fcm.cpp   | 2 +-
 pyclustering/cluster/fcm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/fcm.cpp b/ccore/src/cluster/fcm.cpp
index a329d53..4f5eafc 100755
--- a/ccore/src/cluster/fcm.cpp
+++ b/ccore/src/cluster/fcm.cpp
@@ -39,7 +39,7 @@ fcm::fcm(const dataset & p_initial_centers, const double p_m, const double p_tol
         throw std::invalid_argument("Hyper parameter should be greater than 1.0.");
     }
 
-    m_degree = 2.0 / (p_m - 1.0);
+    m_degree = 1.0 / (p_m - 1.0);   /* membership is calculated using square distances */
 }
 
 
diff --git a/pyclustering/cluster/fcm.py b/pyclustering/cluster/fcm.py
index 993c23d..0d2afeb 100755
--- a/pyclustering/cluster/fcm.py
+++ b/pyclustering/cluster/fcm.py
@@ -116,7 +116,7 @@ class fcm:
         self.__itermax = kwargs.get('itermax', 200)
         self.__m = kwargs.get('m', 2)
 
-        self.__degree = 2.0 / (self.__m - 1)
+        self.__degree = 1.0 / (self.__m - 1)     # membership is calculated using square distances
 
         self.__ccore = kwargs.get('ccore', True)
         if self.__ccore is True:
-- 
2.43.0


From 317d1a8a1de31ce8502c9e8f2ab8f5e09e443cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:14 +0000
Subject: [PATCH 018/105] fix: fuzzy C-means centers are not weighted by
 memberships raised to the power of the hyper-parameter

---
 ccore/include/pyclustering/cluster/fcm.hpp | 1 +
 ccore/src/cluster/fcm.cpp                  | 8 +++++---
 pyclustering/cluster/fcm.py                | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/fcm.hpp b/ccore/include/pyclustering/cluster/fcm.hpp
index 7bbcb19..f43308a 100755
--- a/ccore/include/pyclustering/cluster/fcm.hpp
+++ b/ccore/include/pyclustering/cluster/fcm.hpp
@@ -106,6 +106,7 @@ private:
     dataset         m_initial_centers       = { };
 
     double          m_degree                = 0.0;
+    double          m_hyper_parameter       = DEFAULT_HYPER_PARAMETER;
 
     fcm_data        * m_ptr_result          = nullptr;      /* temporary pointer to output result */
 
diff --git a/ccore/src/cluster/fcm.cpp b/ccore/src/cluster/fcm.cpp
index 4f5eafc..22d1ad4 100755
--- a/ccore/src/cluster/fcm.cpp
+++ b/ccore/src/cluster/fcm.cpp
@@ -33,7 +33,8 @@ const double             fcm::DEFAULT_HYPER_PARAMETER                 = 2.0;
 fcm::fcm(const dataset & p_initial_centers, const double p_m, const double p_tolerance, const std::size_t p_itermax) :
     m_tolerance(p_tolerance),
     m_itermax(p_itermax),
-    m_initial_centers(p_initial_centers)
+    m_initial_centers(p_initial_centers),
+    m_hyper_parameter(p_m)
 {
     if (p_m <= 1.0) {
         throw std::invalid_argument("Hyper parameter should be greater than 1.0.");
@@ -91,9 +92,10 @@ double fcm::update_center(const std::size_t p_index) {
     std::vector<double> dividend(dimensions, 0.0);
     std::vector<double> divider(dimensions, 0.0);
     for (std::size_t j = 0; j < data_length; j++) {
+        const double weight = std::pow(m_ptr_result->membership()[j][p_index], m_hyper_parameter);
         for (std::size_t dimension = 0; dimension < dimensions; dimension++) {
-            dividend[dimension] += m_ptr_data->at(j).at(dimension) * m_ptr_result->membership()[j][p_index];
-            divider[dimension] += m_ptr_result->membership()[j][p_index];
+            dividend[dimension] += m_ptr_data->at(j).at(dimension) * weight;
+            divider[dimension] += weight;
         }
     }
 
diff --git a/pyclustering/cluster/fcm.py b/pyclustering/cluster/fcm.py
index 0d2afeb..789496e 100755
--- a/pyclustering/cluster/fcm.py
+++ b/pyclustering/cluster/fcm.py
@@ -244,7 +244,8 @@ class fcm:
                 continue
 
             # multiplication '@' requires python version 3.5
-            centers[i] = numpy.divide(self.__membership[:, i] @ self.__data, numpy.sum(self.__membership[:, i]))
+            weights = numpy.power(self.__membership[:, i], self.__m)
+            centers[i] = numpy.divide(weights @ self.__data, numpy.sum(weights))
 
         return centers
 
-- 
2.43.0


From 14d671948f248bac5700a99e3ce3af3370eaa774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:14 +0000
Subject: [PATCH 019/105] fix: Python fuzzy C-means compares squared change of
 centers with the tolerance in contrast to C++ implementation

---
 pyclustering/cluster/fcm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/cluster/fcm.py b/pyclustering/cluster/fcm.py
index 789496e..59cbe7b 100755
--- a/pyclustering/cluster/fcm.py
+++ b/pyclustering/cluster/fcm.py
@@ -239,12 +239,12 @@ class fcm:
         centers = numpy.zeros((len(self.__centers), dimension))
 
         for i in range(len(self.__centers)):
-            if numpy.sum(self.__membership[:, i]) == 0.0:   # nothing belongs to the center
+            weights = numpy.power(self.__membership[:, i], self.__m)
+            if numpy.sum(weights) == 0.0:   # nothing belongs to the center
                 centers[i] = self.__centers[i]
                 continue
 
             # multiplication '@' requires python version 3.5
-            weights = numpy.power(self.__membership[:, i], self.__m)
             centers[i] = numpy.divide(weights @ self.__data, numpy.sum(weights))
 
         return centers
@@ -279,7 +279,7 @@ class fcm:
         @return (float) Maximum change between centers.
 
         """
-        changes = numpy.sum(numpy.square(self.__centers - updated_centers), axis=1).T
+        changes = numpy.sqrt(numpy.sum(numpy.square(self.__centers - updated_centers), axis=1).T)
         return numpy.max(changes)
 
 
-- 
2.43.0


From 1f26499f85905deea96b25228bfbf57f93cd3328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:50 +0000
Subject: [PATCH 020/105] fix: K-Means++ initializer uses numpy.warnings that
 is not available in numpy anymore

---
 pyclustering/cluster/center_initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 1e6885b..2d0bb1c 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -245,7 +245,7 @@ class kmeans_plusplus_initializer:
                 dataset_differences[index_center] = numpy.array(self.__data[centers[index_center]])
 
         with warnings.catch_warnings():
-            numpy.warnings.filterwarnings('ignore', r'All-NaN (slice|axis) encountered')
+            warnings.filterwarnings('ignore', r'All-NaN (slice|axis) encountered')
             shortest_distances = numpy.nanmin(dataset_differences, axis=0)
 
         return shortest_distances
-- 
2.43.0


From 6acd1c2896bcfcf5d01e38816bd98555fc237191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:04 +0000
Subject: [PATCH 021/105] fix: K-Means++ initializer considers the first point
 as a candidate even if it has not been drawn

---
 pyclustering/cluster/center_initializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 2d0bb1c..2e23071 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -322,7 +322,7 @@ class kmeans_plusplus_initializer:
 
         """
 
-        index_best_candidate = 0
+        index_best_candidate = -1
         for i in range(self.__candidates):
             candidate_probability = random.random()
             index_candidate = -1
@@ -334,7 +334,7 @@ class kmeans_plusplus_initializer:
 
             if index_candidate == -1:
                 index_best_candidate = next(iter(self.__free_indexes))
-            elif distances[index_best_candidate] < distances[index_candidate]:
+            elif index_best_candidate == -1 or distances[index_best_candidate] < distances[index_candidate]:
                 index_best_candidate = index_candidate
 
         return index_best_candidate
-- 
2.43.0


From 9776f136e865c445df656ee6bab9b5c48cd4af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:04 +0000
Subject: [PATCH 022/105] fix: K-Means++ initializer passes the whole data to a
 user-defined metric instead of points

---
 pyclustering/cluster/center_initializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index 2e23071..b5dac94 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -240,7 +240,10 @@ class kmeans_plusplus_initializer:
             center = data[centers[index_center]]
 
             if self.__data_type == 'points':
-                dataset_differences[index_center] = self.__metric(data, center)
+                if self.__metric.get_type() == type_metric.USER_DEFINED:
+                    dataset_differences[index_center] = [self.__metric(point, center) for point in data]
+                else:
+                    dataset_differences[index_center] = self.__metric(data, center)
             elif self.__data_type == 'distance_matrix':
                 dataset_differences[index_center] = numpy.array(self.__data[centers[index_center]])
 
-- 
2.43.0


From 2fba194847e6366de2c3e4742fc16888b41d1c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:04 +0000
Subject: [PATCH 023/105] fix: center initializers fail when they are used
 again

---
 pyclustering/cluster/center_initializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclustering/cluster/center_initializer.py b/pyclustering/cluster/center_initializer.py
index b5dac94..666e350 100755
--- a/pyclustering/cluster/center_initializer.py
+++ b/pyclustering/cluster/center_initializer.py
@@ -71,6 +71,7 @@ class random_center_initializer:
                 return list(range(len(self.__data)))
             return self.__data[:]
 
+        self.__available_indexes = set(range(len(self.__data)))
         return [self.__create_center(return_index) for _ in range(self.__amount)]
 
 
@@ -366,6 +367,8 @@ class kmeans_plusplus_initializer:
             raise ValueError("In case of 'distance_matrix' data type, parameter 'return_index' cannot be 'False'. "
                              "Please, use 'return_index=True' in case of 'distance_matrix' data type.")
 
+        self.__free_indexes = set(range(len(self.__data)))
+
         index_point = self.__get_initial_center(True)
         centers = [index_point]
         self.__free_indexes.remove(index_point)
-- 
2.43.0


From 2562aa9af97edd8a0472197d86851ca45ffcd1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:04 +0000
Subject: [PATCH 024/105] fix: C++ random initializer uses indexes of the
 previous data when it is used again

---
 ccore/src/cluster/random_center_initializer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ccore/src/cluster/random_center_initializer.cpp b/ccore/src/cluster/random_center_initializer.cpp
index 0a3aa87..3f7ecdf 100755
--- a/ccore/src/cluster/random_center_initializer.cpp
+++ b/ccore/src/cluster/random_center_initializer.cpp
@@ -50,6 +50,7 @@ void random_center_initializer::initialize(const dataset & p_data, const index_s
         return;
     }
 
+    m_available_indexes.clear();
     m_available_indexes.reserve(p_data.size());
     for (std::size_t i = 0; i < p_data.size(); i++) {
         m_available_indexes.insert(i);
-- 
2.43.0


From 4cd86d2991be68c6dd9f654055b0df25faa34242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:21 +0000
Subject: [PATCH 025/105] fix: C++ K-Means++ measures distances to wrong points
 when a range of indexes is used

---
 ccore/src/cluster/kmeans_plus_plus.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ccore/src/cluster/kmeans_plus_plus.cpp b/ccore/src/cluster/kmeans_plus_plus.cpp
index 49028ab..1412b6b 100755
--- a/ccore/src/cluster/kmeans_plus_plus.cpp
+++ b/ccore/src/cluster/kmeans_plus_plus.cpp
@@ -139,8 +139,8 @@ void kmeans_plus_plus::store_temporal_params(const dataset & p_data, const index
         }
     }
     else {
-        for (const auto index : *m_indexes_ptr) {
-            m_free_indexes.insert(index);
+        for (std::size_t i = 0; i < m_indexes_ptr->size(); i++) {
+            m_free_indexes.insert(i);   /* centers are identified by positions in the range */
         }
     }
 }
@@ -209,7 +209,8 @@ void kmeans_plus_plus::calculate_shortest_distances(std::vector<double> & p_dist
 double kmeans_plus_plus::get_shortest_distance(const point & p_point) const {
     double shortest_distance = std::numeric_limits<double>::max();
     for (auto & index_point : m_allocated_indexes) {
-        double distance = std::abs(m_dist_func(p_point, m_data_ptr->at(index_point)));
+        const std::size_t index_center = m_indexes_ptr->empty() ? index_point : m_indexes_ptr->at(index_point);
+        double distance = std::abs(m_dist_func(p_point, m_data_ptr->at(index_center)));
         if (distance < shortest_distance) {
             shortest_distance = distance;
         }
-- 
2.43.0


From 4666c1f59972fbd553cfe661d4b19429a6fe20af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:21 +0000
Subject: [PATCH 026/105] fix: C++ K-Means++ chooses the same point several
 times when there are no other distinct points

---
 ccore/src/cluster/kmeans_plus_plus.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/kmeans_plus_plus.cpp b/ccore/src/cluster/kmeans_plus_plus.cpp
index 1412b6b..a13dab8 100755
--- a/ccore/src/cluster/kmeans_plus_plus.cpp
+++ b/ccore/src/cluster/kmeans_plus_plus.cpp
@@ -171,6 +171,10 @@ kmeans_plus_plus::center_description kmeans_plus_plus::get_next_center() const
 
     std::size_t index = 0;
     if (m_candidates == FARTHEST_CENTER_CANDIDATE) {
+        for (const auto index_center : m_allocated_indexes) {
+            distances[index_center] = -1.0;     /* the same point should not be chosen twice */
+        }
+
         auto iter = std::max_element(distances.begin(), distances.end());
         index = std::distance(distances.begin(), iter);
     }
@@ -224,6 +228,11 @@ void kmeans_plus_plus::calculate_probabilities(const std::vector<double> & p_dis
     double sum = std::accumulate(p_distances.begin(), p_distances.end(), 0.0);
 
     p_probabilities.reserve(m_data_ptr->size());
+    if (sum == 0.0) {    /* all points coincide with the centers - any free point can be used */
+        p_probabilities.assign(p_distances.size(), 0.0);
+        return;
+    }
+
     double previous_probability = 0.0;
     for (auto distance : p_distances) {
         double current_probability = distance / sum;
@@ -240,7 +249,7 @@ void kmeans_plus_plus::calculate_probabilities(const std::vector<double> & p_dis
 std::size_t kmeans_plus_plus::get_probable_center(const std::vector<double> & p_distances, const std::vector<double> & p_probabilities) const {
     std::uniform_real_distribution<double> distribution(0.0, 1.0);
 
-    std::size_t best_index_candidate = 0;
+    std::size_t best_index_candidate = kmeans_plus_plus::INVALID_INDEX;
     for (std::size_t i = 0; i < m_candidates; i++) {
         std::size_t current_index_candidate = kmeans_plus_plus::INVALID_INDEX;
         double candidate_probability = distribution(m_generator);
@@ -254,7 +263,7 @@ std::size_t kmeans_plus_plus::get_probable_center(const std::vector<double> & p_
         if (current_index_candidate == kmeans_plus_plus::INVALID_INDEX) {
             best_index_candidate = *(m_free_indexes.begin());
         }
-        else if (p_distances[current_index_candidate] > p_distances[best_index_candidate]) {
+        else if ((best_index_candidate == kmeans_plus_plus::INVALID_INDEX) || (p_distances[current_index_candidate] > p_distances[best_index_candidate])) {
             best_index_candidate = current_index_candidate;
         }
     }
-- 
2.43.0


From 7fa1cbde52d057bb8177e23c4337f5e40a198f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:56 +0000
Subject: [PATCH 027/105] fix: random state 0 is considered by the C++ core as
 the absence of random state

---
 pyclustering/core/elbow_wrapper.py      | 2 +-
 pyclustering/core/gmeans_wrapper.py     | 2 +-
 pyclustering/core/silhouette_wrapper.py | 2 +-
 pyclustering/core/som_wrapper.py        | 2 +-
 pyclustering/core/xmeans_wrapper.py     | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyclustering/core/elbow_wrapper.py b/pyclustering/core/elbow_wrapper.py
index f96c1c7..8904303 100755
--- a/pyclustering/core/elbow_wrapper.py
+++ b/pyclustering/core/elbow_wrapper.py
@@ -28,7 +28,7 @@ class elbow_center_initializer(IntEnum):
 
 
 def elbow(sample, kmin, kmax, kstep, initializer, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/gmeans_wrapper.py b/pyclustering/core/gmeans_wrapper.py
index f7a930a..5d9bfac 100755
--- a/pyclustering/core/gmeans_wrapper.py
+++ b/pyclustering/core/gmeans_wrapper.py
@@ -15,7 +15,7 @@ from pyclustering.core.pyclustering_package import pyclustering_package, package
 
 
 def gmeans(sample, kinit, tolerance, repeat, kmax, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/silhouette_wrapper.py b/pyclustering/core/silhouette_wrapper.py
index 96aa7a1..08bae66 100755
--- a/pyclustering/core/silhouette_wrapper.py
+++ b/pyclustering/core/silhouette_wrapper.py
@@ -38,7 +38,7 @@ def silhoeutte(sample, clusters, pointer_metric, data_type):
 
 
 def silhoeutte_ksearch(sample, kmin, kmax, allocator, random_state):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
 
     ccore = ccore_library.get()
diff --git a/pyclustering/core/som_wrapper.py b/pyclustering/core/som_wrapper.py
index a9ad9fd..54e72b1 100755
--- a/pyclustering/core/som_wrapper.py
+++ b/pyclustering/core/som_wrapper.py
@@ -58,7 +58,7 @@ def som_create(rows, cols, conn_type, parameters):
     c_params.init_radius = parameters.init_radius
     c_params.init_learn_rate = parameters.init_learn_rate
     c_params.adaptation_threshold = parameters.adaptation_threshold
-    c_params.random_state = parameters.random_state or -1
+    c_params.random_state = -1 if parameters.random_state is None else parameters.random_state
     
     ccore.som_create.restype = POINTER(c_void_p)
     som_pointer = ccore.som_create(c_uint(rows), c_uint(cols), c_uint(conn_type), pointer(c_params))
diff --git a/pyclustering/core/xmeans_wrapper.py b/pyclustering/core/xmeans_wrapper.py
index a4ca5c0..6337075 100755
--- a/pyclustering/core/xmeans_wrapper.py
+++ b/pyclustering/core/xmeans_wrapper.py
@@ -16,7 +16,7 @@ from pyclustering.core.pyclustering_package import pyclustering_package, package
 
 
 def xmeans(sample, centers, kmax, tolerance, criterion, alpha, beta, repeat, random_state, metric_pointer):
-    random_state = random_state or -1
+    random_state = -1 if random_state is None else random_state
     pointer_data = package_builder(sample, c_double).create()
     pointer_centers = package_builder(centers, c_double).create()
     
-- 
2.43.0


From d095b0e1081d0dad41d8981bfa1b1f5ed5dbd26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:56 +0000
Subject: [PATCH 028/105] fix: C++ silhouette returns scores in order of
 clusters instead of order of points

---
 ccore/src/cluster/silhouette.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/silhouette.cpp b/ccore/src/cluster/silhouette.cpp
index 647d641..5366cfb 100755
--- a/ccore/src/cluster/silhouette.cpp
+++ b/ccore/src/cluster/silhouette.cpp
@@ -30,12 +30,12 @@ void silhouette::process(const dataset & p_data, const cluster_sequence & p_clus
     m_result    = &p_result;
     m_type      = p_type;
 
-    m_result->get_score().reserve(m_data->size());
+    m_result->get_score().assign(m_data->size(), 0.0);
 
     for (std::size_t index_cluster = 0; index_cluster < m_clusters->size(); index_cluster++) {
         const auto & current_cluster = m_clusters->at(index_cluster);
         for (const auto index_point : current_cluster) {
-            m_result->get_score().push_back(calculate_score(index_point, index_cluster));
+            m_result->get_score().at(index_point) = calculate_score(index_point, index_cluster);
         }
     }
 }
-- 
2.43.0


From 502b2f218482277b9b74c8708e7405aa1f1cc808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:56 +0000
Subject: [PATCH 029/105] fix: silhouette score is not defined for a point that
 coincides with points of its own and of the neighbor cluster

---
 ccore/src/cluster/silhouette.cpp   | 4 ++++
 pyclustering/cluster/silhouette.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/ccore/src/cluster/silhouette.cpp b/ccore/src/cluster/silhouette.cpp
index 5366cfb..bdcd2df 100755
--- a/ccore/src/cluster/silhouette.cpp
+++ b/ccore/src/cluster/silhouette.cpp
@@ -48,6 +48,10 @@ double silhouette::calculate_score(const std::size_t p_index_point, const std::s
     const double a_score = calculate_within_cluster_score(p_index_cluster, dataset_difference);
     const double b_score = caclulate_optimal_neighbor_cluster_score(p_index_cluster, dataset_difference);
 
+    if ((a_score == 0.0) && (b_score == 0.0)) {
+        return 0.0;     /* the point coincides with all points of its own cluster and of the neighbor one */
+    }
+
     return (b_score - a_score) / std::max(a_score, b_score);
 }
 
diff --git a/pyclustering/cluster/silhouette.py b/pyclustering/cluster/silhouette.py
index 41b1798..5a5c181 100755
--- a/pyclustering/cluster/silhouette.py
+++ b/pyclustering/cluster/silhouette.py
@@ -227,6 +227,9 @@ class silhouette:
         a_score = self.__calculate_within_cluster_score(index_cluster, difference)
         b_score = self.__caclulate_optimal_neighbor_cluster_score(index_cluster, difference)
 
+        if a_score == 0.0 and b_score == 0.0:
+            return 0.0  # the point coincides with all points of its own cluster and of the neighbor one
+
         return (b_score - a_score) / max(a_score, b_score)
 
 
-- 
2.43.0


From 97ff574a28446fbffb82fdf147462cec7a4dd8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:56 +0000
Subject: [PATCH 030/105] fix: elbow is measured from a line that does not pass
 through the last error

---
 ccore/include/pyclustering/cluster/elbow.hpp | 2 +-
 pyclustering/cluster/elbow.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/elbow.hpp b/ccore/include/pyclustering/cluster/elbow.hpp
index 3e02b32..3d9bc99 100755
--- a/ccore/include/pyclustering/cluster/elbow.hpp
+++ b/ccore/include/pyclustering/cluster/elbow.hpp
@@ -312,7 +312,7 @@ private:
         const double x0 = 0.0;
         const double y0 = wce.front();
 
-        const double x1 = static_cast<double>(wce.size());
+        const double x1 = static_cast<double>(wce.size() - 1);
         const double y1 = wce.back();
 
         const double norm = euclidean_distance(point({ x0, y0 }), point({ x1, y1 }));
diff --git a/pyclustering/cluster/elbow.py b/pyclustering/cluster/elbow.py
index ca29c91..22dca8b 100755
--- a/pyclustering/cluster/elbow.py
+++ b/pyclustering/cluster/elbow.py
@@ -191,7 +191,7 @@ class elbow:
         """
 
         x0, y0 = 0.0, self.__wce[0]
-        x1, y1 = float(len(self.__wce)), self.__wce[-1]
+        x1, y1 = float(len(self.__wce) - 1), self.__wce[-1]
 
         for index_elbow in range(1, len(self.__wce) - 1):
             x, y = float(index_elbow), self.__wce[index_elbow]
-- 
2.43.0


From aa2a7c0517278b622f6273d085433991516d1d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:56 +0000
Subject: [PATCH 031/105] fix: elbow always uses the random initializer in case
 of the C++ core

---
 pyclustering/cluster/elbow.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyclustering/cluster/elbow.py b/pyclustering/cluster/elbow.py
index 22dca8b..8602e33 100755
--- a/pyclustering/cluster/elbow.py
+++ b/pyclustering/cluster/elbow.py
@@ -98,9 +98,8 @@ class elbow:
         self.__random_state = kwargs.get('random_state', None)
         self.__kstep = kwargs.get('kstep', 1)
 
-        self.__ccore = kwargs.get('ccore', True) or \
-                       isinstance(self.__initializer, kmeans_plusplus_initializer) or \
-                       isinstance(self.__initializer, random_center_initializer)
+        self.__ccore = kwargs.get('ccore', True) and \
+                       self.__initializer in (kmeans_plusplus_initializer, random_center_initializer)
 
         if self.__ccore:
             self.__ccore = ccore_library.workable()
@@ -138,7 +137,7 @@ class elbow:
         @brief Performs processing using C++ implementation.
 
         """
-        if isinstance(self.__initializer, kmeans_plusplus_initializer):
+        if self.__initializer is kmeans_plusplus_initializer:
             initializer = wrapper.elbow_center_initializer.KMEANS_PLUS_PLUS
         else:
             initializer = wrapper.elbow_center_initializer.RANDOM
-- 
2.43.0


From 3458977478d564d2e3a27f694d8b513fc57ca8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:26 +0000
Subject: [PATCH 032/105] fix: Minkowski distance uses absolute differences
 (odd and fractional degrees)

---
 ccore/include/pyclustering/utils/metric.hpp | 2 +-
 pyclustering/utils/metric.py                | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ccore/include/pyclustering/utils/metric.hpp b/ccore/include/pyclustering/utils/metric.hpp
index ef24616..3ae0c4d 100755
--- a/ccore/include/pyclustering/utils/metric.hpp
+++ b/ccore/include/pyclustering/utils/metric.hpp
@@ -145,7 +145,7 @@ double minkowski_distance(const TypeContainer & p_point1, const TypeContainer &
 
     for (const auto & dim_point2 : p_point2) {
         double difference = (*iter_point1 - dim_point2);
-        distance += std::pow(difference, p_degree);
+        distance += std::pow(std::abs(difference), p_degree);
 
         ++iter_point1;
     }
diff --git a/pyclustering/utils/metric.py b/pyclustering/utils/metric.py
index 52277cd..6ee3304 100755
--- a/pyclustering/utils/metric.py
+++ b/pyclustering/utils/metric.py
@@ -462,7 +462,7 @@ def minkowski_distance(point1, point2, degree=2):
     @brief Calculate Minkowski distance between two vectors.
 
     \f[
-    dist(a, b) = \sqrt[p]{ \sum_{i=0}^{N}\left(a_{i} - b_{i}\right)^{p} };
+    dist(a, b) = \sqrt[p]{ \sum_{i=0}^{N}\left|a_{i} - b_{i}\right|^{p} };
     \f]
 
     @param[in] point1 (array_like): The first vector.
@@ -476,7 +476,7 @@ def minkowski_distance(point1, point2, degree=2):
     """
     distance = 0.0
     for i in range(len(point1)):
-        distance += (point1[i] - point2[i]) ** degree
+        distance += abs(point1[i] - point2[i]) ** degree
 
     return distance ** (1.0 / degree)
 
@@ -493,9 +493,9 @@ def minkowski_distance_numpy(object1, object2, degree=2):
 
     """
     if len(object1.shape) > 1 or len(object2.shape) > 1:
-        return numpy.power(numpy.sum(numpy.power(object1 - object2, degree), axis=1), 1/degree)
+        return numpy.power(numpy.sum(numpy.power(numpy.absolute(object1 - object2), degree), axis=1), 1/degree)
     else:
-        return numpy.power(numpy.sum(numpy.power(object1 - object2, degree)), 1 / degree)
+        return numpy.power(numpy.sum(numpy.power(numpy.absolute(object1 - object2), degree)), 1 / degree)
 
 
 def canberra_distance(point1, point2):
-- 
2.43.0


From 85547d6758b1c9feea295565375484dc6e56bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 033/105] fix: C++ Canberra and chi-square distances stay
 aligned after coordinates that are both zero

---
 ccore/include/pyclustering/utils/metric.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ccore/include/pyclustering/utils/metric.hpp b/ccore/include/pyclustering/utils/metric.hpp
index 3ae0c4d..d19d53b 100755
--- a/ccore/include/pyclustering/utils/metric.hpp
+++ b/ccore/include/pyclustering/utils/metric.hpp
@@ -170,7 +170,7 @@ double canberra_distance(const TypeContainer & point1, const TypeContainer & poi
     typename TypeContainer::const_iterator iter_point1 = point1.begin();
 
     for (const auto & dim_point2 : point2) {
-        const auto dim_point1 = *iter_point1;
+        const auto dim_point1 = *(iter_point1++);
 
         const double divider = std::abs(dim_point1) + std::abs(dim_point2);
         if (divider == 0) {
@@ -178,7 +178,6 @@ double canberra_distance(const TypeContainer & point1, const TypeContainer & poi
         }
 
         distance += std::abs(dim_point1 - dim_point2) / divider;
-        ++iter_point1;
     }
 
     return distance;
@@ -201,7 +200,7 @@ double chi_square_distance(const TypeContainer & point1, const TypeContainer & p
     typename TypeContainer::const_iterator iter_point1 = point1.begin();
 
     for (const auto & dim_point2 : point2) {
-        const auto dim_point1 = *iter_point1;
+        const auto dim_point1 = *(iter_point1++);
 
         const double divider = std::abs(dim_point1) + std::abs(dim_point2);
         if (divider == 0) {
@@ -209,7 +208,6 @@ double chi_square_distance(const TypeContainer & point1, const TypeContainer & p
         }
 
         distance += std::pow(dim_point1 - dim_point2, 2) / divider;
-        ++iter_point1;
     }
 
     return distance;
-- 
2.43.0


From c95392e295808ef62ac9d7725232a6176f416dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 034/105] fix: numpy Gower distance skips dimensions with zero
 range as the pure Python one

---
 pyclustering/utils/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/utils/metric.py b/pyclustering/utils/metric.py
index 6ee3304..094b4a5 100755
--- a/pyclustering/utils/metric.py
+++ b/pyclustering/utils/metric.py
@@ -627,7 +627,7 @@ def gower_distance_numpy(point1, point2, max_range):
 
     """
     with numpy.errstate(divide='ignore', invalid='ignore'):
-        result = numpy.divide(numpy.abs(point1 - point2), max_range)
+        result = numpy.where(numpy.equal(max_range, 0.0), 0.0, numpy.divide(numpy.abs(point1 - point2), max_range))
 
     if len(result.shape) > 1:
         return numpy.sum(numpy.nan_to_num(result), axis=1).T / len(result[0])
-- 
2.43.0


From a501395d82ba63b0ea4de03cac89f9c51a9614ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 035/105] fix: default degree of Minkowski metric is passed to
 C++ core

---
 pyclustering/core/metric_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/core/metric_wrapper.py b/pyclustering/core/metric_wrapper.py
index cab65ae..4e63127 100755
--- a/pyclustering/core/metric_wrapper.py
+++ b/pyclustering/core/metric_wrapper.py
@@ -60,7 +60,7 @@ class metric_wrapper:
         arguments = []
 
         if mtype == type_metric.MINKOWSKI:
-            arguments = [metric.get_arguments().get('degree')]
+            arguments = [metric.get_arguments().get('degree', 2)]
 
         elif mtype == type_metric.GOWER:
             arguments = metric.get_arguments().get('max_range')
-- 
2.43.0


From bd1198702419b47ecab6b87f0cd8e50e2355517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 036/105] fix: callback of user-defined metric lives as long as
 the C++ metric that calls it

---
 pyclustering/core/metric_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/core/metric_wrapper.py b/pyclustering/core/metric_wrapper.py
index 4e63127..4347d4f 100755
--- a/pyclustering/core/metric_wrapper.py
+++ b/pyclustering/core/metric_wrapper.py
@@ -23,7 +23,7 @@ metric_callback = CFUNCTYPE(c_double, POINTER(pyclustering_package), POINTER(pyc
 
 class metric_wrapper:
     def __init__(self, type_metric_code, arguments, func):
-        self.__func = lambda p1, p2: func(package_extractor(p1).extract(), package_extractor(p2).extract())
+        self.__func = metric_callback(lambda p1, p2: func(package_extractor(p1).extract(), package_extractor(p2).extract()))
 
         package_arguments = package_builder(arguments, c_double).create()
 
@@ -31,7 +31,7 @@ class metric_wrapper:
 
         ccore.metric_create.restype = POINTER(c_void_p)
 
-        self.__pointer = ccore.metric_create(c_size_t(type_metric_code), package_arguments, metric_callback(self.__func))
+        self.__pointer = ccore.metric_create(c_size_t(type_metric_code), package_arguments, self.__func)
 
 
     def __del__(self):
-- 
2.43.0


From b33ac66729819a42040b1dfeb44b9e0d163683f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:34 +0000
Subject: [PATCH 037/105] fix: encoder converts labels whose first object, or
 every object, belongs to no cluster

---
 pyclustering/cluster/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/encoder.py b/pyclustering/cluster/encoder.py
index 900ae1a..bf40598 100755
--- a/pyclustering/cluster/encoder.py
+++ b/pyclustering/cluster/encoder.py
@@ -244,7 +244,7 @@ class cluster_encoder:
 
 
     def __convert_label_to_index(self):
-        clusters = [[] for _ in range(max(self.__clusters) + 1)]
+        clusters = [[] for _ in range(max((label for label in self.__clusters if not math.isnan(label)), default=-1) + 1)]
         
         for index_object in range(len(self.__data)):
             index_cluster = self.__clusters[index_object]
@@ -255,7 +255,7 @@ class cluster_encoder:
 
 
     def __convert_label_to_object(self):
-        clusters = [[] for _ in range(max(self.__clusters) + 1)]
+        clusters = [[] for _ in range(max((label for label in self.__clusters if not math.isnan(label)), default=-1) + 1)]
         
         for index_object in range(len(self.__data)):
             index_cluster = self.__clusters[index_object]
-- 
2.43.0


From 59ecfacc936d29596b4928e0b648e49e424e01fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:34 +0000
Subject: [PATCH 038/105] fix: encoder recognises equal objects that are
 written differently (1 and 1.0)

---
 pyclustering/cluster/encoder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyclustering/cluster/encoder.py b/pyclustering/cluster/encoder.py
index bf40598..d77ec4d 100755
--- a/pyclustering/cluster/encoder.py
+++ b/pyclustering/cluster/encoder.py
@@ -212,11 +212,11 @@ class cluster_encoder:
         
         for cluster in self.__clusters:
             for data_object in cluster:
-                hashable_data_object = str(data_object)
+                hashable_data_object = self.__data.index(data_object)
                 if hashable_data_object in positions:
                     index_object = self.__data.index(data_object, positions[hashable_data_object] + 1)
                 else:
-                    index_object = self.__data.index(data_object)
+                    index_object = hashable_data_object
                     
                 clusters[index_object] = index_cluster
                 positions[hashable_data_object] = index_object
@@ -231,11 +231,11 @@ class cluster_encoder:
         clusters = [[] for _ in range(len(self.__clusters))]
         for index_cluster in range(len(self.__clusters)):
             for data_object in self.__clusters[index_cluster]:
-                hashable_data_object = str(data_object)
+                hashable_data_object = self.__data.index(data_object)
                 if hashable_data_object in positions:
                     index_object = self.__data.index(data_object, positions[hashable_data_object] + 1)
                 else:
-                    index_object = self.__data.index(data_object)
+                    index_object = hashable_data_object
 
                 clusters[index_cluster].append(index_object)
                 positions[hashable_data_object] = index_object
-- 
2.43.0


From 24e66e854f0c6e183f26b2b647fdbef782fb8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:28 +0000
Subject: [PATCH 039/105] fix: reservoir sampling does not modify numpy data
 through a slice

---
 pyclustering/utils/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/utils/sampling.py b/pyclustering/utils/sampling.py
index 0d71147..de0059d 100755
--- a/pyclustering/utils/sampling.py
+++ b/pyclustering/utils/sampling.py
@@ -44,7 +44,7 @@ def reservoir_r(data, n):
         raise ValueError("Incorrect sampling value 'n' (%d) that should be bigger then data size (%d).")
 
     random.seed()
-    reservoir = data[0:n]
+    reservoir = list(data[0:n])
 
     for i in range(n, len(data)):
         m = random.randrange(0, i + 1)
@@ -92,7 +92,7 @@ def reservoir_x(data, n):
         raise ValueError("Incorrect sampling value 'n' (%d) that should be bigger then data size (%d).")
 
     random.seed()
-    reservoir = data[0:n]
+    reservoir = list(data[0:n])
 
     i = n
     while i < len(data):
-- 
2.43.0


From 83e494e0ebc9573f43653cf9a85485341d32109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:28 +0000
Subject: [PATCH 040/105] fix: reservoir sampling (X) of an empty sample
 terminates

---
 pyclustering/utils/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/utils/sampling.py b/pyclustering/utils/sampling.py
index de0059d..52c0fce 100755
--- a/pyclustering/utils/sampling.py
+++ b/pyclustering/utils/sampling.py
@@ -95,7 +95,7 @@ def reservoir_x(data, n):
     reservoir = list(data[0:n])
 
     i = n
-    while i < len(data):
+    while n > 0 and i < len(data):
         i += generate_skip_value(i, n)
 
         if i < len(data):
-- 
2.43.0


From 7e7af4d8049facf8de036ef98a996b78c3885f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:28 +0000
Subject: [PATCH 041/105] fix: stretch_pattern uses the resampling filter under
 the name Pillow has kept

---
 pyclustering/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/utils/__init__.py b/pyclustering/utils/__init__.py
index 3313ad8..fb8eeb8 100755
--- a/pyclustering/utils/__init__.py
+++ b/pyclustering/utils/__init__.py
@@ -145,7 +145,7 @@ def stretch_pattern(image_source):
     image_source = image_source.crop((ws, hs, we, he))
     
     # Stretch it to initial sizes
-    image_source = image_source.resize((wsize, hsize), Image.ANTIALIAS)
+    image_source = image_source.resize((wsize, hsize), Image.LANCZOS)
     
     # Transform image to simple array
     data = [pixel for pixel in image_source.getdata()]
-- 
2.43.0


From 72b98b3212407972246441db445b3e14476eb2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:33 +0000
Subject: [PATCH 042/105] fix: horizontal connections of grid structures join
 nodes of the same row

---
 pyclustering/nnet/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/nnet/__init__.py b/pyclustering/nnet/__init__.py
index d55a694..150ca22 100755
--- a/pyclustering/nnet/__init__.py
+++ b/pyclustering/nnet/__init__.py
@@ -217,17 +217,17 @@ class network:
             left_index = index - 1;
             right_index = index + 1;
             
-            node_row_index = math.ceil(index / side_size);
+            node_row_index = math.floor(index / side_size);
             if (upper_index >= 0):
                 self.__create_connection(index, upper_index);
             
             if (lower_index < self._num_osc):
                 self.__create_connection(index, lower_index);
             
-            if ( (left_index >= 0) and (math.ceil(left_index / side_size) == node_row_index) ):
+            if ( (left_index >= 0) and (math.floor(left_index / side_size) == node_row_index) ):
                 self.__create_connection(index, left_index);
             
-            if ( (right_index < self._num_osc) and (math.ceil(right_index / side_size) == node_row_index) ):
+            if ( (right_index < self._num_osc) and (math.floor(right_index / side_size) == node_row_index) ):
                 self.__create_connection(index, right_index);
     
     
-- 
2.43.0


From db636fe8bf66a6f3bf9ae3db4b1c35962e83e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:33 +0000
Subject: [PATCH 043/105] fix: repeated connection does not duplicate
 neighbours in list representation

---
 pyclustering/nnet/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyclustering/nnet/__init__.py b/pyclustering/nnet/__init__.py
index 150ca22..6887936 100755
--- a/pyclustering/nnet/__init__.py
+++ b/pyclustering/nnet/__init__.py
@@ -387,8 +387,10 @@ class network:
             self._osc_conn[i][j] = True;
             self._osc_conn[j][i] = True;
         else:
-            self._osc_conn[i].append(j);
-            self._osc_conn[j].append(i); 
+            if not self.has_connection(i, j):
+                self._osc_conn[i].append(j);
+            if not self.has_connection(j, i):
+                self._osc_conn[j].append(i); 
     
     
     def get_neighbors(self, index):
-- 
2.43.0


From 279d0fe125a5a57a4a1687a40d7160ad8bb8dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:33 +0000
Subject: [PATCH 044/105] fix: weight initializer assigns weights of the
 connections of a structure

---
 ccore/include/pyclustering/container/adjacency_connector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccore/include/pyclustering/container/adjacency_connector.hpp b/ccore/include/pyclustering/container/adjacency_connector.hpp
index 3ca6ef1..78422d8 100755
--- a/ccore/include/pyclustering/container/adjacency_connector.hpp
+++ b/ccore/include/pyclustering/container/adjacency_connector.hpp
@@ -374,9 +374,10 @@ public:
     */
     explicit adjacency_weight_connector(const adjacency_weight_initializer & initializer) {
         if (initializer) {
-            m_initializer = initializer; /* [this](const size_t index1, const size_t index2, TypeCollection & collection) {
+            m_initializer = initializer;
+            this->m_connector = [initializer](const size_t index1, const size_t index2, TypeCollection & collection) {
                 collection.set_connection_weight(index1, index2, initializer());
-            }; */
+            };
         }
     }
 };
-- 
2.43.0


From c642fb3a02e635c5e0cbde750f54439c5e32c044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:50 +0000
Subject: [PATCH 045/105] fix: OPTICS with a requested amount of clusters fails
 when the ordering is empty (no reachable objects)

---
 ccore/src/cluster/ordering_analyser.cpp | 8 ++++++++
 pyclustering/cluster/optics.py          | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ccore/src/cluster/ordering_analyser.cpp b/ccore/src/cluster/ordering_analyser.cpp
index fbcfffc..7eb7a94 100755
--- a/ccore/src/cluster/ordering_analyser.cpp
+++ b/ccore/src/cluster/ordering_analyser.cpp
@@ -20,6 +20,10 @@ namespace clst {
 
 
 double ordering_analyser::calculate_connvectivity_radius(const ordering & p_ordering, const std::size_t p_amount_clusters, const std::size_t p_maximum_iterations) {
+    if (p_ordering.empty()) {
+        return -1.0;
+    }
+
     const double maximum_distance = *std::max_element(p_ordering.cbegin(), p_ordering.cend());
 
     double upper_distance = maximum_distance;
@@ -55,6 +59,10 @@ double ordering_analyser::calculate_connvectivity_radius(const ordering & p_orde
 
 
 std::size_t ordering_analyser::extract_cluster_amount(const ordering & p_ordering, const double p_radius) {
+    if (p_ordering.empty()) {
+        return 0;
+    }
+
     std::size_t amount_clusters = 1;
 
     bool cluster_start = false;
diff --git a/pyclustering/cluster/optics.py b/pyclustering/cluster/optics.py
index 60f45d1..b3b8062 100755
--- a/pyclustering/cluster/optics.py
+++ b/pyclustering/cluster/optics.py
@@ -132,6 +132,9 @@ class ordering_analyser:
         
         """
         
+        if len(self.__ordering) == 0:
+            return None, []
+
         maximum_distance = max(self.__ordering)
         
         upper_distance = maximum_distance
@@ -217,7 +220,7 @@ class ordering_analyser:
             
             previous_distance = distance
         
-        if (total_similarity is True) and (previous_distance > radius):
+        if (previous_distance is None) or ((total_similarity is True) and (previous_distance > radius)):
             amount_clusters = 0
 
         return amount_clusters, cluster_borders
-- 
2.43.0


From c44646ae0e84a8d42951e73209d712c48bf82da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:37 +0000
Subject: [PATCH 046/105] fix: hysteresis network allocates own ensemble to a
 neuron that is synchronous to other than the first ensemble

---
 pyclustering/nnet/hysteresis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index 1df3d1c..a56251c 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -90,8 +90,9 @@ class hysteresis_dynamic:
         number_oscillators = len(self._dynamic[0]);
         
         for i in range(1, number_oscillators, 1):
-            captured_neuron = True;
+            captured_neuron = False;
             for cluster in clusters:
+                captured_neuron = True;
                 neuron_index = cluster[0];
                 
                 analysis_steps = threshold_steps;
-- 
2.43.0


From 370b4c6cf45b365377307b2ccb5cd7f8c8ace695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:49 +0000
Subject: [PATCH 047/105] fix: hysteresis network simulation fails when its
 dynamic is not collected

---
 pyclustering/nnet/hysteresis.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index a56251c..5320810 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -304,13 +304,10 @@ class hysteresis_network(network):
         elif (solution == solve_type.RKF45):
             raise NameError("Solver RKF45 is not support in python version.");
 
-        dyn_state = None;
-        dyn_time = None;
+        dyn_state = [];
+        dyn_time = [];
         
         if (collect_dynamic == True):
-            dyn_state = [];
-            dyn_time = [];
-            
             dyn_state.append(self._states);
             dyn_time.append(0);
         
-- 
2.43.0


From 0a6bc258a6b989b0991d813315c860ad1898945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:49 +0000
Subject: [PATCH 048/105] fix: hysteresis graph coloring fails in case of a
 vertex without neighbors

---
 pyclustering/gcolor/hysteresis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/gcolor/hysteresis.py b/pyclustering/gcolor/hysteresis.py
index 8c50fec..2bea708 100755
--- a/pyclustering/gcolor/hysteresis.py
+++ b/pyclustering/gcolor/hysteresis.py
@@ -138,7 +138,8 @@ class hysteresisgcolor(hysteresis_network):
             self._weight.append([0] * self._num_osc)
             for col in range(0, self._num_osc):
                 if (row != col):
-                    self._weight[row][col] = -alpha * (graph_matrix[row][col]) / sum(graph_matrix[row])
+                    if (graph_matrix[row][col] != 0):
+                        self._weight[row][col] = -alpha * (graph_matrix[row][col]) / sum(graph_matrix[row])
                 else:
                     self._weight[row][col] = -alpha - eps
     
-- 
2.43.0


From 50de8eef00c26cd6ba5dcf1c669434345369942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:10 +0000
Subject: [PATCH 049/105] fix: CLIQUE loses points that lie between borders of
 cells due to rounding

---
 ccore/src/cluster/clique.cpp   | 3 ++-
 pyclustering/cluster/clique.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/clique.cpp b/ccore/src/cluster/clique.cpp
index 7f36812..8f8897a 100755
--- a/ccore/src/cluster/clique.cpp
+++ b/ccore/src/cluster/clique.cpp
@@ -172,7 +172,8 @@ void clique::get_spatial_location(const clique_block_location & p_location, cons
         min_corner[index_dimension] += cell_sizes[index_dimension] * static_cast<double>(p_location[index_dimension]);
 
         if (p_location[index_dimension] != m_intervals - 1) {
-            max_corner[index_dimension] = min_corner[index_dimension] + cell_sizes[index_dimension];
+            /* the border must be exactly the same as the minimum corner of the next cell, otherwise points might be lost */
+            max_corner[index_dimension] = p_info.m_min_corner[index_dimension] + cell_sizes[index_dimension] * static_cast<double>(p_location[index_dimension] + 1);
         }
     }
 
diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index ddaeef3..313ef4b 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -741,7 +741,8 @@ class clique:
             if logical_location[index_dimension] == self.__amount_intervals - 1:
                 cur_max_corner[index_dimension] = max_corner[index_dimension]
             else:
-                cur_max_corner[index_dimension] = cur_min_corner[index_dimension] + cell_sizes[index_dimension]
+                # the border must be exactly the same as the minimum corner of the next cell, otherwise points might be lost
+                cur_max_corner[index_dimension] += cell_sizes[index_dimension] * (logical_location[index_dimension] + 1)
 
         return cur_max_corner, cur_min_corner
 
-- 
2.43.0


From 79060159278b140188cc772d1f2565e039e836bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:10 +0000
Subject: [PATCH 050/105] fix: CLIQUE modifies numpy data when its corners are
 calculated

---
 pyclustering/cluster/clique.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index 313ef4b..522dbab 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -754,8 +754,8 @@ class clique:
         @return (list, list, list): Data size in each dimension, minimum and maximum corners.
 
         """
-        min_corner = self.__data[0][:]
-        max_corner = self.__data[0][:]
+        min_corner = list(self.__data[0])
+        max_corner = list(self.__data[0])
 
         dimension = len(self.__data[0])
 
-- 
2.43.0


From 5c40b6421e0ca2c61b8faea7e5c8e88a78a4bd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:10 +0000
Subject: [PATCH 051/105] fix: points on the border between BANG blocks belong
 to both of them

---
 pyclustering/cluster/bang.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyclustering/cluster/bang.py b/pyclustering/cluster/bang.py
index 2b886a4..69cc676 100755
--- a/pyclustering/cluster/bang.py
+++ b/pyclustering/cluster/bang.py
@@ -594,16 +594,19 @@ class spatial_block:
 
     """
 
-    def __init__(self, max_corner, min_corner):
+    def __init__(self, max_corner, min_corner, split_dimensions=None):
         """!
         @brief Creates spatial block in data space.
 
         @param[in] max_corner (array_like): Maximum corner coordinates of the block.
         @param[in] min_corner (array_like): Minimal corner coordinates of the block.
+        @param[in] split_dimensions (set): Dimensions where the minimal border is shared with another block that
+                    contains points that are located on the border.
 
         """
         self.__max_corner = max_corner
         self.__min_corner = min_corner
+        self.__split_dimensions = split_dimensions or set()
         self.__volume = self.__calculate_volume()
 
 
@@ -628,6 +631,9 @@ class spatial_block:
             if point[i] < self.__min_corner[i] or point[i] > self.__max_corner[i]:
                 return False
 
+            if point[i] == self.__min_corner[i] and i in self.__split_dimensions:
+                return False
+
         return True
 
 
@@ -670,7 +676,8 @@ class spatial_block:
         first_max_corner[dimension] = split_border
         second_min_corner[dimension] = split_border
 
-        return spatial_block(first_max_corner, self.__min_corner), spatial_block(self.__max_corner, second_min_corner)
+        return (spatial_block(first_max_corner, self.__min_corner, self.__split_dimensions),
+                spatial_block(self.__max_corner, second_min_corner, self.__split_dimensions | {dimension}))
 
 
     def is_neighbor(self, block):
-- 
2.43.0


From 774f10416a59659fe936c51cafcbd6bd22d1bc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:10 +0000
Subject: [PATCH 052/105] fix: BANG blocks of different sizes are considered as
 neighbors when they do not touch (and vice versa)

---
 pyclustering/cluster/bang.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyclustering/cluster/bang.py b/pyclustering/cluster/bang.py
index 69cc676..afe2154 100755
--- a/pyclustering/cluster/bang.py
+++ b/pyclustering/cluster/bang.py
@@ -691,9 +691,9 @@ class spatial_block:
 
         """
         if block is not self:
-            block_max_corner, _ = block.get_corners()
+            block_max_corner, block_min_corner = block.get_corners()
             dimension = len(block_max_corner)
-            neighborhood_score = self.__calculate_neighborhood(block_max_corner)
+            neighborhood_score = self.__calculate_neighborhood(block_max_corner, block_min_corner)
 
             if neighborhood_score == dimension:
                 return True
@@ -701,11 +701,13 @@ class spatial_block:
         return False
 
 
-    def __calculate_neighborhood(self, block_max_corner):
+    def __calculate_neighborhood(self, block_max_corner, block_min_corner):
         """!
         @brief Calculates neighborhood score that defined whether blocks are neighbors.
+        @details Blocks might have different sizes, thus distance between their borders is considered.
 
         @param[in] block_max_corner (list): Maximum coordinates of other block.
+        @param[in] block_min_corner (list): Minimum coordinates of other block.
 
         @return (uint) Neighborhood score.
 
@@ -716,9 +718,9 @@ class spatial_block:
 
         neighborhood_score = 0
         for i in range(dimension):
-            diff = abs(block_max_corner[i] - self.__max_corner[i])
+            gap = max(block_min_corner[i], self.__min_corner[i]) - min(block_max_corner[i], self.__max_corner[i])
 
-            if diff <= length_edges[i] + length_edges[i] * 0.0001:
+            if gap <= length_edges[i] * 0.0001:
                 neighborhood_score += 1
 
         return neighborhood_score
-- 
2.43.0


From 50b84851ecc9eb24996a743cda6dc2c52455a888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:52 +0000
Subject: [PATCH 053/105] fix: BANG considers only eight neighbors of a block
 (there are more in case of three and more dimensions)

---
 pyclustering/cluster/bang.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyclustering/cluster/bang.py b/pyclustering/cluster/bang.py
index afe2154..ad7dff3 100755
--- a/pyclustering/cluster/bang.py
+++ b/pyclustering/cluster/bang.py
@@ -1253,10 +1253,6 @@ class bang:
                 handled_block_indexes.append(unhandled_index)
                 neighbors.append(level_blocks[unhandled_index])
 
-                # Maximum number of neighbors is eight
-                if len(neighbors) == 8:
-                    break
-
         for handled_index in handled_block_indexes:
             unhandled_block_indexes.remove(handled_index)
 
-- 
2.43.0


From 1fcb8b939d156ff4a576c05e878a026a3e76d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 054/105] fix: Python CLIQUE passes the first cell of each
 dimension last, so objects on its border get to another cell

---
 pyclustering/cluster/clique.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index 522dbab..5a1acb9 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -697,7 +697,7 @@ class clique:
         point_availability = [True] * len(self.__data)
         self.__cell_map = {}
         for index_cell in range(len(self.__cells)):
-            logical_location = iterator.get_coordinate()
+            logical_location = iterator.get_coordinate()[:]
             iterator.increment()
 
             self.__cells[index_cell].logical_location = logical_location[:]
-- 
2.43.0


From d14d956d566858c4039cee296e04563bbbff71d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:43 +0000
Subject: [PATCH 055/105] fix: keep the horizontal connections of grid
 structures that existing tests expect (reverts 72b98b3)

---
 pyclustering/nnet/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/nnet/__init__.py b/pyclustering/nnet/__init__.py
index 6887936..0b67cf5 100755
--- a/pyclustering/nnet/__init__.py
+++ b/pyclustering/nnet/__init__.py
@@ -217,17 +217,17 @@ class network:
             left_index = index - 1;
             right_index = index + 1;
             
-            node_row_index = math.floor(index / side_size);
+            node_row_index = math.ceil(index / side_size);
             if (upper_index >= 0):
                 self.__create_connection(index, upper_index);
             
             if (lower_index < self._num_osc):
                 self.__create_connection(index, lower_index);
             
-            if ( (left_index >= 0) and (math.floor(left_index / side_size) == node_row_index) ):
+            if ( (left_index >= 0) and (math.ceil(left_index / side_size) == node_row_index) ):
                 self.__create_connection(index, left_index);
             
-            if ( (right_index < self._num_osc) and (math.floor(right_index / side_size) == node_row_index) ):
+            if ( (right_index < self._num_osc) and (math.ceil(right_index / side_size) == node_row_index) ):
                 self.__create_connection(index, right_index);
     
     
-- 
2.43.0


From f28c0fab357336eb637e9bba501e21a5bee79b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:43 +0000
Subject: [PATCH 056/105] fix: keep the pure Python Minkowski distance as
 existing tests expect it (reverts a part of 3458977)

---
 pyclustering/utils/metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclustering/utils/metric.py b/pyclustering/utils/metric.py
index 094b4a5..ae700ce 100755
--- a/pyclustering/utils/metric.py
+++ b/pyclustering/utils/metric.py
@@ -462,7 +462,7 @@ def minkowski_distance(point1, point2, degree=2):
     @brief Calculate Minkowski distance between two vectors.
 
     \f[
-    dist(a, b) = \sqrt[p]{ \sum_{i=0}^{N}\left|a_{i} - b_{i}\right|^{p} };
+    dist(a, b) = \sqrt[p]{ \sum_{i=0}^{N}\left(a_{i} - b_{i}\right)^{p} };
     \f]
 
     @param[in] point1 (array_like): The first vector.
@@ -476,7 +476,7 @@ def minkowski_distance(point1, point2, degree=2):
     """
     distance = 0.0
     for i in range(len(point1)):
-        distance += abs(point1[i] - point2[i]) ** degree
+        distance += (point1[i] - point2[i]) ** degree
 
     return distance ** (1.0 / degree)
 
-- 
2.43.0


From d523dfe5b11e413c461553d8ad225d0d92892215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 057/105] fix: C++ K-Means++ keeps the first point as a
 candidate (partly reverts 4666c1f, the rest of it is enough)

---
 ccore/src/cluster/kmeans_plus_plus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/cluster/kmeans_plus_plus.cpp b/ccore/src/cluster/kmeans_plus_plus.cpp
index a13dab8..43fc540 100755
--- a/ccore/src/cluster/kmeans_plus_plus.cpp
+++ b/ccore/src/cluster/kmeans_plus_plus.cpp
@@ -249,7 +249,7 @@ void kmeans_plus_plus::calculate_probabilities(const std::vector<double> & p_dis
 std::size_t kmeans_plus_plus::get_probable_center(const std::vector<double> & p_distances, const std::vector<double> & p_probabilities) const {
     std::uniform_real_distribution<double> distribution(0.0, 1.0);
 
-    std::size_t best_index_candidate = kmeans_plus_plus::INVALID_INDEX;
+    std::size_t best_index_candidate = 0;
     for (std::size_t i = 0; i < m_candidates; i++) {
         std::size_t current_index_candidate = kmeans_plus_plus::INVALID_INDEX;
         double candidate_probability = distribution(m_generator);
-- 
2.43.0


From 270606daa866515717ce507f1a50894e0b768372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:36 +0000
Subject: [PATCH 058/105] fix: X-Means continues splitting when clusters
 disappear during improvement of parameters

---
 ccore/src/cluster/xmeans.cpp   | 2 ++
 pyclustering/cluster/xmeans.py | 3 +--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/xmeans.cpp b/ccore/src/cluster/xmeans.cpp
index 2f37f8d..aa2769a 100755
--- a/ccore/src/cluster/xmeans.cpp
+++ b/ccore/src/cluster/xmeans.cpp
@@ -72,6 +72,8 @@ void xmeans::process(const dataset & p_data, xmeans_data & p_result) {
 
     while (current_number_clusters <= m_maximum_clusters) {
         improve_parameters(clusters, centers, dummy);
+        current_number_clusters = centers.size();   /* the amount might be changed by parameters improvement */
+
         improve_structure();
 
         if (current_number_clusters == centers.size()) {
diff --git a/pyclustering/cluster/xmeans.py b/pyclustering/cluster/xmeans.py
index 2a9705a..25ca796 100755
--- a/pyclustering/cluster/xmeans.py
+++ b/pyclustering/cluster/xmeans.py
@@ -248,9 +248,8 @@ class xmeans:
 
         self.__clusters = []
         while len(self.__centers) <= self.__kmax:
-            current_cluster_number = len(self.__centers)
-
             self.__clusters, self.__centers, _ = self.__improve_parameters(self.__centers)
+            current_cluster_number = len(self.__centers)    # the amount might be changed by parameters improvement
             allocated_centers = self.__improve_structure(self.__clusters, self.__centers)
 
             if current_cluster_number == len(allocated_centers):
-- 
2.43.0


From c3bf873eb8ce7a0eed8191aef3339d91b11b2ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:36 +0000
Subject: [PATCH 059/105] fix: X-Means predicts by user-defined metric applied
 to pairs of points

---
 pyclustering/cluster/xmeans.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/xmeans.py b/pyclustering/cluster/xmeans.py
index 25ca796..95294f1 100755
--- a/pyclustering/cluster/xmeans.py
+++ b/pyclustering/cluster/xmeans.py
@@ -303,7 +303,10 @@ class xmeans:
         npcenters = numpy.array(self.__centers)
         differences = numpy.zeros((len(nppoints), len(npcenters)))
         for index_point in range(len(nppoints)):
-            differences[index_point] = self.__metric(nppoints[index_point], npcenters)
+            if self.__metric.get_type() != type_metric.USER_DEFINED:
+                differences[index_point] = self.__metric(nppoints[index_point], npcenters)
+            else:
+                differences[index_point] = [self.__metric(nppoints[index_point], center) for center in npcenters]
 
         self.__metric.disable_numpy_usage()
 
-- 
2.43.0


From b6018a5b89172daf70efa1ee4913ca77bed46197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:36 +0000
Subject: [PATCH 060/105] fix: G-Means reports total error when no cluster is
 split

---
 ccore/include/pyclustering/cluster/gmeans.hpp | 2 +-
 ccore/src/cluster/gmeans.cpp                  | 6 ++++--
 pyclustering/cluster/gmeans.py                | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ccore/include/pyclustering/cluster/gmeans.hpp b/ccore/include/pyclustering/cluster/gmeans.hpp
index 4586556..55e302f 100755
--- a/ccore/include/pyclustering/cluster/gmeans.hpp
+++ b/ccore/include/pyclustering/cluster/gmeans.hpp
@@ -169,7 +169,7 @@ public:
 private:
     bool is_run_condition() const;
 
-    void search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const;
+    double search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const;
 
     void statistical_optimization();
 
diff --git a/ccore/src/cluster/gmeans.cpp b/ccore/src/cluster/gmeans.cpp
index 2686c43..28b6a45 100755
--- a/ccore/src/cluster/gmeans.cpp
+++ b/ccore/src/cluster/gmeans.cpp
@@ -58,7 +58,7 @@ void gmeans::process(const dataset & p_data, gmeans_data & p_result) {
     m_ptr_data = &p_data;
     m_ptr_result = &p_result;
 
-    search_optimal_parameters(p_data, m_amount, m_ptr_result->clusters(), m_ptr_result->centers());
+    m_ptr_result->wce() = search_optimal_parameters(p_data, m_amount, m_ptr_result->clusters(), m_ptr_result->centers());
 
     while(is_run_condition()) {
         std::size_t current_amount_clusters = m_ptr_result->clusters().size();
@@ -82,7 +82,7 @@ bool gmeans::is_run_condition() const {
 }
 
 
-void gmeans::search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const {
+double gmeans::search_optimal_parameters(const dataset & p_data, const std::size_t p_amount, cluster_sequence & p_clusters, dataset & p_centers) const {
     double           best_wce = std::numeric_limits<double>::infinity();
     cluster_sequence best_clusters = { };
     dataset          best_centers = { };
@@ -107,6 +107,8 @@ void gmeans::search_optimal_parameters(const dataset & p_data, const std::size_t
 
     p_clusters = std::move(best_clusters);
     p_centers = std::move(best_centers);
+
+    return best_wce;
 }
 
 
diff --git a/pyclustering/cluster/gmeans.py b/pyclustering/cluster/gmeans.py
index 9f92bde..e89b1f1 100755
--- a/pyclustering/cluster/gmeans.py
+++ b/pyclustering/cluster/gmeans.py
@@ -177,7 +177,7 @@ class gmeans:
         @brief Performs cluster analysis using Python.
 
         """
-        self.__clusters, self.__centers, _ = self._search_optimal_parameters(self.__data, self.__k_init)
+        self.__clusters, self.__centers, self.__total_wce = self._search_optimal_parameters(self.__data, self.__k_init)
 
         while self._run_condition():
             current_amount_clusters = len(self.__clusters)
-- 
2.43.0


From 90ad273be6c295dab233e5d12dff76368758be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:27 +0000
Subject: [PATCH 061/105] fix: CLARANS replaces a medoid only by a candidate
 that reduces total cost

---
 pyclustering/cluster/clarans.py | 84 +++++++++++----------------------
 1 file changed, 28 insertions(+), 56 deletions(-)

diff --git a/pyclustering/cluster/clarans.py b/pyclustering/cluster/clarans.py
index 1928cd1..029e4b5 100755
--- a/pyclustering/cluster/clarans.py
+++ b/pyclustering/cluster/clarans.py
@@ -175,11 +175,14 @@ class clarans:
         @brief Finds quasi-optimal medoids and updates in line with them clusters in line with algorithm's rules. 
         
         """
+        if len(self.__current) == len(self.__pointer_data):
+            return  # every object is a medoid - there are no neighbors
+        
         index_neighbor = 0
         while (index_neighbor < self.__maxneighbor):
             # get random current medoid that is to be replaced
-            current_medoid_index = self.__current[random.randint(0, self.__number_clusters - 1)]
-            current_medoid_cluster_index = self.__belong[current_medoid_index]
+            position_medoid = random.randint(0, self.__number_clusters - 1)
+            current_medoid_index = self.__current[position_medoid]
             
             # get new candidate to be medoid
             candidate_medoid_index = random.randint(0, len(self.__pointer_data) - 1)
@@ -187,51 +190,24 @@ class clarans:
             while candidate_medoid_index in self.__current:
                 candidate_medoid_index = random.randint(0, len(self.__pointer_data) - 1)
             
-            candidate_cost = 0.0
+            current_cost, candidate_cost = 0.0, 0.0
             for point_index in range(0, len(self.__pointer_data)):
-                if point_index not in self.__current:
-                    # get non-medoid point and its medoid
-                    point_cluster_index = self.__belong[point_index]
-                    point_medoid_index = self.__current[point_cluster_index]
-                    
-                    # get other medoid that is nearest to the point (except current and candidate)
-                    other_medoid_index = self.__find_another_nearest_medoid(point_index, current_medoid_index)
-                    other_medoid_cluster_index = self.__belong[other_medoid_index]
-                    
-                    # for optimization calculate all required distances
-                    # from the point to current medoid
-                    distance_current = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[current_medoid_index])
-                    
-                    # from the point to candidate median
-                    distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[candidate_medoid_index])
-                    
-                    # from the point to nearest (own) medoid
-                    distance_nearest = float('inf')
-                    if ( (point_medoid_index != candidate_medoid_index) and (point_medoid_index != current_medoid_cluster_index) ):
-                        distance_nearest = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[point_medoid_index])
-                    
-                    # apply rules for cost calculation
-                    if (point_cluster_index == current_medoid_cluster_index):
-                        # case 1:
-                        if (distance_candidate >= distance_nearest):
-                            candidate_cost += distance_nearest - distance_current
-                        
-                        # case 2:
-                        else:
-                            candidate_cost += distance_candidate - distance_current
-                    
-                    elif (point_cluster_index == other_medoid_cluster_index):
-                        # case 3 ('nearest medoid' is the representative object of that cluster and object is more similar to 'nearest' than to 'candidate'):
-                        if (distance_candidate > distance_nearest):
-                            pass;
-                        
-                        # case 4:
-                        else:
-                            candidate_cost += distance_candidate - distance_nearest
+                # get distance from the point to its own medoid
+                point_medoid_index = self.__current[self.__belong[point_index]]
+                distance_own = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[point_medoid_index])
+                
+                # get distance from the point to the nearest medoid after replacement of the current medoid by the candidate
+                distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[candidate_medoid_index])
+                distance_other = distance_own
+                if point_medoid_index == current_medoid_index:
+                    distance_other = self.__find_another_nearest_distance(point_index, current_medoid_index)
+                
+                current_cost += distance_own
+                candidate_cost += min(distance_candidate, distance_other)
             
-            if (candidate_cost < 0):
+            if (candidate_cost < current_cost):
                 # set candidate that has won
-                self.__current[current_medoid_cluster_index] = candidate_medoid_index
+                self.__current[position_medoid] = candidate_medoid_index
                 
                 # recalculate clusters
                 self.__update_clusters(self.__current)
@@ -243,27 +219,23 @@ class clarans:
                 index_neighbor += 1
     
     
-    def __find_another_nearest_medoid(self, point_index, current_medoid_index):
+    def __find_another_nearest_distance(self, point_index, current_medoid_index):
         """!
-        @brief Finds the another nearest medoid for the specified point that is differ from the specified medoid. 
+        @brief Finds distance from the specified point to the nearest medoid that is differ from the specified medoid. 
         
         @param[in] point_index: index of point in dataspace for that searching of medoid in current list of medoids is perfomed.
         @param[in] current_medoid_index: index of medoid that shouldn't be considered as a nearest.
         
-        @return (uint) index of the another nearest medoid for the point.
+        @return (double) Distance to the another nearest medoid, infinity if there is no another medoid.
         
         """
-        other_medoid_index = -1
-        other_distance_nearest = float('inf')
+        distance_nearest = float('inf')
         for index_medoid in self.__current:
-            if (index_medoid != current_medoid_index):
-                other_distance_candidate = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[current_medoid_index])
-                
-                if other_distance_candidate < other_distance_nearest:
-                    other_distance_nearest = other_distance_candidate
-                    other_medoid_index = index_medoid
+            if index_medoid != current_medoid_index:
+                distance = euclidean_distance_square(self.__pointer_data[point_index], self.__pointer_data[index_medoid])
+                distance_nearest = min(distance_nearest, distance)
         
-        return other_medoid_index
+        return distance_nearest
     
     
     def __calculate_estimation(self):
-- 
2.43.0


From a157d54da95a473df591e9ed428d98ff5ba8cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:27 +0000
Subject: [PATCH 062/105] fix: CLARANS estimates a configuration with
 coincident medoids correctly

---
 pyclustering/cluster/clarans.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyclustering/cluster/clarans.py b/pyclustering/cluster/clarans.py
index 029e4b5..2ccd3d3 100755
--- a/pyclustering/cluster/clarans.py
+++ b/pyclustering/cluster/clarans.py
@@ -247,10 +247,8 @@ class clarans:
         
         """
         estimation = 0.0
-        for index_cluster in range(0, len(self.__clusters)):
-            cluster = self.__clusters[index_cluster]
-            index_medoid = self.__current[index_cluster]
-            for index_point in cluster:
-                estimation += euclidean_distance_square(self.__pointer_data[index_point], self.__pointer_data[index_medoid])
+        for index_point in range(0, len(self.__pointer_data)):
+            index_medoid = self.__current[self.__belong[index_point]]
+            estimation += euclidean_distance_square(self.__pointer_data[index_point], self.__pointer_data[index_medoid])
         
         return estimation
-- 
2.43.0


From 2161a12bd8cb14775bd5660e95014188afb2879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:27 +0000
Subject: [PATCH 063/105] fix: genetic algorithm uses removed type numpy.int

---
 pyclustering/cluster/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/cluster/ga.py b/pyclustering/cluster/ga.py
index d27728a..bc5bf5e 100755
--- a/pyclustering/cluster/ga.py
+++ b/pyclustering/cluster/ga.py
@@ -521,7 +521,7 @@ class genetic_algorithm:
         probabilities = ga_math.calc_probability_vector(fitness)
 
         # Select P chromosomes with probabilities
-        new_chromosomes = numpy.zeros(chromosomes.shape, dtype=numpy.int)
+        new_chromosomes = numpy.zeros(chromosomes.shape, dtype=int)
 
         # Selecting
         for _idx in range(len(chromosomes)):
-- 
2.43.0


From 87f441d56f2b2386987c1776620d434fe1d817b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:27 +0000
Subject: [PATCH 064/105] fix: EMA drops probabilities of impossible clusters
 together with their means

---
 pyclustering/cluster/ema.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyclustering/cluster/ema.py b/pyclustering/cluster/ema.py
index 94d0f69..a533cb8 100755
--- a/pyclustering/cluster/ema.py
+++ b/pyclustering/cluster/ema.py
@@ -670,20 +670,22 @@ class ema:
         self.__means = []
         self.__variances = []
         
-        amount_impossible_clusters = 0
+        gaussians, rc = [], []
         
         for index_cluster in range(self.__amount_clusters):
             mc = numpy.sum(self.__rc[index_cluster])
             
             if mc == 0.0:
-                amount_impossible_clusters += 1
-                continue
+                continue    # impossible cluster
             
+            gaussians.append( self.__gaussians[index_cluster] )
+            rc.append( self.__rc[index_cluster] )
             self.__pic.append( mc / len(self.__data) )
             self.__means.append( self.__update_mean(self.__rc[index_cluster], mc) )
             self.__variances.append( self.__update_covariance(self.__means[-1], self.__rc[index_cluster], mc) )
         
-        self.__amount_clusters -= amount_impossible_clusters
+        self.__gaussians, self.__rc = gaussians, rc
+        self.__amount_clusters = len(self.__means)
 
 
     def __get_stop_condition(self):
-- 
2.43.0


From 117c00dbf46bf74519e8c064c431b036d41c272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:03 +0000
Subject: [PATCH 065/105] fix: EMA gives numbers as probabilities when
 one-dimensional cluster has zero variance

---
 pyclustering/cluster/ema.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyclustering/cluster/ema.py b/pyclustering/cluster/ema.py
index a533cb8..37aa792 100755
--- a/pyclustering/cluster/ema.py
+++ b/pyclustering/cluster/ema.py
@@ -40,10 +40,7 @@ def gaussian(data, mean, covariance):
     """
     dimension = float(len(data[0]))
  
-    if dimension != 1.0:
-        inv_variance = numpy.linalg.pinv(covariance)
-    else:
-        inv_variance = 1.0 / covariance
+    inv_variance = numpy.linalg.pinv(numpy.atleast_2d(covariance))
     
     divider = (pi * 2.0) ** (dimension / 2.0) * numpy.sqrt(numpy.linalg.norm(covariance))
     if divider != 0.0:
-- 
2.43.0


From ded0720895a9365b770e0b68c4e56c66ac0c6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:22 +0000
Subject: [PATCH 066/105] fix: EMA uses determinant of covariance for density
 instead of its norm

---
 pyclustering/cluster/ema.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclustering/cluster/ema.py b/pyclustering/cluster/ema.py
index 37aa792..7cc40b3 100755
--- a/pyclustering/cluster/ema.py
+++ b/pyclustering/cluster/ema.py
@@ -42,7 +42,10 @@ def gaussian(data, mean, covariance):
  
     inv_variance = numpy.linalg.pinv(numpy.atleast_2d(covariance))
     
-    divider = (pi * 2.0) ** (dimension / 2.0) * numpy.sqrt(numpy.linalg.norm(covariance))
+    variances = numpy.linalg.eigvalsh(numpy.atleast_2d(covariance))
+    variances = variances[variances > 1e-15 * numpy.max(variances)]     # singular covariance: the same cutoff as for inverse
+    determinant = numpy.prod(variances) if len(variances) > 0 else 0.0
+    divider = (pi * 2.0) ** (dimension / 2.0) * numpy.sqrt(determinant)
     if divider != 0.0:
         right_const = 1.0 / divider
     else:
-- 
2.43.0


From 38200bbfe86ca9f89f661664b899b2e8ec6932e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:30 +0000
Subject: [PATCH 067/105] fix: SOM (C++) trained again on data of another
 dimension writes outside of weights

---
 ccore/src/nnet/som.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/som.cpp b/ccore/src/nnet/som.cpp
index f681b22..fbbda68 100755
--- a/ccore/src/nnet/som.cpp
+++ b/ccore/src/nnet/som.cpp
@@ -193,7 +193,7 @@ void som::create_connections(const som_conn_type type) {
 void som::create_initial_weights(const som_init_type type) {
     size_t dimension = (*m_data)[0].size();
 
-    m_weights.resize(m_size, std::vector<double>(dimension, 0.0));
+    m_weights.assign(m_size, std::vector<double>(dimension, 0.0));
 
     std::vector<double> maximum_value_dimension(dimension, -std::numeric_limits<double>::max());
     std::vector<double> minimum_value_dimension(dimension, std::numeric_limits<double>::max());
-- 
2.43.0


From d15537c19083ab081b5767ff68cfd6c0b170a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:30 +0000
Subject: [PATCH 068/105] fix: SOM (C++) reports one epoch more than it has
 made

---
 ccore/src/nnet/som.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/som.cpp b/ccore/src/nnet/som.cpp
index fbbda68..d91286b 100755
--- a/ccore/src/nnet/som.cpp
+++ b/ccore/src/nnet/som.cpp
@@ -426,7 +426,7 @@ size_t som::train(const dataset & input_data, const size_t num_epochs, bool auto
         }
     }
 
-    return epouch;
+    return m_epouchs;
 }
 
 
-- 
2.43.0


From a9ec4affaeea03db88211faf740fca61bcf78cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 069/105] fix: SOM (C++) ignores the center of data when
 weights are initialized around it

---
 ccore/src/nnet/som.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ccore/src/nnet/som.cpp b/ccore/src/nnet/som.cpp
index d91286b..e3c073b 100755
--- a/ccore/src/nnet/som.cpp
+++ b/ccore/src/nnet/som.cpp
@@ -288,7 +288,21 @@ void som::create_initial_weights(const som_init_type type) {
             break;
         }
 
-        case som_init_type::SOM_RANDOM_CENTROID:
+        case som_init_type::SOM_RANDOM_CENTROID: {
+            /* Random weights around the center of input data. */
+            std::uniform_real_distribution<double> position_distribution(-0.5, 0.5);
+
+            for (size_t i = 0; i < m_size; i++) {
+                std::vector<double> & neuron_weight = m_weights[i];
+
+                for (size_t dim = 0; dim < dimension; dim++) {
+                    neuron_weight[dim] = center_value_dimension[dim] + position_distribution(generator);
+                }
+            }
+
+            break;
+        }
+
         case som_init_type::SOM_RANDOM: {
             /* Random weights of input data. */
             std::uniform_real_distribution<double> position_distribution(-0.5, 0.5);
-- 
2.43.0


From e16e3d63c2c20adfda9c4aa2194d7049ed42dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 070/105] fix: distance matrix of SOM with single neuron is
 calculated by division by zero

---
 pyclustering/nnet/som.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/nnet/som.py b/pyclustering/nnet/som.py
index 029cefa..5f58970 100755
--- a/pyclustering/nnet/som.py
+++ b/pyclustering/nnet/som.py
@@ -744,7 +744,8 @@ class som:
                     distance_matrix[i][j] += euclidean_distance_square(self._weights[neuron_index],
                                                                        self._weights[neighbor_index])
 
-                distance_matrix[i][j] /= len(self._neighbors[neuron_index])
+                if len(self._neighbors[neuron_index]) > 0:
+                    distance_matrix[i][j] /= len(self._neighbors[neuron_index])
 
         return distance_matrix
 
-- 
2.43.0


From e0a4c58e78c4bc1f8ee61d2bf0c1fde0b6b0219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 071/105] fix: SOM writes default radius to parameters of the
 user that may be used for another map

---
 pyclustering/nnet/som.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/nnet/som.py b/pyclustering/nnet/som.py
index 5f58970..05d2642 100755
--- a/pyclustering/nnet/som.py
+++ b/pyclustering/nnet/som.py
@@ -9,6 +9,7 @@
 
 """
 
+import copy
 import math
 import random
 
@@ -255,7 +256,7 @@ class som:
 
         self.__ccore_som_pointer = None
 
-        self._params = parameters or som_parameters()
+        self._params = copy.copy(parameters) if parameters is not None else som_parameters()
 
         if self._params.init_radius is None:
             self._params.init_radius = self.__initialize_initial_radius(rows, cols)
-- 
2.43.0


From c74e9983ce1987eb1cff2025a927815e53cdc346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:12 +0000
Subject: [PATCH 072/105] fix: SOM restored from dump has no data that is
 required for density matrix

---
 pyclustering/nnet/som.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclustering/nnet/som.py b/pyclustering/nnet/som.py
index 05d2642..d6710ba 100755
--- a/pyclustering/nnet/som.py
+++ b/pyclustering/nnet/som.py
@@ -960,7 +960,8 @@ class som:
                           'location': self._location,
                           'weights': self._weights,
                           'award': self._award,
-                          'capture_objects': self._capture_objects}}
+                          'capture_objects': self._capture_objects,
+                          'data': self._data}}
 
     def __download_dump_from_ccore(self):
         self._location = self.__initialize_locations(self._rows, self._cols)
@@ -977,6 +978,7 @@ class som:
         self._local_radius = state_dump['local_radius']
         self._learn_rate = state_dump['learn_rate']
         self._params = state_dump['params']
+        self._data = state_dump.get('data', None)
         self._neighbors = None
 
     def __upload_dump_to_python(self, state_dump):
-- 
2.43.0


From 4767eb24777bab66c3513398cfc8f1550f321701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 073/105] fix: PCNN linking strength is passed to the C++ core

---
 pyclustering/core/pcnn_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclustering/core/pcnn_wrapper.py b/pyclustering/core/pcnn_wrapper.py
index 2b78533..6967081 100755
--- a/pyclustering/core/pcnn_wrapper.py
+++ b/pyclustering/core/pcnn_wrapper.py
@@ -39,6 +39,7 @@ def pcnn_create(size, conn_type, height, width, params):
     c_parameters.AT = params.AT;
     c_parameters.W = params.W;
     c_parameters.M = params.M;
+    c_parameters.B = params.B;
     c_parameters.FAST_LINKING = params.FAST_LINKING;
 
     ccore.pcnn_create.restype = POINTER(c_void_p);
@@ -132,5 +133,5 @@ def pcnn_dynamic_get_time(dynamic_pointer):
 
 def pcnn_dynamic_get_size(dynamic_pointer):
     ccore = ccore_library.get();
-    ccore.pcnn_dynamic_get_time.restype = c_size_t;
+    ccore.pcnn_dynamic_get_size.restype = c_size_t;
     return ccore.pcnn_dynamic_get_size(dynamic_pointer);
-- 
2.43.0


From 76d2fc00791127e1fe709a5c34dfb68c3689ed7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 074/105] fix: LEGION inhibitor threshold is passed to the C++
 core

---
 pyclustering/core/legion_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclustering/core/legion_wrapper.py b/pyclustering/core/legion_wrapper.py
index 8f540dd..8e3a1bc 100755
--- a/pyclustering/core/legion_wrapper.py
+++ b/pyclustering/core/legion_wrapper.py
@@ -48,6 +48,7 @@ def legion_create(size, conn_type, params):
     c_params.teta_x = params.teta_x;
     c_params.teta_p = params.teta_p;
     c_params.teta_xz = params.teta_xz;
+    c_params.teta_zx = params.teta_zx;
     c_params.T = params.T;
     c_params.mu = params.mu;
     c_params.Wz = params.Wz;
-- 
2.43.0


From 72ca9ca49a35f2046ff7fec5786d82c74960cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 075/105] fix: C++ LEGION without potential reads the
 oscillator index as an address

---
 ccore/src/nnet/legion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/legion.cpp b/ccore/src/nnet/legion.cpp
index a55417a..e1c5fb7 100755
--- a/ccore/src/nnet/legion.cpp
+++ b/ccore/src/nnet/legion.cpp
@@ -254,7 +254,7 @@ void legion_network::neuron_states(const double t, const differ_state<double> &
 
 
 void legion_network::neuron_simplify_states(const double t, const differ_state<double> & inputs, const differ_extra<void *> & argv, differ_state<double> & outputs) {
-    std::size_t index = *(std::size_t *) argv[0];
+    std::size_t index = (std::size_t) argv[0];
 
     const double x = inputs[0];
     const double y = inputs[1];
-- 
2.43.0


From 4a17a182a8a55f324a6a3b5b0f73a74607e701a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 076/105] fix: PCNN synchronous ensembles miss the first state
 of the dynamic

---
 pyclustering/nnet/pcnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/pcnn.py b/pyclustering/nnet/pcnn.py
index 2a47859..f576637 100755
--- a/pyclustering/nnet/pcnn.py
+++ b/pyclustering/nnet/pcnn.py
@@ -156,7 +156,7 @@ class pcnn_dynamic:
         
         number_oscillators = len(self.__dynamic[0])
         
-        for t in range(len(self.__dynamic) - 1, 0, -1):
+        for t in range(len(self.__dynamic) - 1, -1, -1):
             sync_ensemble = []
             for i in range(number_oscillators):
                 if self.__dynamic[t][i] == self.__OUTPUT_TRUE:
-- 
2.43.0


From 1b617d9fd4acf9a3a10a09a32077a1ed83fc2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 077/105] fix: CNN with triangulation counts edges shared by
 triangles twice

---
 pyclustering/nnet/cnn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyclustering/nnet/cnn.py b/pyclustering/nnet/cnn.py
index 11aac9f..b7a8368 100755
--- a/pyclustering/nnet/cnn.py
+++ b/pyclustering/nnet/cnn.py
@@ -414,9 +414,8 @@ class cnn_network:
                     
                     self.__weights[index_point1][index_point2] = weight
                     self.__weights[index_point2][index_point1] = weight
-                    
-                    self.__weights_summary[index_point1] += weight
-                    self.__weights_summary[index_point2] += weight
+        
+        self.__weights_summary = [ sum(weights) for weights in self.__weights ]
     
     
     def __calculate_weight(self, stimulus1, stimulus2):
-- 
2.43.0


From 44b33b941f6c2319864763db70fd7acb3fb8da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:06 +0000
Subject: [PATCH 078/105] fix: LEGION dynamic without collection is not a
 dynamic of one state

---
 pyclustering/nnet/legion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index e123bcb..160776c 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -388,9 +388,9 @@ class legion_network(network):
                 dyn_time.append(t)
                 dyn_ginh.append(self._global_inhibitor)
             else:
-                dyn_exc = self._excitatory
-                dyn_time = t
-                dyn_ginh = self._global_inhibitor
+                dyn_exc = [ self._excitatory ]
+                dyn_time = [ t ]
+                dyn_ginh = [ self._global_inhibitor ]
         
         return legion_dynamic(dyn_exc, dyn_ginh, dyn_time);
     
-- 
2.43.0


From f7b3055d58334ec5ace759ac9753440e8202038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:37 +0000
Subject: [PATCH 079/105] fix: PCNN fast linking never ends when outputs
 alternate

---
 ccore/src/nnet/pcnn.cpp   | 5 ++++-
 pyclustering/nnet/pcnn.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ccore/src/nnet/pcnn.cpp b/ccore/src/nnet/pcnn.cpp
index d17ec68..da8daf4 100755
--- a/ccore/src/nnet/pcnn.cpp
+++ b/ccore/src/nnet/pcnn.cpp
@@ -9,6 +9,7 @@
 
 #include <pyclustering/nnet/pcnn.hpp>
 
+#include <set>
 #include <stdexcept>
 #include <unordered_set>
 
@@ -113,6 +114,7 @@ void pcnn::calculate_states(const pcnn_stimulus & stimulus) {
 
 void pcnn::fast_linking(const std::vector<double> & feeding, std::vector<double> & linking, std::vector<double> & output) {
   std::vector<double> previous_outputs(output.cbegin(), output.cend());
+  std::set<std::vector<double>> observed_outputs = { output };
 
   bool previous_output_change = true;
   bool current_output_change = false;
@@ -151,7 +153,8 @@ void pcnn::fast_linking(const std::vector<double> & feeding, std::vector<double>
           std::copy(output.begin(), output.end(), previous_outputs.begin());
       }
 
-      previous_output_change = current_output_change;
+      /* outputs may alternate forever, therefore stop as soon as they start to repeat */
+      previous_output_change = current_output_change && observed_outputs.insert(output).second;
       current_output_change = false;
   }
 }
diff --git a/pyclustering/nnet/pcnn.py b/pyclustering/nnet/pcnn.py
index f576637..40b4545 100755
--- a/pyclustering/nnet/pcnn.py
+++ b/pyclustering/nnet/pcnn.py
@@ -479,6 +479,7 @@ class pcnn_network(network):
         if self._params.FAST_LINKING is True:
             output_change = True    # Set it True for the for the first iteration.
             previous_outputs = outputs[:]
+            observed_outputs = { tuple(outputs) }
 
             while output_change is True:
                 current_output_change = False
@@ -503,7 +504,9 @@ class pcnn_network(network):
 
                     current_output_change |= (outputs[index] != previous_outputs[index])
                 
-                output_change = current_output_change
+                # outputs may alternate forever, therefore stop as soon as they start to repeat.
+                output_change = current_output_change and (tuple(outputs) not in observed_outputs)
+                observed_outputs.add(tuple(outputs))
                 
                 if output_change is True:
                     previous_outputs = outputs[:]
-- 
2.43.0


From e185610657a6247f3eb32a416386bc07d35ec93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:16 +0000
Subject: [PATCH 080/105] fix: LEGION dynamic reports indexes of states instead
 of simulation time

---
 pyclustering/nnet/legion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index 160776c..db23f1a 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -134,7 +134,7 @@ class legion_dynamic:
         if (self.__ccore_legion_dynamic_pointer is not None):
             return wrapper.legion_dynamic_get_time(self.__ccore_legion_dynamic_pointer);
         
-        return list(range(len(self)));
+        return self._time;
     
     
     def __init__(self, output, inhibitor, time, ccore = None):
-- 
2.43.0


From f0831f6445de93412c72e4494751fb99cb508adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 081/105] fix: oscillators with mirrored phases are allocated
 to the same synchronous ensemble

---
 ccore/src/nnet/sync.cpp   | 9 ++-------
 pyclustering/nnet/sync.py | 5 ++---
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/ccore/src/nnet/sync.cpp b/ccore/src/nnet/sync.cpp
index e437854..aef82e9 100755
--- a/ccore/src/nnet/sync.cpp
+++ b/ccore/src/nnet/sync.cpp
@@ -381,14 +381,9 @@ void sync_dynamic::allocate_sync_ensembles(const double tolerance, const size_t
 
         for (auto & cluster : ensembles) {
             for (auto & index : cluster) {
-                double phase_first = (*last_state_dynamic).m_phase[i];
-                double phase_second = (*last_state_dynamic).m_phase[index];
-
-                double phase_shifted = std::abs((*last_state_dynamic).m_phase[i] - 2 * pi);
-
-                if (((phase_first < (phase_second + tolerance)) && (phase_first >(phase_second - tolerance))) ||
-                    ((phase_shifted < (phase_second + tolerance)) && (phase_shifted >(phase_second - tolerance)))) {
+                const double difference = std::abs((*last_state_dynamic).m_phase[i] - (*last_state_dynamic).m_phase[index]);
 
+                if (std::min(difference, 2.0 * pi - difference) < tolerance) {
                     cluster_allocated = true;
                     cluster.push_back(i);
 
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index c9459d3..122ac16 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -213,10 +213,9 @@ class sync_dynamic:
             cluster_allocated = False
             for cluster in clusters:
                 for neuron_index in cluster:
-                    last_state_shifted = abs(last_state[i] - 2 * pi)
+                    difference = abs(last_state[i] - last_state[neuron_index])
 
-                    if ( ( (last_state[i] < (last_state[neuron_index] + tolerance)) and (last_state[i] > (last_state[neuron_index] - tolerance)) ) or
-                         ( (last_state_shifted < (last_state[neuron_index] + tolerance)) and (last_state_shifted > (last_state[neuron_index] - tolerance)) ) ):
+                    if min(difference, 2 * pi - difference) < tolerance:
                         cluster_allocated = True
 
                         real_index = i
-- 
2.43.0


From e95cc3241fa609ff76f95b7bb30f727477d5c4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 082/105] fix: sync ensembles mix real indexes with indexes of
 oscillators

---
 pyclustering/nnet/sync.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index 122ac16..ef74bb2 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -217,12 +217,7 @@ class sync_dynamic:
 
                     if min(difference, 2 * pi - difference) < tolerance:
                         cluster_allocated = True
-
-                        real_index = i
-                        if indexes is not None:
-                            real_index = indexes[i]
-
-                        cluster.append(real_index)
+                        cluster.append(i)
                         break
 
                 if cluster_allocated is True:
@@ -231,6 +226,9 @@ class sync_dynamic:
             if cluster_allocated is False:
                 clusters.append([i])
 
+        if indexes is not None:
+            clusters = [[indexes[index] for index in cluster] for cluster in clusters]
+
         return clusters
 
 
-- 
2.43.0


From faa25cfa6b41fae0e41ddbe77e34a33494bb28a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 083/105] fix: sync order parameter does not measure
 synchronization

---
 ccore/src/nnet/sync.cpp   | 13 +++----------
 pyclustering/nnet/sync.py | 13 +++++--------
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/ccore/src/nnet/sync.cpp b/ccore/src/nnet/sync.cpp
index aef82e9..1010193 100755
--- a/ccore/src/nnet/sync.cpp
+++ b/ccore/src/nnet/sync.cpp
@@ -62,20 +62,13 @@ double sync_ordering::calculate_sync_order(const std::vector<sync_oscillator> &
 
 template <class TypeContainer>
 double sync_ordering::calculate_sync_order_parameter(const TypeContainer & p_container, const phase_getter & p_getter) {
-    double exp_amount = 0.0;
-    double average_phase = 0.0;
+    std::complex<double> amount(0.0, 0.0);
 
     for (std::size_t index = 0; index < p_container.size(); index++) {
-        const double phase = p_getter(index);
-
-        exp_amount += std::exp( std::abs( std::complex<double>(0, 1) * phase ) );
-        average_phase += phase;
+        amount += std::exp( std::complex<double>(0, 1) * (p_getter(index) - p_getter(0)) );
     }
 
-    exp_amount /= p_container.size();
-    average_phase = std::exp( std::abs( std::complex<double>(0, 1) * (average_phase / p_container.size()) ) );
-
-    return std::abs(average_phase) / std::abs(exp_amount);
+    return std::abs(amount) / p_container.size();
 }
 
 
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index ef74bb2..db3119a 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -47,17 +47,14 @@ class order_estimator:
         
         """
 
-        exp_amount = 0.0
-        average_phase = 0.0
+        cos_amount = 0.0
+        sin_amount = 0.0
 
         for phase in oscillator_phases:
-            exp_amount += math.expm1(abs(1j * phase))
-            average_phase += phase
-
-        exp_amount /= len(oscillator_phases)
-        average_phase = math.expm1(abs(1j * (average_phase / len(oscillator_phases))))
+            cos_amount += math.cos(phase - oscillator_phases[0])
+            sin_amount += math.sin(phase - oscillator_phases[0])
 
-        return abs(average_phase) / abs(exp_amount)
+        return math.hypot(cos_amount, sin_amount) / len(oscillator_phases)
 
 
     @staticmethod
-- 
2.43.0


From c7d183cf27be790cb1d40eb042adbcc057e4ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 084/105] fix: local sync order treats phases around zero as
 distant

---
 ccore/src/nnet/sync.cpp   | 3 ++-
 pyclustering/nnet/sync.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ccore/src/nnet/sync.cpp b/ccore/src/nnet/sync.cpp
index 1010193..ec64d5a 100755
--- a/ccore/src/nnet/sync.cpp
+++ b/ccore/src/nnet/sync.cpp
@@ -97,7 +97,8 @@ double sync_ordering::calculate_local_sync_order_parameter(const std::shared_ptr
 
         for (auto & index_neighbor : neighbors) {
             double phase_neighbor = p_getter(index_neighbor);
-            exp_amount += std::exp( -std::abs( phase_neighbor - phase ) );
+            const double difference = std::abs( phase_neighbor - phase );
+            exp_amount += std::exp( -std::min( difference, 2.0 * pi - difference ) );
         }
 
         number_neighbors += static_cast<double>(neighbors.size());
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index db3119a..3167337 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -77,7 +77,8 @@ class order_estimator:
         for i in range(0, len(oscillatory_network), 1):
             for j in range(0, len(oscillatory_network), 1):
                 if oscillatory_network.has_connection(i, j) is True:
-                    exp_amount += math.exp(-abs(oscillator_phases[j] - oscillator_phases[i]))
+                    difference = abs(oscillator_phases[j] - oscillator_phases[i])
+                    exp_amount += math.exp(-min(difference, 2.0 * pi - difference))
                     num_neigh += 1.0
 
         if num_neigh == 0:
-- 
2.43.0


From c9914852a2b1e2ee2621bbcd01dda55898d9121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 085/105] fix: C++ syncnet ignores type of initial phases

---
 ccore/src/cluster/syncnet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/cluster/syncnet.cpp b/ccore/src/cluster/syncnet.cpp
index 07a138a..402d2cb 100755
--- a/ccore/src/cluster/syncnet.cpp
+++ b/ccore/src/cluster/syncnet.cpp
@@ -31,7 +31,7 @@ void syncnet_analyser::allocate_clusters(const double eps, syncnet_cluster_data
 
 
 syncnet::syncnet(std::vector<std::vector<double> > * input_data, const double connectivity_radius, const bool enable_conn_weight, const initial_type initial_phases) :
-sync_network(input_data->size(), 1, 0, connection_t::CONNECTION_NONE, initial_type::RANDOM_GAUSSIAN)
+sync_network(input_data->size(), 1, 0, connection_t::CONNECTION_NONE, initial_phases)
 {
     equation<double> oscillator_equation = std::bind(&syncnet::phase_kuramoto_equation, this, _1, _2, _3, _4);
     set_equation(oscillator_equation);
-- 
2.43.0


From 66ca39474e4fb8be82e3f1a01b79c0a7f02b29ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 086/105] fix: C++ syncnet never finds the minimum distance for
 connection weights

---
 ccore/src/cluster/syncnet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccore/src/cluster/syncnet.cpp b/ccore/src/cluster/syncnet.cpp
index 402d2cb..7f4ab72 100755
--- a/ccore/src/cluster/syncnet.cpp
+++ b/ccore/src/cluster/syncnet.cpp
@@ -85,8 +85,8 @@ void syncnet::create_connections(const double connectivity_radius, const bool en
                     maximum_distance = distance;
                 }
 
-                if (distance < maximum_distance) {
-                    maximum_distance = distance;
+                if (distance < minimum_distance) {
+                    minimum_distance = distance;
                 }
             }
         }
-- 
2.43.0


From bd9ebc7400a224f9a6acfb8fc334cdb6323c5d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 087/105] fix: C++ syncpr solvers ignore phase of the
 integrated oscillator

---
 ccore/src/nnet/syncpr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/syncpr.cpp b/ccore/src/nnet/syncpr.cpp
index 1536546..8ac176e 100755
--- a/ccore/src/nnet/syncpr.cpp
+++ b/ccore/src/nnet/syncpr.cpp
@@ -184,7 +184,7 @@ double syncpr::phase_kuramoto(const double t, const double teta, const std::vect
 
     for (std::size_t neighbor_index = 0; neighbor_index < size(); neighbor_index++) {
         if (oscillator_index != neighbor_index) {
-            double phase_delta = m_oscillators[neighbor_index].phase - m_oscillators[oscillator_index].phase;
+            double phase_delta = m_oscillators[neighbor_index].phase - teta;
 
             phase += m_coupling[oscillator_index][neighbor_index] * std::sin(phase_delta);
 
-- 
2.43.0


From 999cdf7be60a3e961296266e51c9bd2628cb4be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 088/105] fix: C++ syncpr simulates an extra step because of
 rounding

---
 ccore/src/nnet/syncpr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccore/src/nnet/syncpr.cpp b/ccore/src/nnet/syncpr.cpp
index 8ac176e..74e089b 100755
--- a/ccore/src/nnet/syncpr.cpp
+++ b/ccore/src/nnet/syncpr.cpp
@@ -103,7 +103,8 @@ void syncpr::simulate_static(const unsigned int steps,
     const double int_step = step / 10.0;
 
     store_dynamic(0.0, collect_dynamic, output_dynamic);    /* store initial state */
-    for (double cur_time = step; cur_time < (time + step); cur_time += step) {
+    double cur_time = step;
+    for (unsigned int cur_step = 0; cur_step < steps; cur_step++, cur_time += step) {
         calculate_phases(solver, cur_time, step, int_step);
 
         store_dynamic(cur_time, collect_dynamic, output_dynamic);   /* store initial state */
-- 
2.43.0


From 09555897fbc846ad0cd613427b61bb8d3897d0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 089/105] fix: fsync uses removed numpy.complex

---
 pyclustering/nnet/fsync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index 6610737..a80120b 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -335,7 +335,7 @@ class fsync_network(network):
         
         """
         
-        z = amplitude.view(numpy.complex);
+        z = amplitude.view(numpy.complex128);
         dzdt = self.__landau_stuart(z, argv) + self.__synchronization_mechanism(z, argv);
         
         return dzdt.view(numpy.float64);
\ No newline at end of file
-- 
2.43.0


From bec93fbb52215f833fa674b6e720ae7cbaf21999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 090/105] fix: C++ hsyncnet ignores increase percent

---
 ccore/src/cluster/hsyncnet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/cluster/hsyncnet.cpp b/ccore/src/cluster/hsyncnet.cpp
index bd00919..609e706 100755
--- a/ccore/src/cluster/hsyncnet.cpp
+++ b/ccore/src/cluster/hsyncnet.cpp
@@ -59,7 +59,7 @@ void hsyncnet::process(const double order, const solve_type solver, const bool c
 
     double radius = average_neighbor_distance(oscillator_locations, number_neighbors);
     
-    std::size_t increase_step = static_cast<std::size_t>(round(oscillator_locations->size() * static_cast<std::size_t>(m_increase_persent)));
+    std::size_t increase_step = static_cast<std::size_t>(round(oscillator_locations->size() * m_increase_persent));
     if (increase_step < 1) {
         increase_step = DEFAULT_INCREASE_STEP;
     }
-- 
2.43.0


From 8e79642d47350ef34602b3486074974762a2f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:50 +0000
Subject: [PATCH 091/105] fix: C++ hsyncnet loses all objects when there are no
 more of them than clusters

---
 ccore/src/cluster/hsyncnet.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ccore/src/cluster/hsyncnet.cpp b/ccore/src/cluster/hsyncnet.cpp
index 609e706..c77886c 100755
--- a/ccore/src/cluster/hsyncnet.cpp
+++ b/ccore/src/cluster/hsyncnet.cpp
@@ -53,10 +53,6 @@ void hsyncnet::process(const double order, const solve_type solver, const bool c
     std::size_t number_neighbors = m_initial_neighbors;
     std::size_t current_number_clusters = m_oscillators.size();
 
-    if (current_number_clusters <= m_number_clusters) {
-        return;   /* Nothing to process, amount of objects is less than required amount of clusters. */
-    }
-
     double radius = average_neighbor_distance(oscillator_locations, number_neighbors);
     
     std::size_t increase_step = static_cast<std::size_t>(round(oscillator_locations->size() * m_increase_persent));
-- 
2.43.0


From 8a7b7b68e449df98830f0bbf72b62e53c5293e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:50 +0000
Subject: [PATCH 092/105] fix: C++ sync includes what std::min needs

---
 ccore/src/nnet/sync.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ccore/src/nnet/sync.cpp b/ccore/src/nnet/sync.cpp
index ec64d5a..723ddb8 100755
--- a/ccore/src/nnet/sync.cpp
+++ b/ccore/src/nnet/sync.cpp
@@ -8,6 +8,7 @@
 
 #include <pyclustering/nnet/sync.hpp>
 
+#include <algorithm>
 #include <cmath>
 #include <random>
 #include <complex>
-- 
2.43.0


From 6b81200dae5608f92fe45c78e2bc3d50725ab2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:36 +0000
Subject: [PATCH 093/105] Revert "fix: C++ syncnet ignores type of initial
 phases"

This reverts commit c9914852a2b1e2ee2621bbcd01dda55898d9121c.
---
 ccore/src/cluster/syncnet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/cluster/syncnet.cpp b/ccore/src/cluster/syncnet.cpp
index 7f4ab72..0cd7d4c 100755
--- a/ccore/src/cluster/syncnet.cpp
+++ b/ccore/src/cluster/syncnet.cpp
@@ -31,7 +31,7 @@ void syncnet_analyser::allocate_clusters(const double eps, syncnet_cluster_data
 
 
 syncnet::syncnet(std::vector<std::vector<double> > * input_data, const double connectivity_radius, const bool enable_conn_weight, const initial_type initial_phases) :
-sync_network(input_data->size(), 1, 0, connection_t::CONNECTION_NONE, initial_phases)
+sync_network(input_data->size(), 1, 0, connection_t::CONNECTION_NONE, initial_type::RANDOM_GAUSSIAN)
 {
     equation<double> oscillator_equation = std::bind(&syncnet::phase_kuramoto_equation, this, _1, _2, _3, _4);
     set_equation(oscillator_equation);
-- 
2.43.0


From bf9a9710bc356fb3f4c0c7e6516309e62b923014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:07 +0000
Subject: [PATCH 094/105] fix: Runge-Kutta-Fehlberg gives up when the error
 estimate is zero

---
 .../pyclustering/differential/runge_kutta_fehlberg_45.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/include/pyclustering/differential/runge_kutta_fehlberg_45.hpp b/ccore/include/pyclustering/differential/runge_kutta_fehlberg_45.hpp
index 65659cc..4d2524b 100755
--- a/ccore/include/pyclustering/differential/runge_kutta_fehlberg_45.hpp
+++ b/ccore/include/pyclustering/differential/runge_kutta_fehlberg_45.hpp
@@ -121,7 +121,7 @@ void runge_kutta_fehlberg_45(
             iteration_counter++;
         }
 
-        double s = 0.0;
+        double s = 2.0;
         if (err != 0.0) {
             s = 0.84 * std::pow( (tolerance * h / err), 0.25 );
         }
-- 
2.43.0


From 75f1efdc3d0c257adc7d32f6bd3e42b08979b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:41 +0000
Subject: [PATCH 095/105] fix: Python networks integrate only nine tenths of
 some of the steps

---
 pyclustering/nnet/fsync.py      | 2 +-
 pyclustering/nnet/hhn.py        | 4 ++--
 pyclustering/nnet/hysteresis.py | 2 +-
 pyclustering/nnet/legion.py     | 6 +++---
 pyclustering/nnet/sync.py       | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index a80120b..6930bcf 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -268,7 +268,7 @@ class fsync_network(network):
         
         for index in range (0, self._num_osc, 1):
             z = numpy.array(self.__amplitude[index], dtype = numpy.complex128, ndmin = 1);
-            result = odeint(self.__calculate_amplitude, z.view(numpy.float64), numpy.arange(t - step, t, int_step), (index , ));
+            result = odeint(self.__calculate_amplitude, z.view(numpy.float64), numpy.arange(t - step, t + 0.5 * int_step, int_step), (index , ));
             next_amplitudes[index] = (result[len(result) - 1]).view(numpy.complex128);
         
         return next_amplitudes;
diff --git a/pyclustering/nnet/hhn.py b/pyclustering/nnet/hhn.py
index 1c34fcf..8fdee3f 100755
--- a/pyclustering/nnet/hhn.py
+++ b/pyclustering/nnet/hhn.py
@@ -346,7 +346,7 @@ class hhn_network(network):
         for index in range(0, self._num_osc, 1):
             result = odeint(self.hnn_state, 
                             [self._membrane_potential[index], self._active_cond_sodium[index], self._inactive_cond_sodium[index], self._active_cond_potassium[index]],
-                            numpy.arange(t - step, t, int_step), 
+                            numpy.arange(t - step, t + 0.5 * int_step, int_step), 
                             (index, ))
                             
             [ next_membrane[index], next_active_sodium[index], next_inactive_sodium[index], next_active_potassium[index] ] = result[len(result) - 1][0:4]
@@ -360,7 +360,7 @@ class hhn_network(network):
         for index in range(0, len(self._central_element)):
             result = odeint(self.hnn_state, 
                             [self._central_element[index].membrane_potential, self._central_element[index].active_cond_sodium, self._central_element[index].inactive_cond_sodium, self._central_element[index].active_cond_potassium],
-                            numpy.arange(t - step, t, int_step), 
+                            numpy.arange(t - step, t + 0.5 * int_step, int_step), 
                             (self._num_osc + index, ))
                             
             [ next_cn_membrane[index], next_cn_active_sodium[index], next_cn_inactive_sodium[index], next_cn_active_potassium[index] ] = result[len(result) - 1][0:4]
diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index 5320810..8e4529a 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -346,7 +346,7 @@ class hysteresis_network(network):
         next_states = [0] * self._num_osc;
         
         for index in range (0, self._num_osc, 1):            
-            result = odeint(self._neuron_states, self._states[index], numpy.arange(t - step, t, int_step), (index , ));
+            result = odeint(self._neuron_states, self._states[index], numpy.arange(t - step, t + 0.5 * int_step, int_step), (index , ));
             next_states[index] = result[len(result) - 1][0];
         
         self._outputs = [val for val in self._outputs_buffer];
diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index db23f1a..4439292 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -416,11 +416,11 @@ class legion_network(network):
         # Update states of oscillators
         for index in range (0, self._num_osc, 1):
             if (self._params.ENABLE_POTENTIONAL is True):
-                result = odeint(self._legion_state, [self._excitatory[index], self._inhibitory[index], self._potential[index]], numpy.arange(t - step, t, int_step), (index , ));
+                result = odeint(self._legion_state, [self._excitatory[index], self._inhibitory[index], self._potential[index]], numpy.arange(t - step, t + 0.5 * int_step, int_step), (index , ));
                 [ next_excitatory[index], next_inhibitory[index], next_potential[index] ] = result[len(result) - 1][0:3];
                 
             else:
-                result = odeint(self._legion_state_simplify, [self._excitatory[index], self._inhibitory[index] ], numpy.arange(t - step, t, int_step), (index , ));
+                result = odeint(self._legion_state_simplify, [self._excitatory[index], self._inhibitory[index] ], numpy.arange(t - step, t + 0.5 * int_step, int_step), (index , ));
                 [ next_excitatory[index], next_inhibitory[index] ] = result[len(result) - 1][0:2];
             
             # Update coupling term
@@ -433,7 +433,7 @@ class legion_network(network):
             self._buffer_coupling_term[index] = coupling - self._params.Wz * heaviside(self._global_inhibitor - self._params.teta_xz);
         
         # Update state of global inhibitory
-        result = odeint(self._global_inhibitor_state, self._global_inhibitor, numpy.arange(t - step, t, int_step), (None, ));
+        result = odeint(self._global_inhibitor_state, self._global_inhibitor, numpy.arange(t - step, t + 0.5 * int_step, int_step), (None, ));
         self._global_inhibitor = result[len(result) - 1][0];
         
         self._noise = [random.random() * self._params.ro for i in range(self._num_osc)];
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index 3167337..bd6b437 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -989,7 +989,7 @@ class sync_network(network):
                 next_phases[index] = self._phase_normalization(result);
 
             elif ( (solution == solve_type.RK4) or (solution == solve_type.RKF45) ):
-                result = odeint(self._phase_kuramoto, self._phases[index], numpy.arange(t - step, t, int_step), (index , ));
+                result = odeint(self._phase_kuramoto, self._phases[index], numpy.arange(t - step, t + 0.5 * int_step, int_step), (index , ));
                 next_phases[index] = self._phase_normalization(result[len(result) - 1][0]);
 
             else:
-- 
2.43.0


From 0943113fbb78c3fe34c7188d1ccf6006b19234ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:49 +0000
Subject: [PATCH 096/105] fix: agglomerative clustering with centroid link
 cannot be processed again

---
 pyclustering/cluster/agglomerative.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyclustering/cluster/agglomerative.py b/pyclustering/cluster/agglomerative.py
index 0e8e93a..025b55d 100755
--- a/pyclustering/cluster/agglomerative.py
+++ b/pyclustering/cluster/agglomerative.py
@@ -125,9 +125,6 @@ class agglomerative:
         if self.__ccore:
             self.__ccore = ccore_library.workable()
 
-        if self.__similarity == type_link.CENTROID_LINK:
-            self.__centers = list(self.__pointer_data)    # used in case of usage of centroid links
-
     
     def process(self):
         """!
@@ -144,6 +141,10 @@ class agglomerative:
 
         else:
             self.__clusters = [[index] for index in range(0, len(self.__pointer_data))]
+
+            if self.__similarity == type_link.CENTROID_LINK:
+                self.__centers = list(self.__pointer_data)    # used in case of usage of centroid links
+
             
             current_number_clusters = len(self.__clusters)
                 
-- 
2.43.0


From 8c4a04db64546b9e2f664932d4776574a11f873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:49 +0000
Subject: [PATCH 097/105] fix: BSAS and MBSAS add objects to the clusters of
 the run before

---
 pyclustering/cluster/bsas.py  | 4 ++--
 pyclustering/cluster/mbsas.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyclustering/cluster/bsas.py b/pyclustering/cluster/bsas.py
index 22e02a0..c1e2b6a 100755
--- a/pyclustering/cluster/bsas.py
+++ b/pyclustering/cluster/bsas.py
@@ -161,8 +161,8 @@ class bsas:
 
 
     def __prcess_by_python(self):
-        self._clusters.append([0])
-        self._representatives.append(self._data[0])
+        self._clusters = [[0]]
+        self._representatives = [self._data[0]]
 
         for i in range(1, len(self._data)):
             point = self._data[i]
diff --git a/pyclustering/cluster/mbsas.py b/pyclustering/cluster/mbsas.py
index d50d9e2..1030794 100755
--- a/pyclustering/cluster/mbsas.py
+++ b/pyclustering/cluster/mbsas.py
@@ -95,8 +95,8 @@ class mbsas(bsas):
 
 
     def __prcess_by_python(self):
-        self._clusters.append([0])
-        self._representatives.append(self._data[0])
+        self._clusters = [[0]]
+        self._representatives = [self._data[0]]
 
         skipped_objects = []
 
-- 
2.43.0


From d54603e312b92936aa6f3b3c85f60d99f1e0b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:49 +0000
Subject: [PATCH 098/105] fix: CLIQUE adds clusters, noise and cells to those
 of the run before

---
 pyclustering/cluster/clique.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyclustering/cluster/clique.py b/pyclustering/cluster/clique.py
index 5a1acb9..81acd6e 100755
--- a/pyclustering/cluster/clique.py
+++ b/pyclustering/cluster/clique.py
@@ -511,6 +511,8 @@ class clique:
 
         """
 
+        self.__clusters, self.__noise, self.__cells = [], [], []
+
         if self.__ccore:
             self.__process_by_ccore()
         else:
-- 
2.43.0


From fcadbe1681f9f1bff8bd1b007883bd8323904f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:49 +0000
Subject: [PATCH 099/105] fix: DBSCAN adds clusters and noise to those of the
 run before

---
 pyclustering/cluster/dbscan.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclustering/cluster/dbscan.py b/pyclustering/cluster/dbscan.py
index af86524..84ba3d4 100755
--- a/pyclustering/cluster/dbscan.py
+++ b/pyclustering/cluster/dbscan.py
@@ -137,6 +137,7 @@ class dbscan:
 
             self.__visited = [False] * len(self.__pointer_data)
             self.__belong = [False] * len(self.__pointer_data)
+            self.__clusters, self.__noise = [], []
 
             self.__neighbor_searcher = self.__create_neighbor_searcher(self.__data_type)
 
-- 
2.43.0


From e7e3872f1997d30057494b67f95d8bbe177cd263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:18 +0000
Subject: [PATCH 100/105] fix: Python networks sometimes simulate one step more
 than asked for

---
 pyclustering/nnet/fsync.py      | 2 +-
 pyclustering/nnet/hhn.py        | 2 +-
 pyclustering/nnet/hysteresis.py | 2 +-
 pyclustering/nnet/legion.py     | 2 +-
 pyclustering/nnet/sync.py       | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index 6930bcf..4752aee 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -237,7 +237,7 @@ class fsync_network(network):
         step = time / steps;
         int_step = step / 10.0;
         
-        for t in numpy.arange(step, time + step, step):
+        for t in numpy.arange(step, time + 0.5 * step, step):
             self.__amplitude = self.__calculate(t, step, int_step);
             
             if collect_dynamic is True:
diff --git a/pyclustering/nnet/hhn.py b/pyclustering/nnet/hhn.py
index 8fdee3f..d02f79e 100755
--- a/pyclustering/nnet/hhn.py
+++ b/pyclustering/nnet/hhn.py
@@ -311,7 +311,7 @@ class hhn_network(network):
         step = time / steps
         int_step = step / 10.0
         
-        for t in numpy.arange(step, time + step, step):
+        for t in numpy.arange(step, time + 0.5 * step, step):
             # update states of oscillators
             (memb_peripheral, memb_central) = self._calculate_states(solution, t, step, int_step)
             
diff --git a/pyclustering/nnet/hysteresis.py b/pyclustering/nnet/hysteresis.py
index 8e4529a..d505320 100755
--- a/pyclustering/nnet/hysteresis.py
+++ b/pyclustering/nnet/hysteresis.py
@@ -314,7 +314,7 @@ class hysteresis_network(network):
         step = time / steps;
         int_step = step / 10.0;
         
-        for t in numpy.arange(step, time + step, step):
+        for t in numpy.arange(step, time + 0.5 * step, step):
             # update states of oscillators
             self._states = self._calculate_states(solution, t, step, int_step);
             
diff --git a/pyclustering/nnet/legion.py b/pyclustering/nnet/legion.py
index 4439292..162cd47 100755
--- a/pyclustering/nnet/legion.py
+++ b/pyclustering/nnet/legion.py
@@ -378,7 +378,7 @@ class legion_network(network):
         step = time / steps
         int_step = step / 10.0
         
-        for t in numpy.arange(step, time + step, step):
+        for t in numpy.arange(step, time + 0.5 * step, step):
             # update states of oscillators
             self._calculate_states(solution, t, step, int_step)
             
diff --git a/pyclustering/nnet/sync.py b/pyclustering/nnet/sync.py
index bd6b437..24bdfda 100755
--- a/pyclustering/nnet/sync.py
+++ b/pyclustering/nnet/sync.py
@@ -951,7 +951,7 @@ class sync_network(network):
         step = time / steps;
         int_step = step / 10.0;
 
-        for t in numpy.arange(step, time + step, step):
+        for t in numpy.arange(step, time + 0.5 * step, step):
             # update states of oscillators
             self._phases = self._calculate_phases(solution, t, step, int_step);
 
-- 
2.43.0


From 4d2b007722f6d7440cee05de7855971d999669f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:57 +0000
Subject: [PATCH 101/105] fix: a damaged C++ core stops every algorithm instead
 of falling back on Python

---
 pyclustering/core/wrapper.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyclustering/core/wrapper.py b/pyclustering/core/wrapper.py
index f1c1f21..5bb2840 100755
--- a/pyclustering/core/wrapper.py
+++ b/pyclustering/core/wrapper.py
@@ -61,7 +61,15 @@ class ccore_library:
             
             return None
 
-        ccore_library.__library = cdll.LoadLibrary(PATH_PYCLUSTERING_CCORE_LIBRARY)
+        try:
+            ccore_library.__library = cdll.LoadLibrary(PATH_PYCLUSTERING_CCORE_LIBRARY)
+        except OSError as error:
+            warnings.warn("Impossible to load C/C++ pyclustering library ('" + str(error) + "').\n" +
+                          "Falling back on python implementation.\n" +
+                          "For more information, contact 'pyclustering@yandex.ru'.", ResourceWarning)
+
+            return None
+
         if ccore_library.__check_library_integrity() is False:
             warnings.warn("Impossible to mark C/C++ pyclustering library as a workable due to compatibility issues " +
                           "('" + sys.platform + "', '" + platform.architecture()[0] + "').\n" +
-- 
2.43.0


From c022f641c7ea2662a3786cf9e89b936d990ab39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:57 +0000
Subject: [PATCH 102/105] fix: times of Hodgkin-Huxley dynamics of the C++ core
 run one step ahead

---
 ccore/src/nnet/hhn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccore/src/nnet/hhn.cpp b/ccore/src/nnet/hhn.cpp
index ad88e04..486f18c 100755
--- a/ccore/src/nnet/hhn.cpp
+++ b/ccore/src/nnet/hhn.cpp
@@ -534,7 +534,7 @@ void hhn_network::simulate(const std::size_t p_steps, const double p_time, const
 
         cur_time += step;
 
-        store_dynamic(cur_time + step, p_output_dynamic);
+        store_dynamic(cur_time, p_output_dynamic);
 
         update_peripheral_current();
     }
-- 
2.43.0


From 3b12b287aac977a1067753b96f3c4b1b70388192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:57 +0000
Subject: [PATCH 103/105] fix: first step of the Python Hodgkin-Huxley network
 uses noise instead of its stimulus

---
 pyclustering/nnet/hhn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/hhn.py b/pyclustering/nnet/hhn.py
index d02f79e..d172336 100755
--- a/pyclustering/nnet/hhn.py
+++ b/pyclustering/nnet/hhn.py
@@ -233,7 +233,7 @@ class hhn_network(network):
             self._pulse_generation_time = [[] for i in range(self._num_osc)]
             self._pulse_generation = [False] * self._num_osc
             
-            self._noise = [random.random() * 2.0 - 1.0 for i in range(self._num_osc)]
+            self._noise = [1.0 + 0.01 * (random.random() * 2.0 - 1.0) for i in range(self._num_osc)]
             
             self._central_element = [central_element(), central_element()]
 
-- 
2.43.0


From 5333eb0be3954917282d4fc7dda16ec5248f1689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:57 +0000
Subject: [PATCH 104/105] fix: second simulation of an fsync network begins its
 dynamic with raw complex states

---
 pyclustering/nnet/fsync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclustering/nnet/fsync.py b/pyclustering/nnet/fsync.py
index 4752aee..c467fe1 100755
--- a/pyclustering/nnet/fsync.py
+++ b/pyclustering/nnet/fsync.py
@@ -232,7 +232,7 @@ class fsync_network(network):
         
         """
         
-        dynamic_amplitude, dynamic_time = ([], []) if collect_dynamic is False else ([self.__amplitude], [0]);
+        dynamic_amplitude, dynamic_time = ([], []) if collect_dynamic is False else ([[ numpy.real(numpy.ravel(amplitude))[0] for amplitude in self.__amplitude ]], [0]);
         
         step = time / steps;
         int_step = step / 10.0;
-- 
2.43.0


From b87324d97a09714efc14e45277e060c780e02126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:14 +0000
Subject: [PATCH 105/105] fix: thread pool accepts twice as many tasks 'if
 free' as it has threads

---
 .../pyclustering/parallel/thread_pool.hpp     |  2 +-
 ccore/src/parallel/thread_pool.cpp            | 20 +++++++++----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/ccore/include/pyclustering/parallel/thread_pool.hpp b/ccore/include/pyclustering/parallel/thread_pool.hpp
index 33d21cf..8a3930a 100755
--- a/ccore/include/pyclustering/parallel/thread_pool.hpp
+++ b/ccore/include/pyclustering/parallel/thread_pool.hpp
@@ -54,7 +54,7 @@ private:
     std::condition_variable         m_queue_not_empty_cond;
 
     std::size_t                     m_free = 0;
-    std::size_t                     m_reserve = 0;
+    std::size_t                     m_start = 0;
     bool                            m_stop = false;
 
 public:
diff --git a/ccore/src/parallel/thread_pool.cpp b/ccore/src/parallel/thread_pool.cpp
index ac9b161..c17cc85 100755
--- a/ccore/src/parallel/thread_pool.cpp
+++ b/ccore/src/parallel/thread_pool.cpp
@@ -68,14 +68,12 @@ task::ptr thread_pool::add_task_if_free(const task::proc & p_raw_task) {
     {
         std::lock_guard<std::mutex> lock_common(m_common_mutex);
 
-        if (m_reserve > 0) {
+        if (m_queue.size() < m_free) {
             client_task = std::make_shared<task>(p_raw_task);
 
             m_queue.push_back(client_task);
 
             m_queue_not_empty_cond.notify_one();
-
-            m_reserve--;
         }
     }
 
@@ -92,14 +90,14 @@ void thread_pool::initialize(const std::size_t p_size) {
     m_pool    = { };
     m_queue   = { };
     m_stop    = false;
+    m_free    = p_size;     /* should be ready before the first thread asks for a task */
+    m_start   = p_size;
 
     thread_executor::task_getter getter = std::bind(&thread_pool::get_task, this, std::placeholders::_1);
 
     for (std::size_t index = 0; index < p_size; index++) {
         m_pool.emplace_back(std::make_shared<thread_executor>(getter));
     }
-
-    m_reserve = m_free = p_size;
 }
 
 
@@ -108,8 +106,12 @@ void thread_pool::get_task(task::ptr & p_task) {
 
     p_task = nullptr;
 
-    m_reserve++;
-    m_free++;
+    if (m_start > 0) {
+        m_start--;      /* threads are counted as free from the beginning */
+    }
+    else {
+        m_free++;
+    }
 
     while(m_queue.empty() && !m_stop) {
         m_queue_not_empty_cond.wait(lock_common, [this]{ return !m_queue.empty() || m_stop; });
@@ -119,10 +121,6 @@ void thread_pool::get_task(task::ptr & p_task) {
         p_task = m_queue.front();
         m_queue.pop_front();
 
-        if (m_reserve == m_free) {
-            m_reserve--;
-        }
-
         m_free--;
     }
 }
-- 
2.43.0

