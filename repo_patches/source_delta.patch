From 09ae4372696b387b535333bf89ecc8872fe56b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 01/64] fix: search the full radius and deduplicate images in
 AABBQuery nearest neighbor queries

---
 freud/locality/AABBQuery.cc | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/freud/locality/AABBQuery.cc b/freud/locality/AABBQuery.cc
index 2d607e9..c38537c 100644
--- a/freud/locality/AABBQuery.cc
+++ b/freud/locality/AABBQuery.cc
@@ -177,10 +177,26 @@ NeighborBond AABBQueryIterator::next()
             m_current_neighbors.clear();
             m_all_bonds_minimum_distance.clear();
             m_query_points_below_r_min.clear();
+
+            const float r_search = std::min(m_r_cur, m_r_max);
+            if (r_search > min_plane_distance / 2)
+            {
+                // If we have to go beyond the cutoff radius, we need to
+                // start tracking what particles are already in the set so
+                // that we can make sure that we find the closest image
+                // because we now run the risk of finding duplicates.
+                //
+                // We could make this marginally more efficient by checking
+                // whether we've exactly hit the limit, or if there's a
+                // rescaling that would let us try the exact limit once
+                // before going beyond the min plane distance.
+                m_search_extended = true;
+            }
+
             std::shared_ptr<NeighborQueryPerPointIterator> const ball_it
                 = std::make_shared<AABBQueryBallIterator>(static_cast<const AABBQuery*>(m_neighbor_query),
                                                           m_query_point, m_query_point_idx,
-                                                          std::min(m_r_cur, m_r_max), 0, m_exclude_ii, false);
+                                                          r_search, 0, m_exclude_ii, false);
             while (!ball_it->end())
             {
                 NeighborBond nb = ball_it->next();
@@ -228,7 +244,7 @@ NeighborBond AABBQueryIterator::next()
                 break;
             }
 
-            if ((m_r_cur >= m_r_max) || (m_r_cur >= max_plane_distance)
+            if ((r_search >= m_r_max) || (r_search >= max_plane_distance)
                 || ((m_all_bonds_minimum_distance.size() - m_query_points_below_r_min.size())
                     >= m_num_neighbors))
             {
@@ -246,20 +262,6 @@ NeighborBond AABBQueryIterator::next()
                 std::sort(m_current_neighbors.begin(), m_current_neighbors.end());
                 break;
             }
-
-            if (m_r_cur > min_plane_distance / 2)
-            {
-                // If we have to go beyond the cutoff radius, we need to
-                // start tracking what particles are already in the set so
-                // that we can make sure that we find the closest image
-                // because we now run the risk of finding duplicates.
-                //
-                // We could make this marginally more efficient by checking
-                // whether we've exactly hit the limit, or if there's a
-                // rescaling that would let us try the exact limit once
-                // before going beyond the min plane distance.
-                m_search_extended = true;
-            }
         }
     }
 
-- 
2.43.0


From a4dc963d35b5de91cd368584405bb2f1be75b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 02/64] fix: search all cells in LinkCell nearest neighbor
 queries of elongated boxes

---
 freud/locality/LinkCell.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index 1d2cb9e..2426f09 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -578,13 +578,13 @@ NeighborBond LinkCellQueryIterator::next()
     float const r_min_sq = m_r_min * m_r_min;
 
     vec3<float> const plane_distance = m_neighbor_query->getBox().getNearestPlaneDistance();
-    float min_plane_distance = std::min(plane_distance.x, plane_distance.y);
+    float max_plane_distance = std::max(plane_distance.x, plane_distance.y);
     if (!m_neighbor_query->getBox().is2D())
     {
-        min_plane_distance = std::min(min_plane_distance, plane_distance.z);
+        max_plane_distance = std::max(max_plane_distance, plane_distance.z);
     }
     unsigned int const max_range
-        = static_cast<unsigned int>(std::ceil(min_plane_distance / (2 * m_linkcell->getCellWidth()))) + 1;
+        = static_cast<unsigned int>(std::ceil(max_plane_distance / (2 * m_linkcell->getCellWidth()))) + 1;
 
     vec3<unsigned int> const point_cell(m_linkcell->getCellCoord(m_query_point));
     // NOLINTBEGIN(bugprone-narrowing-conversions): narrowing coversion is working as expected
-- 
2.43.0


From 458c065443f957db04e5f223270ffb5ff60b5e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 03/64] fix: direct NeighborList.all_pairs vectors from query
 points to points

---
 freud/locality/NeighborList.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 96baa23..7e434c1 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -120,7 +120,7 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
                 (*m_weights)(bond_idx) = 1.0;
                 const auto dr = box.wrap(query_points[i] - points[j]);
                 (*m_distances)(bond_idx) = sqrt(dot(dr, dr));
-                (*m_vectors)(bond_idx) = dr;
+                (*m_vectors)(bond_idx) = -dr;
                 ++bond_idx;
             }
         }
-- 
2.43.0


From 5b4c3d4c50ccacb82cc1cc30a53fd6bba78811f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 04/64] fix: keep the sizes of the unfiltered list in filtered
 neighbor lists

---
 freud/locality/FilterRAD.cc    |  3 ++-
 freud/locality/FilterSANN.cc   |  3 ++-
 freud/locality/NeighborList.cc | 35 ++++++++--------------------------
 freud/locality/NeighborList.h  |  2 +-
 4 files changed, 13 insertions(+), 30 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 9eb2715..dd2534f 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -127,7 +127,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     // sort final bonds array by distance
     tbb::parallel_sort(rad_bonds.begin(), rad_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds, sorted_nlist.getNumQueryPoints(),
+                                                      sorted_nlist.getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/FilterSANN.cc b/freud/locality/FilterSANN.cc
index d66c31f..ea7b59c 100644
--- a/freud/locality/FilterSANN.cc
+++ b/freud/locality/FilterSANN.cc
@@ -99,7 +99,8 @@ void FilterSANN::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* q
     // sort final bonds array by distance
     tbb::parallel_sort(sann_bonds.begin(), sann_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds, sorted_nlist.getNumQueryPoints(),
+                                                      sorted_nlist.getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 7e434c1..09957d8 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -127,35 +127,23 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
     });
 }
 
-NeighborList::NeighborList(std::vector<NeighborBond> bonds)
-    : m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
+NeighborList::NeighborList(std::vector<NeighborBond> bonds, unsigned int num_query_points,
+                           unsigned int num_points)
+    : m_num_query_points(num_query_points), m_num_points(num_points),
+      m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
       m_vectors(std::make_shared<util::ManagedArray<vec3<float>>>(bonds.size())),
       m_weights(std::make_shared<util::ManagedArray<float>>(bonds.size())),
-      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {bonds.size(), 2}))
+      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {bonds.size(), 2})),
+      m_segments_counts_updated(false),
+      m_segments(std::make_shared<util::ManagedArray<unsigned int>>(num_query_points)),
+      m_counts(std::make_shared<util::ManagedArray<unsigned int>>(num_query_points))
 {
-    // keep track of maximum indices
-    using MaxIndex = tbb::enumerable_thread_specific<unsigned int>;
-    MaxIndex max_idx_query = 0;
-    MaxIndex max_idx_point = 0;
-
     // fill arrays in parallel
     util::forLoopWrapper(0, bonds.size(), [&](size_t begin, size_t end) {
-        MaxIndex::reference max_point_idx(max_idx_point.local());
-        MaxIndex::reference max_query_idx(max_idx_query.local());
         for (auto i = begin; i < end; ++i)
         {
             auto bond = bonds[i];
 
-            // update max bond indices
-            if (max_point_idx < bond.getPointIdx())
-            {
-                max_point_idx = bond.getPointIdx();
-            }
-            if (max_query_idx < bond.getQueryPointIdx())
-            {
-                max_query_idx = bond.getQueryPointIdx();
-            }
-
             // fill in array data
             (*m_distances)(i) = bond.getDistance();
             (*m_weights)(i) = bond.getWeight();
@@ -164,13 +152,6 @@ NeighborList::NeighborList(std::vector<NeighborBond> bonds)
             (*m_vectors)(i) = bond.getVector();
         }
     });
-
-    // set num points, query points as max of thread-local maxes
-    m_num_points = (*std::max_element(max_idx_point.begin(), max_idx_point.end())) + 1;
-    m_num_query_points = (*std::max_element(max_idx_query.begin(), max_idx_query.end())) + 1;
-    m_segments = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
-    m_counts = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
-    m_segments_counts_updated = false;
 }
 
 unsigned int NeighborList::getNumBonds() const
diff --git a/freud/locality/NeighborList.h b/freud/locality/NeighborList.h
index b73b844..95c5a70 100644
--- a/freud/locality/NeighborList.h
+++ b/freud/locality/NeighborList.h
@@ -44,7 +44,7 @@ public:
                  const bool exclude_ii, const unsigned int num_points, const unsigned int num_query_points);
 
     //! Construct from vector of NeighborBonds
-    explicit NeighborList(std::vector<NeighborBond> bonds);
+    NeighborList(std::vector<NeighborBond> bonds, unsigned int num_query_points, unsigned int num_points);
 
     //! Return the number of bonds stored in this NeighborList
     unsigned int getNumBonds() const;
-- 
2.43.0


From ff61ee19e187dddb4f6014f493a0f47875548f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 05/64] fix: keep the vectors and weights of the bonds in
 FilterRAD

---
 freud/locality/FilterRAD.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index dd2534f..131bc55 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -47,6 +47,7 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     const auto& box = nq->getBox();
     const auto& sorted_neighbors = *sorted_nlist.getNeighbors();
     const auto& sorted_dist = *sorted_nlist.getDistances();
+    const auto& sorted_vecs = *sorted_nlist.getVectors();
     const auto& sorted_weights = *sorted_nlist.getWeights();
     const auto& sorted_counts = *sorted_nlist.getCounts();
 
@@ -93,7 +94,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
                 // if no k blocks j, add a bond from i to j
                 if (good_neighbor)
                 {
-                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j), 1, v1);
+                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j),
+                                             sorted_weights(first_idx + j), sorted_vecs(first_idx + j));
                 }
                 else if (m_terminate_after_blocked)
                 {
-- 
2.43.0


From 375f8c18270ea32db11efd5ede07be62003aea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 06/64] fix: reject filters shorter than the neighbor list

---
 freud/locality/export-NeighborList.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freud/locality/export-NeighborList.cc b/freud/locality/export-NeighborList.cc
index 1f1dced..1220eb8 100644
--- a/freud/locality/export-NeighborList.cc
+++ b/freud/locality/export-NeighborList.cc
@@ -6,6 +6,7 @@
 #include <nanobind/ndarray.h>
 #include <nanobind/operators.h>
 #include <nanobind/stl/shared_ptr.h> // NOLINT(misc-include-cleaner): used implicitly
+#include <stdexcept>
 
 #include "Box.h"
 #include "NeighborBond.h"
@@ -51,6 +52,10 @@ void ConstructAllPairs(NeighborList* nlist, const nb_array<const float, nb::shap
 unsigned int filter(const std::shared_ptr<NeighborList>& nlist,
                     const nb_array<const bool, nb::ndim<1>>& filter)
 {
+    if (filter.shape(0) < nlist->getNumBonds())
+    {
+        throw std::invalid_argument("NeighborList.filter requires one value for each bond.");
+    }
     const bool* filter_data = (const bool*) filter.data();
     return nlist->filter(filter_data);
 }
-- 
2.43.0


From 1e734896426f5b385c9df88677c6a510ab756567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 07/64] fix: do not read a query point when iterating over zero
 query points

---
 freud/locality/NeighborQuery.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freud/locality/NeighborQuery.h b/freud/locality/NeighborQuery.h
index fc83024..6b98111 100644
--- a/freud/locality/NeighborQuery.h
+++ b/freud/locality/NeighborQuery.h
@@ -370,6 +370,11 @@ public:
         : m_neighbor_query(neighbor_query), m_query_points(query_points),
           m_num_query_points(num_query_points), m_qargs(qargs)
     {
+        if (m_num_query_points == 0)
+        {
+            m_finished = true;
+            return;
+        }
         m_iter = this->query(m_cur_p);
     }
 
-- 
2.43.0


From 503f86f0ac586b0aa38797a770189b5fbae34830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 08/64] fix: give every CellQuery iterator its own grid

---
 freud/locality/CellQuery.cc    |  4 +++-
 freud/locality/NeighborQuery.h | 10 ++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index 6cc263b..c736a9f 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -30,7 +30,9 @@ CellQuery::query(const vec3<float>* query_points, unsigned int n_query_points, Q
         this->buildGrid(query_args.r_max);
     }
 
-    return std::make_shared<NeighborQueryIterator>(this, query_points, n_query_points, query_args);
+    // The iterator uses its own copy of the grid, which the next query of this object replaces.
+    const std::shared_ptr<const NeighborQuery> snapshot = std::make_shared<CellQuery>(*this);
+    return std::make_shared<NeighborQueryIterator>(snapshot, query_points, n_query_points, query_args);
 }
 
 std::shared_ptr<NeighborQueryPerPointIterator>
diff --git a/freud/locality/NeighborQuery.h b/freud/locality/NeighborQuery.h
index 6b98111..148e52d 100644
--- a/freud/locality/NeighborQuery.h
+++ b/freud/locality/NeighborQuery.h
@@ -378,6 +378,15 @@ public:
         m_iter = this->query(m_cur_p);
     }
 
+    //! Constructor from a NeighborQuery object that the iterator keeps alive
+    NeighborQueryIterator(const std::shared_ptr<const NeighborQuery>& neighbor_query,
+                          const vec3<float>* query_points, unsigned int num_query_points,
+                          const QueryArgs& qargs)
+        : NeighborQueryIterator(neighbor_query.get(), query_points, num_query_points, qargs)
+    {
+        m_owned_neighbor_query = neighbor_query;
+    }
+
     //! Empty Destructor
     ~NeighborQueryIterator() = default;
 
@@ -490,6 +499,7 @@ protected:
     const vec3<float>* m_query_points;                     //!< Coordinates of the query points.
     unsigned int m_num_query_points;                       //!< The number of query points.
     const QueryArgs m_qargs;                               //!< The query arguments
+    std::shared_ptr<const NeighborQuery> m_owned_neighbor_query; //!< Set if the iterator owns the object.
     std::shared_ptr<NeighborQueryPerPointIterator> m_iter; //!< The per-point iterator being used.
 
     bool m_finished {
-- 
2.43.0


From c1dc85fa9643790a8e015ef786206edd3be60cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 09/64] fix: seed the replicates of Cubatic independently of
 the threads

---
 freud/order/Cubatic.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/freud/order/Cubatic.cc b/freud/order/Cubatic.cc
index 854de27..0387ef3 100644
--- a/freud/order/Cubatic.cc
+++ b/freud/order/Cubatic.cc
@@ -260,20 +260,19 @@ void Cubatic::compute(const quat<float>* orientations, unsigned int num_orientat
     util::ManagedArray<quat<float>> p_cubatic_orientation(m_n_replicates);
 
     util::forLoopWrapper(0, m_n_replicates, [&](size_t begin, size_t end) {
-        // create thread-specific rng
-        const auto thread_start = static_cast<unsigned int>(begin);
-
-        std::vector<unsigned int> seed_seq(3);
-        seed_seq[0] = m_seed;
-        seed_seq[1] = thread_start;
-        seed_seq[2] = 0xffaabb;
-        std::seed_seq seed(seed_seq.begin(), seed_seq.end());
-        std::mt19937 rng(seed);
-        std::uniform_real_distribution<float> base_dist(0, 1);
-        auto dist = [&]() { return base_dist(rng); };
-
         for (size_t i = begin; i < end; i++)
         {
+            // create a replicate-specific rng, so that results do not depend on
+            // how the replicates are divided among threads
+            std::vector<unsigned int> seed_seq(3);
+            seed_seq[0] = m_seed;
+            seed_seq[1] = static_cast<unsigned int>(i);
+            seed_seq[2] = 0xffaabb;
+            std::seed_seq seed(seed_seq.begin(), seed_seq.end());
+            std::mt19937 rng(seed);
+            std::uniform_real_distribution<float> base_dist(0, 1);
+            auto dist = [&]() { return base_dist(rng); };
+
             // need to generate random orientation
             quat<float> cubatic_orientation = calcRandomQuaternion(dist);
             quat<float> new_orientation = cubatic_orientation;
-- 
2.43.0


From 3bc489dcbdc61192a1ffc97c602117d577fe652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 10/64] fix: pair query orientations with query points in
 AngularSeparationNeighbor

---
 freud/environment/AngularSeparation.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freud/environment/AngularSeparation.cc b/freud/environment/AngularSeparation.cc
index dbe4fb1..85d431d 100644
--- a/freud/environment/AngularSeparation.cc
+++ b/freud/environment/AngularSeparation.cc
@@ -73,19 +73,19 @@ void AngularSeparationNeighbor::compute(const std::shared_ptr<locality::Neighbor
     const size_t tot_num_neigh = m_nlist->getNumBonds();
     m_angles = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {tot_num_neigh});
 
-    util::forLoopWrapper(0, nq->getNPoints(), [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, n_query_points, [&](size_t begin, size_t end) {
         size_t bond(m_nlist->find_first_index(begin));
         for (size_t i = begin; i < end; ++i)
         {
-            const quat<float> q = orientations[i];
+            const quat<float> query_q = query_orientations[i];
 
             for (; bond < tot_num_neigh && (*m_nlist->getNeighbors())(bond, 0) == i; ++bond)
             {
                 const size_t j((*m_nlist->getNeighbors())(bond, 1));
-                const quat<float> query_q = query_orientations[j];
+                const quat<float> q = orientations[j];
 
                 const float theta
-                    = computeMinSeparationAngle(q, query_q, equiv_orientations, n_equiv_orientations);
+                    = computeMinSeparationAngle(query_q, q, equiv_orientations, n_equiv_orientations);
                 (*m_angles)[bond] = theta;
             }
         }
-- 
2.43.0


From 6db78eaea474d22f396c9713e347dfdb86ad982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 11/64] fix: reject neighbor lists that do not fit the points
 of a computation

---
 freud/locality/NeighborComputeFunctional.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/locality/NeighborComputeFunctional.h b/freud/locality/NeighborComputeFunctional.h
index d43cb37..9759058 100644
--- a/freud/locality/NeighborComputeFunctional.h
+++ b/freud/locality/NeighborComputeFunctional.h
@@ -118,6 +118,7 @@ void loopOverNeighborsIterator(const std::shared_ptr<NeighborQuery>& neighbor_qu
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, n_query_points,
             [&](size_t begin, size_t end) {
@@ -179,6 +180,7 @@ void loopOverNeighbors(const std::shared_ptr<NeighborQuery>& neighbor_query, con
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, nlist->getNumBonds(),
             [&](size_t begin, size_t end) {
-- 
2.43.0


From 86f8e2d77fa905bc1a93a9d1a7d7832f62899152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 12/64] fix: reject per-point arrays shorter than the points
 they describe

---
 freud/cluster.py     |  2 +-
 freud/density.py     | 11 +++++------
 freud/environment.py | 11 ++++++-----
 freud/pmft.py        |  8 ++++++--
 4 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/freud/cluster.py b/freud/cluster.py
index aedb75c..ec9907c 100644
--- a/freud/cluster.py
+++ b/freud/cluster.py
@@ -180,7 +180,7 @@ class ClusterProperties(_Compute):
             cluster_idx, shape=(nq.points.shape[0],), dtype=np.uint32
         )
         if masses is not None:
-            masses = freud.util._convert_array(masses, shape=(len(masses),))
+            masses = freud.util._convert_array(masses, shape=(nq.points.shape[0],))
         self._cpp_obj.compute(nq._cpp_obj, cluster_idx, masses)
         return self
 
diff --git a/freud/density.py b/freud/density.py
index c47ad95..fb92bb1 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -119,12 +119,11 @@ class CorrelationFunction(_SpatialHistogram1D):
         )
         if query_values is None:
             query_values = values
-        else:
-            query_values = freud.util._convert_array(
-                query_values,
-                shape=(l_query_points.shape[0],),
-                dtype=np.complex128,
-            )
+        query_values = freud.util._convert_array(
+            query_values,
+            shape=(l_query_points.shape[0],),
+            dtype=np.complex128,
+        )
         self._cpp_obj.accumulate(
             nq._cpp_obj,
             values,
diff --git a/freud/environment.py b/freud/environment.py
index edb2681..130ca21 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -102,10 +102,9 @@ class AngularSeparationNeighbor(_PairCompute):
         )
         if query_orientations is None:
             query_orientations = orientations
-        else:
-            query_orientations = freud.util._convert_array(
-                query_orientations, shape=(query_points.shape[0], 4)
-            )
+        query_orientations = freud.util._convert_array(
+            query_orientations, shape=(query_points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
@@ -1055,7 +1054,9 @@ class LocalBondProjection(_PairCompute):
             system, query_points, neighbors
         )
 
-        orientations = freud.util._convert_array(orientations, shape=(None, 4))
+        orientations = freud.util._convert_array(
+            orientations, shape=(nq.points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
diff --git a/freud/pmft.py b/freud/pmft.py
index 420c751..adde64e 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -197,7 +197,9 @@ class PMFTR12(_PMFT):
 
         orientations = _gen_angle_array(orientations, shape=(nq.points.shape[0],))
         if query_orientations is None:
-            query_orientations = orientations
+            query_orientations = freud.util._convert_array(
+                orientations, shape=(query_points.shape[0],)
+            )
         else:
             query_orientations = _gen_angle_array(
                 query_orientations, shape=(query_points.shape[0],)
@@ -299,7 +301,9 @@ class PMFTXYT(_PMFT):
 
         orientations = _gen_angle_array(orientations, shape=(nq.points.shape[0],))
         if query_orientations is None:
-            query_orientations = orientations
+            query_orientations = freud.util._convert_array(
+                orientations, shape=(query_points.shape[0],)
+            )
         else:
             query_orientations = _gen_angle_array(
                 query_orientations, shape=(query_points.shape[0],)
-- 
2.43.0


From 7309b1c3ab0f1e9a313527d9f6ca2ada215c4145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 13/64] fix: accept all rotations about the z-axis in 2D PMFTs

---
 freud/pmft.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/freud/pmft.py b/freud/pmft.py
index adde64e..8f8592d 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -41,7 +41,6 @@ refer to the supplementary information of :cite:`vanAnders:2014aa`.
 from importlib.util import find_spec
 
 import numpy as np
-import rowan
 
 import freud._pmft
 import freud.locality
@@ -71,13 +70,15 @@ def _quat_to_z_angle(orientations, num_points):
     ) or (len(orientations.shape) == 2 and orientations.shape[1] == 4)
 
     if is_quat:
-        axes, orientations = rowan.to_axis_angle(orientations)
-        if not (np.allclose(orientations, 0) or np.allclose(axes, [0, 0, 1])):
+        # Rotations about the z-axis have no x and y components; this includes the
+        # identity and rotations by negative angles.
+        if not np.allclose(orientations[..., 1:3], 0):
             msg = (
                 "Orientations provided as quaternions "
                 "must represent rotations about the z-axis."
             )
             raise ValueError(msg)
+        orientations = 2 * np.arctan2(orientations[..., 3], orientations[..., 0])
     return orientations
 
 
-- 
2.43.0


From 33686a4796eb6915db902def105a5563551ec24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 14/64] fix: treat NaN as out of bounds in histograms

---
 freud/util/Histogram.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freud/util/Histogram.h b/freud/util/Histogram.h
index 9aa63d7..98b332c 100644
--- a/freud/util/Histogram.h
+++ b/freud/util/Histogram.h
@@ -153,8 +153,9 @@ public:
     {
         // Since we're using an unsigned int cast for truncation, we must
         // ensure that we will be working with a positive number or we will
-        // fail to detect underflow.
-        if (value < m_min || value >= m_max)
+        // fail to detect underflow. The condition is negated so that NaN, for
+        // which every comparison is false, is also out of bounds.
+        if (!(value >= m_min && value < m_max))
         {
             return OVERFLOW_BIN;
         }
-- 
2.43.0


From cc9a9eb05bc4d7793cdf06c56f77663f452c6a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 15/64] fix: count the bonds along the negative z-axis in
 BondOrder

---
 freud/environment/BondOrder.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/freud/environment/BondOrder.cc b/freud/environment/BondOrder.cc
index f65e43c..0600505 100644
--- a/freud/environment/BondOrder.cc
+++ b/freud/environment/BondOrder.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cmath>
 #include <stdexcept>
 #ifdef __SSE2__
@@ -143,7 +144,12 @@ void BondOrder::accumulate(const std::shared_ptr<locality::NeighborQuery>& neigh
                           theta = util::modulusPositive(theta, constants::TWO_PI);
 
                           // NOTE that the below has replaced the commented out expression for phi.
-                          const float phi = std::acos(v.z / std::sqrt(dot(v, v))); // 0..Pi
+                          // The cosine may leave [-1, 1] by rounding, and bonds along the negative
+                          // z-axis (phi = Pi) belong to the last bin.
+                          const float cos_phi
+                              = std::max(std::min(v.z / std::sqrt(dot(v, v)), float(1.0)), float(-1.0));
+                          const float phi
+                              = std::min(std::acos(cos_phi), std::nextafter(float(M_PI), float(0.0))); // 0..Pi
 
                           m_local_histograms(theta, phi);
                       });
-- 
2.43.0


From 79b938c44dabe755b3505ec7edd7359acb987d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 16/64] fix: use identity query orientations in BondOrder
 without orientations

---
 freud/environment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/environment.py b/freud/environment.py
index 130ca21..6a35274 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -339,6 +339,8 @@ class BondOrder(_SpatialHistogram):
         )
         if orientations is None:
             orientations = np.array([[1, 0, 0, 0]] * nq.points.shape[0])
+            if query_orientations is None:
+                query_orientations = np.array([[1, 0, 0, 0]] * num_query_points)
         if query_orientations is None:
             query_orientations = orientations
         if query_points is None:
-- 
2.43.0


From d925b9931ad8c8e3f201819ca0d620eaf7bbbbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 17/64] fix: assign points on the lower faces of a box to its
 own image

---
 freud/box/Box.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 7578ba5..05e885c 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -275,14 +275,12 @@ public:
      */
     void getImage(const vec3<float>& v, vec3<int>& image) const
     {
-        vec3<float> f = makeFractional(v) - vec3<float>(0.5, 0.5, 0.5);
-        if (m_2d)
-        {
-            f.z = float(0.0);
-        }
-        image.x = (int) ((f.x >= float(0.0)) ? f.x + float(0.5) : f.x - float(0.5));
-        image.y = (int) ((f.y >= float(0.0)) ? f.y + float(0.5) : f.y - float(0.5));
-        image.z = (int) ((f.z >= float(0.0)) ? f.z + float(0.5) : f.z - float(0.5));
+        const vec3<float> f = makeFractional(v);
+        // The image is what wrapping removes, so that the faces of the box belong to the
+        // same image in both.
+        image.x = (int) std::round(f.x - util::modulusPositive(f.x, float(1.0)));
+        image.y = (int) std::round(f.y - util::modulusPositive(f.y, float(1.0)));
+        image.z = (int) std::round(f.z - util::modulusPositive(f.z, float(1.0)));
     }
 
     //! Get the periodic image vectors belongs to
-- 
2.43.0


From 0c6fcc0a025d083b892acb24534bbfaea0ed54b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 18/64] fix: keep the z-dimension of 3D boxes when setting
 their dimensions

---
 freud/box/Box.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 05e885c..984be36 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -117,9 +117,8 @@ public:
     //! Set whether box is 2D
     void set2D(bool _2d)
     {
-        m_2d = _2d;
-        m_L.z = 0;
-        m_Linv.z = 0;
+        m_2d = _2d; // Assign before calling setL!
+        setL(m_L.x, m_L.y, m_L.z);
     }
 
     //! Returns whether box is two dimensional
-- 
2.43.0


From b522329c83a1e3aec5aadd9ca4f0e5c822fa25ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 19/64] fix: accept NumPy booleans, as returned by
 Box.periodic, for its setter

---
 freud/box.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/freud/box.py b/freud/box.py
index 8280930..910e6b8 100644
--- a/freud/box.py
+++ b/freud/box.py
@@ -568,12 +568,13 @@ class Box:  # noqa: PLW1641
 
     @periodic.setter
     def periodic(self, periodic):
-        # Allow passing a single value
-        try:
-            self._cpp_obj.setPeriodic(periodic[0], periodic[1], periodic[2])
-        except TypeError:
-            # Allow single value to be passed for all directions
-            self._cpp_obj.setPeriodic(periodic, periodic, periodic)
+        # Allow single value to be passed for all directions
+        if np.ndim(periodic) == 0:
+            periodic = (periodic, periodic, periodic)
+        # Convert NumPy booleans, such as those of the getter
+        self._cpp_obj.setPeriodic(
+            bool(periodic[0]), bool(periodic[1]), bool(periodic[2])
+        )
 
     @property
     def periodic_x(self):
-- 
2.43.0


From be56d7b739a25a1c9d424e43398272290fefbe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 20/64] fix: keep the periodicity of copied and scaled boxes

---
 freud/box.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/freud/box.py b/freud/box.py
index 910e6b8..6b5ec40 100644
--- a/freud/box.py
+++ b/freud/box.py
@@ -700,7 +700,7 @@ class Box:  # noqa: PLW1641
 
     def __mul__(self, scale):
         if scale > 0:
-            return self.__class__(
+            box = self.__class__(
                 Lx=self.Lx * scale,
                 Ly=self.Ly * scale,
                 Lz=self.Lz * scale,
@@ -709,6 +709,8 @@ class Box:  # noqa: PLW1641
                 yz=self.yz,
                 is2D=self.is2D,
             )
+            box.periodic = self.periodic
+            return box
         msg = "Box can only be multiplied by positive values."
         raise ValueError(msg)
 
@@ -841,7 +843,10 @@ class Box:  # noqa: PLW1641
         if dimensions is None:
             dimensions = 2 if Lz == 0 else 3
         is2D = dimensions == 2
-        return cls(Lx=Lx, Ly=Ly, Lz=Lz, xy=xy, xz=xz, yz=yz, is2D=is2D)
+        new_box = cls(Lx=Lx, Ly=Ly, Lz=Lz, xy=xy, xz=xz, yz=yz, is2D=is2D)
+        if isinstance(box, Box):
+            new_box.periodic = box.periodic
+        return new_box
 
     @classmethod
     def from_matrix(cls, box_matrix, dimensions=None):
-- 
2.43.0


From 48a05048a921e8f8e1a405be998185a45ab2a0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 21/64] fix: restore the number of threads in effect when
 NumThreads is entered

---
 freud/parallel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freud/parallel.py b/freud/parallel.py
index da7e6b3..ff2c2bd 100644
--- a/freud/parallel.py
+++ b/freud/parallel.py
@@ -48,12 +48,13 @@ class NumThreads:
     """
 
     def __init__(self, N=None):
-        self.restore_N = _num_threads
+        self.restore_N = []
         self.N = N
 
     def __enter__(self):
+        self.restore_N.append(_num_threads)
         set_num_threads(self.N)
         return self
 
     def __exit__(self, *args):
-        set_num_threads(self.restore_N)
+        set_num_threads(self.restore_N.pop())
-- 
2.43.0


From 41ad4fa33ff62f973c7b520440bcc9dceda44439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 22/64] fix: do not change returned histogram arrays when
 accumulating further

---
 freud/density/CorrelationFunction.cc          |  7 +++++-
 freud/density/CorrelationFunction.h           |  4 ++++
 freud/density/RDF.cc                          |  4 ++--
 freud/density/RDF.h                           |  7 +++---
 freud/diffraction/StaticStructureFactor.h     | 10 ++++++++
 .../diffraction/StaticStructureFactorDebye.cc |  2 +-
 .../StaticStructureFactorDirect.cc            |  2 +-
 freud/environment/BondOrder.cc                |  4 ++--
 freud/environment/BondOrder.h                 |  5 +++-
 freud/locality/BondHistogramCompute.h         | 24 +++++++++++++++----
 freud/pmft/PMFT.h                             | 10 ++++----
 11 files changed, 57 insertions(+), 22 deletions(-)

diff --git a/freud/density/CorrelationFunction.cc b/freud/density/CorrelationFunction.cc
index cfab07f..c09c788 100644
--- a/freud/density/CorrelationFunction.cc
+++ b/freud/density/CorrelationFunction.cc
@@ -62,10 +62,15 @@ void CorrelationFunction::reduce()
 void CorrelationFunction::reset()
 {
     BondHistogramCompute::reset();
-    m_correlation_function = util::Histogram<std::complex<double>>(m_histogram.getAxes());
     m_local_correlation_function.reset();
 }
 
+void CorrelationFunction::renewResults()
+{
+    BondHistogramCompute::renewResults();
+    m_correlation_function = util::Histogram<std::complex<double>>(m_histogram.getAxes());
+}
+
 // Define an overloaded pair of product functions to deal with complex conjugation if necessary.
 inline std::complex<double> product(std::complex<double> x, std::complex<double> y)
 {
diff --git a/freud/density/CorrelationFunction.h b/freud/density/CorrelationFunction.h
index 947dfdb..a5f81b5 100644
--- a/freud/density/CorrelationFunction.h
+++ b/freud/density/CorrelationFunction.h
@@ -74,6 +74,10 @@ public:
         return reduceAndReturn(m_correlation_function.getBinCounts());
     }
 
+protected:
+    //! Reallocate the arrays so we do not invalidate references that the user has to previous results.
+    void renewResults() override;
+
 private:
     // Typedef thread local histogram type for use in code.
     using CFThreadHistogram = typename util::Histogram<std::complex<double>>::ThreadLocalHistogram;
diff --git a/freud/density/RDF.cc b/freud/density/RDF.cc
index b072d7d..aab8426 100644
--- a/freud/density/RDF.cc
+++ b/freud/density/RDF.cc
@@ -63,9 +63,9 @@ RDF::RDF(unsigned int bins, float r_max, float r_min) : BondHistogramCompute()
     }
 }
 
-void RDF::reset()
+void RDF::renewResults()
 {
-    BondHistogramCompute::reset();
+    BondHistogramCompute::renewResults();
     m_pcf = std::make_shared<util::ManagedArray<float>>(m_pcf->shape());
     m_N_r = std::make_shared<util::ManagedArray<float>>(m_N_r->shape());
 }
diff --git a/freud/density/RDF.h b/freud/density/RDF.h
index 27a214d..317e6a9 100644
--- a/freud/density/RDF.h
+++ b/freud/density/RDF.h
@@ -48,9 +48,6 @@ public:
     //! Reduce thread-local arrays onto the primary data arrays.
     void reduce() override;
 
-    //! Clear the running averages.
-    void reset() override;
-
     //! Get the positional correlation function.
     std::shared_ptr<util::ManagedArray<float>> getRDF()
     {
@@ -67,6 +64,10 @@ public:
         return reduceAndReturn(m_N_r);
     }
 
+protected:
+    //! Reallocate the arrays so we do not invalidate references that the user has to previous results.
+    void renewResults() override;
+
 private:
     std::shared_ptr<util::ManagedArray<float>> m_pcf; //!< The computed pair correlation function.
     std::shared_ptr<util::ManagedArray<float>>
diff --git a/freud/diffraction/StaticStructureFactor.h b/freud/diffraction/StaticStructureFactor.h
index a185ed8..560e8d6 100644
--- a/freud/diffraction/StaticStructureFactor.h
+++ b/freud/diffraction/StaticStructureFactor.h
@@ -76,6 +76,16 @@ protected:
         return thing_to_return;
     }
 
+    //! Have the results reduced again, into a new array if the user may have a reference to it.
+    void prepareReduction()
+    {
+        if (!m_reduce)
+        {
+            m_structure_factor = StructureFactorHistogram(m_structure_factor.getAxes());
+        }
+        m_reduce = true;
+    }
+
     StructureFactorHistogram m_structure_factor; //!< Histogram to hold computed structure factor
     StructureFactorHistogram::ThreadLocalHistogram
         m_local_structure_factor; //!< Thread local histograms for TBB parallelism
diff --git a/freud/diffraction/StaticStructureFactorDebye.cc b/freud/diffraction/StaticStructureFactorDebye.cc
index 757bbbf..0fc35f3 100644
--- a/freud/diffraction/StaticStructureFactorDebye.cc
+++ b/freud/diffraction/StaticStructureFactorDebye.cc
@@ -116,7 +116,7 @@ void StaticStructureFactorDebye::accumulate(const std::shared_ptr<locality::Neig
         };
     });
     m_frame_counter++;
-    m_reduce = true;
+    prepareReduction();
 }
 
 void StaticStructureFactorDebye::reduce()
diff --git a/freud/diffraction/StaticStructureFactorDirect.cc b/freud/diffraction/StaticStructureFactorDirect.cc
index 4f21037..38a7584 100644
--- a/freud/diffraction/StaticStructureFactorDirect.cc
+++ b/freud/diffraction/StaticStructureFactorDirect.cc
@@ -106,7 +106,7 @@ void StaticStructureFactorDirect::accumulate(const std::shared_ptr<locality::Nei
             m_local_k_histograms.increment(k_bin);
         };
     });
-    m_reduce = true;
+    prepareReduction();
 }
 
 void StaticStructureFactorDirect::reduce()
diff --git a/freud/environment/BondOrder.cc b/freud/environment/BondOrder.cc
index 0600505..cdefc8b 100644
--- a/freud/environment/BondOrder.cc
+++ b/freud/environment/BondOrder.cc
@@ -77,9 +77,9 @@ BondOrder::BondOrder(unsigned int n_bins_theta, unsigned int n_bins_phi, BondOrd
     m_local_histograms = BondHistogram::ThreadLocalHistogram(m_histogram);
 }
 
-void BondOrder::reset()
+void BondOrder::renewResults()
 {
-    BondHistogramCompute::reset();
+    BondHistogramCompute::renewResults();
     m_bo_array = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {m_histogram.shape()});
 }
 
diff --git a/freud/environment/BondOrder.h b/freud/environment/BondOrder.h
index 85fe9be..0001858 100644
--- a/freud/environment/BondOrder.h
+++ b/freud/environment/BondOrder.h
@@ -48,7 +48,6 @@ public:
                     freud::locality::QueryArgs qargs);
 
     void reduce() override;
-    void reset() override;
     std::vector<std::vector<float>> getBinCenters();
 
     //! Get a shared_ptr to the last computed bond order
@@ -59,6 +58,10 @@ public:
         return m_mode;
     }
 
+protected:
+    //! Reallocate the array so we do not invalidate references that the user has to previous results.
+    void renewResults() override;
+
 private:
     std::shared_ptr<util::ManagedArray<float>> m_bo_array; //!< bond order array computed
     std::shared_ptr<util::ManagedArray<float>> m_sa_array; //!< surface area array computed
diff --git a/freud/locality/BondHistogramCompute.h b/freud/locality/BondHistogramCompute.h
index 790f2f1..999c3eb 100644
--- a/freud/locality/BondHistogramCompute.h
+++ b/freud/locality/BondHistogramCompute.h
@@ -38,10 +38,7 @@ public:
     //! Reset the histogram to all zeros
     virtual void reset()
     {
-        // Allocate a new histogram in memory so that we do not invalidate references the user has
-        // to previous results.
-        m_histogram = BondHistogram(m_histogram.getAxes());
-
+        renewResults();
         // clear the per-thread running averages
         m_local_histograms.reset();
         m_frame_counter = 0;
@@ -117,15 +114,32 @@ public:
                            const vec3<float>* query_points, unsigned int n_query_points,
                            std::shared_ptr<locality::NeighborList> nlist, locality::QueryArgs qargs, Func cf)
     {
+        prepareReduction();
         m_box = neighbor_query->getBox();
         locality::loopOverNeighbors(neighbor_query, query_points, n_query_points, qargs, nlist, cf);
         m_frame_counter++;
         m_n_points = neighbor_query->getNPoints();
         m_n_query_points = n_query_points;
-        m_reduce = true;
     }
 
 protected:
+    //! Allocate new result arrays in memory so that we do not invalidate references the user has
+    //! to previous results.
+    virtual void renewResults()
+    {
+        m_histogram = BondHistogram(m_histogram.getAxes());
+    }
+
+    //! Have the results reduced again, into new arrays if the user may have references to them.
+    void prepareReduction()
+    {
+        if (!m_reduce)
+        {
+            renewResults();
+        }
+        m_reduce = true;
+    }
+
     box::Box m_box;
     unsigned int m_frame_counter {0};  //!< Number of frames calculated.
     unsigned int m_n_points {0};       //!< The number of points.
diff --git a/freud/pmft/PMFT.h b/freud/pmft/PMFT.h
index cc2151a..e578a89 100644
--- a/freud/pmft/PMFT.h
+++ b/freud/pmft/PMFT.h
@@ -40,16 +40,14 @@ public:
         return reduceAndReturn(m_pcf_array);
     }
 
-    void reset() override
+protected:
+    //! Reallocate the PCF array so we do not invalidate references that the user has to previous results.
+    void renewResults() override
     {
-        BondHistogramCompute::reset();
-
-        // Reallocate the PCF array so we do not invalidate references that the user has to
-        // previous results.
+        BondHistogramCompute::renewResults();
         m_pcf_array = std::make_shared<util::ManagedArray<float>>(m_pcf_array->shape());
     }
 
-protected:
     //! Reduce the thread local histogram into the total pair correlation function.
     /*! The pair correlation function is computed by reducing the bin counts in
      * all of the thread local histograms and then multiplying these by the
-- 
2.43.0


From 2392443f80e3600b562ee245b2f74edc4811f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 23/64] fix: renormalize a computed RDF when its mode changes

---
 freud/density/RDF.cc        |  2 +-
 freud/density/RDF.h         | 18 +++++++++++++++---
 freud/density/export-RDF.cc |  2 +-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/freud/density/RDF.cc b/freud/density/RDF.cc
index aab8426..7fd6407 100644
--- a/freud/density/RDF.cc
+++ b/freud/density/RDF.cc
@@ -75,7 +75,7 @@ void RDF::reduce()
     // Define prefactors with appropriate types to simplify and speed later code.
     auto const nqp = static_cast<float>(m_n_query_points);
     float number_density = nqp / m_box.getVolume();
-    if (mode == NormalizationMode::finite_size)
+    if (m_mode == NormalizationMode::finite_size)
     {
         number_density *= static_cast<float>(m_n_query_points - 1) / static_cast<float>(m_n_query_points);
     }
diff --git a/freud/density/RDF.h b/freud/density/RDF.h
index 317e6a9..12165c1 100644
--- a/freud/density/RDF.h
+++ b/freud/density/RDF.h
@@ -26,9 +26,6 @@ enum class NormalizationMode
 class RDF : public locality::BondHistogramCompute
 {
 public:
-    //! Enum for each normalization mode
-    NormalizationMode mode {NormalizationMode::exact};
-
     //! Constructor
     RDF(unsigned int bins, float r_max, float r_min = 0);
 
@@ -48,6 +45,20 @@ public:
     //! Reduce thread-local arrays onto the primary data arrays.
     void reduce() override;
 
+    //! Get the normalization mode.
+    NormalizationMode getMode() const
+    {
+        return m_mode;
+    }
+
+    //! Set the normalization mode.
+    void setMode(NormalizationMode mode)
+    {
+        m_mode = mode;
+        // Results that were already reduced have to be normalized again.
+        prepareReduction();
+    }
+
     //! Get the positional correlation function.
     std::shared_ptr<util::ManagedArray<float>> getRDF()
     {
@@ -69,6 +80,7 @@ protected:
     void renewResults() override;
 
 private:
+    NormalizationMode m_mode {NormalizationMode::exact}; //!< The normalization mode.
     std::shared_ptr<util::ManagedArray<float>> m_pcf; //!< The computed pair correlation function.
     std::shared_ptr<util::ManagedArray<float>>
         m_N_r; //!< Cumulative bin sum N(r) (the average number of points in a ball of radius r).
diff --git a/freud/density/export-RDF.cc b/freud/density/export-RDF.cc
index 1e9b090..82fa865 100644
--- a/freud/density/export-RDF.cc
+++ b/freud/density/export-RDF.cc
@@ -43,7 +43,7 @@ void export_RDF(nanobind::module_& m)
              nanobind::arg("nlist").none(), nanobind::arg("qargs"))
         .def("getRDF", &RDF::getRDF)
         .def("getNr", &RDF::getNr)
-        .def_rw("mode", &RDF::mode);
+        .def_prop_rw("mode", &RDF::getMode, &RDF::setMode);
 }
 
 } // namespace detail
-- 
2.43.0


From cf24f03955c3085e76f7aa9556a9bb22a74290ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 24/64] fix: do not mark an MSD as computed when its input is
 rejected

---
 freud/msd.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/freud/msd.py b/freud/msd.py
index 21b4aed..e35cbc1 100644
--- a/freud/msd.py
+++ b/freud/msd.py
@@ -194,8 +194,6 @@ class MSD(_Compute):
         if reset:
             self._particle_msd = []
 
-        self._called_compute = True
-
         positions = freud.util._convert_array(positions, shape=(None, None, 3))
         if images is not None:
             images = freud.util._convert_array(
-- 
2.43.0


From a8cdcc58df44613a7a61aaa677801100e4201825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 25/64] fix: do not count neighbors beyond r_max + diameter/2
 in LocalDensity

---
 freud/density/LocalDensity.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/density/LocalDensity.cc b/freud/density/LocalDensity.cc
index 8a09dce..af82384 100644
--- a/freud/density/LocalDensity.cc
+++ b/freud/density/LocalDensity.cc
@@ -60,7 +60,7 @@ void LocalDensity::compute(const std::shared_ptr<locality::NeighborQuery>& neigh
                 {
                     num_neighbors += float(1.0);
                 }
-                else
+                else if (nb.getDistance() < (m_r_max + m_diameter / float(2.0)))
                 {
                     // partially count particles that intersect the r_max sphere
                     // this is not particularly accurate for a single particle, but works well on average for
-- 
2.43.0


From 4925d3d345c5db85372ff473ee65146ef271b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 26/64] fix: visit every grid cell within r_max once in
 GaussianDensity and SphereVoxelization

---
 freud/density/GaussianDensity.cc    | 27 ++++++++++++++++++++-------
 freud/density/SphereVoxelization.cc | 27 ++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/freud/density/GaussianDensity.cc b/freud/density/GaussianDensity.cc
index d28b667..b87923c 100644
--- a/freud/density/GaussianDensity.cc
+++ b/freud/density/GaussianDensity.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <memory>
@@ -81,10 +82,18 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the number of bins on either side whose centers may be within r_max. In periodic
+    // directions, no bin may be visited more than once.
+    const auto bin_cut = [this](float grid_size, unsigned int width, bool is_periodic) {
+        const int cut = int(m_r_max / grid_size) + 1;
+        return is_periodic ? std::min(cut, int(width / 2)) : cut;
+    };
+    const int bin_cut_x = bin_cut(grid_size_x, m_width.x, periodic.x);
+    const int bin_cut_y = bin_cut(grid_size_y, m_width.y, periodic.y);
+    const int bin_cut_z = m_box.is2D() ? 0 : bin_cut(grid_size_z, m_width.z, periodic.z);
+    const auto last_bin = [](int bin, int cut, unsigned int width, bool is_periodic) {
+        return is_periodic ? std::min(bin + cut, bin - cut + int(width) - 1) : bin + cut;
+    };
     const float r_max_sq = m_r_max * m_r_max;
     const float sigmasq = m_sigma * m_sigma;
     const float normalization_base = float(1.0) / std::sqrt(constants::TWO_PI * sigmasq);
@@ -109,9 +118,13 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                 bin_z = 0;
             }
 
+            const int last_x = last_bin(bin_x, bin_cut_x, m_width.x, periodic.x);
+            const int last_y = last_bin(bin_y, bin_cut_y, m_width.y, periodic.y);
+            const int last_z = last_bin(bin_z, bin_cut_z, m_width.z, periodic.z);
+
             // Reject bins that are outside the box in aperiodic directions
             // Only evaluate over bins that are within the cutoff
-            for (int k = bin_z - bin_cut_z; k <= bin_z + bin_cut_z; k++)
+            for (int k = bin_z - bin_cut_z; k <= last_z; k++)
             {
                 if (!periodic.z && (k < 0 || k >= int(m_width.z)))
                 {
@@ -120,7 +133,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                 const float dz = (grid_size_z * static_cast<float>(k)) + (grid_size_z / float(2.0)) - point.z
                     - (Lz / float(2.0));
 
-                for (int j = bin_y - bin_cut_y; j <= bin_y + bin_cut_y; j++)
+                for (int j = bin_y - bin_cut_y; j <= last_y; j++)
                 {
                     if (!periodic.y && (j < 0 || j >= int(m_width.y)))
                     {
@@ -129,7 +142,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                     const float dy = (grid_size_y * static_cast<float>(j)) + (grid_size_y / float(2.0))
                         - point.y - (Ly / float(2.0));
 
-                    for (int i = bin_x - bin_cut_x; i <= bin_x + bin_cut_x; i++)
+                    for (int i = bin_x - bin_cut_x; i <= last_x; i++)
                     {
                         if (!periodic.x && (i < 0 || i >= int(m_width.x)))
                         {
diff --git a/freud/density/SphereVoxelization.cc b/freud/density/SphereVoxelization.cc
index a50cdef..1b4f0b5 100644
--- a/freud/density/SphereVoxelization.cc
+++ b/freud/density/SphereVoxelization.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <stdexcept>
@@ -77,10 +78,18 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the number of bins on either side whose centers may be within r_max. In periodic
+    // directions, no bin may be visited more than once.
+    const auto bin_cut = [this](float grid_size, unsigned int width, bool is_periodic) {
+        const int cut = int(m_r_max / grid_size) + 1;
+        return is_periodic ? std::min(cut, int(width / 2)) : cut;
+    };
+    const int bin_cut_x = bin_cut(grid_size_x, m_width.x, periodic.x);
+    const int bin_cut_y = bin_cut(grid_size_y, m_width.y, periodic.y);
+    const int bin_cut_z = m_box.is2D() ? 0 : bin_cut(grid_size_z, m_width.z, periodic.z);
+    const auto last_bin = [](int bin, int cut, unsigned int width, bool is_periodic) {
+        return is_periodic ? std::min(bin + cut, bin - cut + int(width) - 1) : bin + cut;
+    };
     const float r_max_sq = m_r_max * m_r_max;
 
     util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
@@ -94,9 +103,13 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
             // In 2D, only loop over the z=0 plane
             const int bin_z = m_box.is2D() ? 0 : int((point.z + Lz / float(2.0)) / grid_size_z);
 
+            const int last_x = last_bin(bin_x, bin_cut_x, m_width.x, periodic.x);
+            const int last_y = last_bin(bin_y, bin_cut_y, m_width.y, periodic.y);
+            const int last_z = last_bin(bin_z, bin_cut_z, m_width.z, periodic.z);
+
             // Only evaluate over bins that are within the cutoff, rejecting bins
             // that are outside the box in aperiodic directions.
-            for (int k = bin_z - bin_cut_z; k <= bin_z + bin_cut_z; k++)
+            for (int k = bin_z - bin_cut_z; k <= last_z; k++)
             {
                 if (!periodic.z && (k < 0 || k >= int(m_width.z)))
                 {
@@ -105,7 +118,7 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                 const float dz = (grid_size_z * static_cast<float>(k)) + (grid_size_z / float(2.0)) - point.z
                     - (Lz / float(2.0));
 
-                for (int j = bin_y - bin_cut_y; j <= bin_y + bin_cut_y; j++)
+                for (int j = bin_y - bin_cut_y; j <= last_y; j++)
                 {
                     if (!periodic.y && (j < 0 || j >= int(m_width.y)))
                     {
@@ -114,7 +127,7 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                     const float dy = (grid_size_y * static_cast<float>(j)) + (grid_size_y / float(2.0))
                         - point.y - (Ly / float(2.0));
 
-                    for (int i = bin_x - bin_cut_x; i <= bin_x + bin_cut_x; i++)
+                    for (int i = bin_x - bin_cut_x; i <= last_x; i++)
                     {
                         if (!periodic.x && (i < 0 || i >= int(m_width.x)))
                         {
-- 
2.43.0


From 7ffa7c3639a1468eb59f1912304b7d7723c5edf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 27/64] fix: allocate one volume per bin in RDF, not bins^2 and
 bins^3

---
 freud/density/RDF.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/density/RDF.cc b/freud/density/RDF.cc
index 7fd6407..3fc6518 100644
--- a/freud/density/RDF.cc
+++ b/freud/density/RDF.cc
@@ -49,8 +49,8 @@ RDF::RDF(unsigned int bins, float r_max, float r_min) : BondHistogramCompute()
     m_N_r = std::make_shared<util::ManagedArray<float>>(m_histogram.shape());
 
     // Precompute the cell volumes to speed up later calculations.
-    m_vol_array2D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins, bins});
-    m_vol_array3D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins, bins, bins});
+    m_vol_array2D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins});
+    m_vol_array3D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins});
     const float volume_prefactor = (float(4.0) / float(3.0)) * M_PI;
     std::vector<float> bin_boundaries = getBinEdges()[0];
 
-- 
2.43.0


From 500737fb9e9886de4334ac0c5523e411bc9f9a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 28/64] fix: make bounds and bins of CorrelationFunction and
 bounds of BondOrder readable

---
 freud/density.py                            | 2 +-
 freud/density/export-CorrelationFunction.cc | 2 ++
 freud/environment/export-BondOrder.cc       | 2 ++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/freud/density.py b/freud/density.py
index fb92bb1..320e8a2 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -144,7 +144,7 @@ class CorrelationFunction(_SpatialHistogram1D):
     @property
     def bins(self):
         """int: Number of bins used in the calculation."""
-        return self._cpp_obj.getNBins()
+        return self._cpp_obj.getAxisSizes()[0]
 
     def __repr__(self):
         return (
diff --git a/freud/density/export-CorrelationFunction.cc b/freud/density/export-CorrelationFunction.cc
index a868bd3..14afa76 100644
--- a/freud/density/export-CorrelationFunction.cc
+++ b/freud/density/export-CorrelationFunction.cc
@@ -5,6 +5,7 @@
 #include <memory>
 #include <nanobind/nanobind.h>
 #include <nanobind/ndarray.h>
+#include <nanobind/stl/pair.h>       // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/shared_ptr.h> // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/vector.h>     // NOLINT(misc-include-cleaner): used implicitly
 
@@ -54,6 +55,7 @@ void export_CorrelationFunction(nanobind::module_& m)
         .def("getAxisSizes", &CorrelationFunction::getAxisSizes)
         .def("getBinCounts", &CorrelationFunction::getBinCounts)
         .def("getBinEdges", &CorrelationFunction::getBinEdges)
+        .def("getBounds", &CorrelationFunction::getBounds)
         .def("getBox", &CorrelationFunction::getBox)
         .def("getCorrelation", &CorrelationFunction::getCorrelation);
 }
diff --git a/freud/environment/export-BondOrder.cc b/freud/environment/export-BondOrder.cc
index 8a79b10..ba75f10 100644
--- a/freud/environment/export-BondOrder.cc
+++ b/freud/environment/export-BondOrder.cc
@@ -4,6 +4,7 @@
 #include <memory>
 #include <nanobind/nanobind.h>
 #include <nanobind/ndarray.h>
+#include <nanobind/stl/pair.h>       // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/shared_ptr.h> // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/vector.h>     // NOLINT(misc-include-cleaner): used implicitly
 
@@ -65,6 +66,7 @@ void export_BondOrder(nb::module_& module)
         .def("getBinCounts", &BondOrder::getBinCounts)
         .def("getBinCenters", &BondOrder::getBinCenters)
         .def("getBinEdges", &BondOrder::getBinEdges)
+        .def("getBounds", &BondOrder::getBounds)
         .def("getBox", &BondOrder::getBox)
         .def("getAxisSizes", &BondOrder::getAxisSizes)
         .def("getMode", &BondOrder::getMode)
-- 
2.43.0


From 56c31317feae995011ed132a983e9a57b01ca991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 29/64] fix: include the normalization mode in the repr of an
 RDF

---
 freud/density.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/density.py b/freud/density.py
index 320e8a2..0e33050 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -663,7 +663,8 @@ class RDF(_SpatialHistogram1D):
     def __repr__(self):
         return (
             f"freud.density.{type(self).__name__}(bins={len(self.bin_centers)}, "
-            f"r_max={self.bounds[1]}, r_min={self.bounds[0]})"
+            f"r_max={self.bounds[1]}, r_min={self.bounds[0]}, "
+            f"normalization_mode={self.mode!r})"
         )
 
     def plot(self, ax=None):
-- 
2.43.0


From 3f7f1786a8288db236ce5073c43a60b3c6f98f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:48 +0000
Subject: [PATCH 30/64] fix: use k_min, not NaN, as the only k value of a
 StaticStructureFactorDebye

---
 freud/diffraction/StaticStructureFactorDebye.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/freud/diffraction/StaticStructureFactorDebye.cc b/freud/diffraction/StaticStructureFactorDebye.cc
index 0fc35f3..efb2f15 100644
--- a/freud/diffraction/StaticStructureFactorDebye.cc
+++ b/freud/diffraction/StaticStructureFactorDebye.cc
@@ -28,12 +28,20 @@ namespace {
 //! Given the desired k_max bin center, find the upper edge of the bin.
 float k_max_center_to_upper_edge(unsigned int bins, float k_min, float k_max)
 {
+    // A single value is k_min, as in numpy.linspace.
+    if (bins == 1)
+    {
+        return k_min + (k_max - k_min) / static_cast<float>(2);
+    }
     return k_max + (k_max - k_min) / static_cast<float>(2 * (bins - 1));
 }
 
-//! Given the desired k_min bin center, find the lower edge of the bin.
 float k_min_center_to_lower_edge(unsigned int bins, float k_min, float k_max)
 {
+    if (bins == 1)
+    {
+        return k_min - (k_max - k_min) / static_cast<float>(2);
+    }
     return k_min - (k_max - k_min) / static_cast<float>(2 * (bins - 1));
 }
 } // namespace
-- 
2.43.0


From a0f11d05c491812fe87a49df63718203a5a515ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:23 +0000
Subject: [PATCH 31/64] fix: reject zero extents of PMFTs

---
 freud/pmft/PMFTR12.cc | 2 +-
 freud/pmft/PMFTXY.cc  | 4 ++--
 freud/pmft/PMFTXYT.cc | 4 ++--
 freud/pmft/PMFTXYZ.cc | 6 +++---
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/freud/pmft/PMFTR12.cc b/freud/pmft/PMFTR12.cc
index b8533d9..bc1f8be 100644
--- a/freud/pmft/PMFTR12.cc
+++ b/freud/pmft/PMFTR12.cc
@@ -39,7 +39,7 @@ PMFTR12::PMFTR12(float r_max, unsigned int n_r, unsigned int n_t1, unsigned int
     {
         throw std::invalid_argument("PMFTR12 requires at least 1 bin in T2.");
     }
-    if (r_max < 0)
+    if (r_max <= 0)
     {
         throw std::invalid_argument("PMFTR12 requires that r_max must be positive.");
     }
diff --git a/freud/pmft/PMFTXY.cc b/freud/pmft/PMFTXY.cc
index 80f1905..a6e65cf 100644
--- a/freud/pmft/PMFTXY.cc
+++ b/freud/pmft/PMFTXY.cc
@@ -32,11 +32,11 @@ PMFTXY::PMFTXY(float x_max, float y_max, unsigned int n_x, unsigned int n_y) : P
     {
         throw std::invalid_argument("PMFTXY requires at least 1 bin in Y.");
     }
-    if (x_max < 0)
+    if (x_max <= 0)
     {
         throw std::invalid_argument("PMFTXY requires that x_max must be positive.");
     }
-    if (y_max < 0)
+    if (y_max <= 0)
     {
         throw std::invalid_argument("PMFTXY requires that y_max must be positive.");
     }
diff --git a/freud/pmft/PMFTXYT.cc b/freud/pmft/PMFTXYT.cc
index 2bd3e47..ec70bfc 100644
--- a/freud/pmft/PMFTXYT.cc
+++ b/freud/pmft/PMFTXYT.cc
@@ -39,11 +39,11 @@ PMFTXYT::PMFTXYT(float x_max, float y_max, unsigned int n_x, unsigned int n_y, u
     {
         throw std::invalid_argument("PMFTXYT requires at least 1 bin in T.");
     }
-    if (x_max < 0)
+    if (x_max <= 0)
     {
         throw std::invalid_argument("PMFTXYT requires that x_max must be positive.");
     }
-    if (y_max < 0)
+    if (y_max <= 0)
     {
         throw std::invalid_argument("PMFTXYT requires that y_max must be positive.");
     }
diff --git a/freud/pmft/PMFTXYZ.cc b/freud/pmft/PMFTXYZ.cc
index 4cd2df2..4e689e5 100644
--- a/freud/pmft/PMFTXYZ.cc
+++ b/freud/pmft/PMFTXYZ.cc
@@ -36,15 +36,15 @@ PMFTXYZ::PMFTXYZ(float x_max, float y_max, float z_max, unsigned int n_x, unsign
     {
         throw std::invalid_argument("PMFTXYZ requires at least 1 bin in Z.");
     }
-    if (x_max < 0)
+    if (x_max <= 0)
     {
         throw std::invalid_argument("PMFTXYZ requires that x_max must be positive.");
     }
-    if (y_max < 0)
+    if (y_max <= 0)
     {
         throw std::invalid_argument("PMFTXYZ requires that y_max must be positive.");
     }
-    if (z_max < 0)
+    if (z_max <= 0)
     {
         throw std::invalid_argument("PMFTXYZ requires that z_max must be positive.");
     }
-- 
2.43.0


From c6d433f62fe041deacf9e9e8eab4b7cf0e348a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:38 +0000
Subject: [PATCH 32/64] fix: do not discard the results of an MSD when new
 input is rejected

---
 freud/msd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freud/msd.py b/freud/msd.py
index e35cbc1..6f3e5af 100644
--- a/freud/msd.py
+++ b/freud/msd.py
@@ -191,9 +191,6 @@ class MSD(_Compute):
                 the new computation; if False, will accumulate data (Default
                 value: True).
         """  # noqa: E501
-        if reset:
-            self._particle_msd = []
-
         positions = freud.util._convert_array(positions, shape=(None, None, 3))
         if images is not None:
             images = freud.util._convert_array(
@@ -209,6 +206,9 @@ class MSD(_Compute):
                 )
             positions = unwrapped_positions
 
+        if reset:
+            self._particle_msd = []
+
         if self.mode == "window":
             # First compute the first term r^2(k+m) - r^2(k)
             N = positions.shape[0]
-- 
2.43.0


From 9e999d5b27a1627bc232dbf11d67527371db32f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 33/64] fix: keep directions with a single cell in the shape of
 2D density grids

---
 freud/density.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/density.py b/freud/density.py
index 0e33050..68e7b54 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -264,7 +264,7 @@ class GaussianDensity(_Compute):
         """(:math:`w_x`, :math:`w_y`, :math:`w_z`) :class:`numpy.ndarray`: The
         grid with the Gaussian density contributions from each point."""
         if self.box.is2D:
-            return np.squeeze(self._cpp_obj.density.toNumpyArray())
+            return np.squeeze(self._cpp_obj.density.toNumpyArray(), axis=2)
         return self._cpp_obj.density.toNumpyArray()
 
     @property
@@ -373,7 +373,7 @@ class SphereVoxelization(_Compute):
         voxel grid indicating overlap with the computed spheres."""
         data = self._cpp_obj.voxels.toNumpyArray()
         if self.box.is2D:
-            return np.squeeze(data)
+            return np.squeeze(data, axis=2)
         return data
 
     @property
-- 
2.43.0


From 1cb94dc332abb9939dffdf6f9d516885ceb48080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 34/64] fix: assign contributions to the right grid cells in
 tilted boxes

---
 freud/density/GaussianDensity.cc    | 50 ++++++++++++++++++++------
 freud/density/SphereVoxelization.cc | 54 ++++++++++++++++++++++-------
 2 files changed, 80 insertions(+), 24 deletions(-)

diff --git a/freud/density/GaussianDensity.cc b/freud/density/GaussianDensity.cc
index b87923c..a295493 100644
--- a/freud/density/GaussianDensity.cc
+++ b/freud/density/GaussianDensity.cc
@@ -88,12 +88,35 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
         const int cut = int(m_r_max / grid_size) + 1;
         return is_periodic ? std::min(cut, int(width / 2)) : cut;
     };
-    const int bin_cut_x = bin_cut(grid_size_x, m_width.x, periodic.x);
-    const int bin_cut_y = bin_cut(grid_size_y, m_width.y, periodic.y);
+    int bin_cut_x = bin_cut(grid_size_x, m_width.x, periodic.x);
+    int bin_cut_y = bin_cut(grid_size_y, m_width.y, periodic.y);
     const int bin_cut_z = m_box.is2D() ? 0 : bin_cut(grid_size_z, m_width.z, periodic.z);
     const auto last_bin = [](int bin, int cut, unsigned int width, bool is_periodic) {
         return is_periodic ? std::min(bin + cut, bin - cut + int(width) - 1) : bin + cut;
     };
+    // In tilted boxes, images of a bin across y and z boundaries are shifted along x and y.
+    const auto box_index = [](int bin, unsigned int width) {
+        return std::floor(static_cast<float>(bin) / static_cast<float>(width));
+    };
+    const auto wrap_bin = [](int bin, unsigned int width) {
+        const int w = static_cast<int>(width);
+        return static_cast<unsigned int>(((bin % w) + w) % w);
+    };
+    const float shift_xy = m_box.getTiltFactorXY() * Ly;
+    const float shift_xz = m_box.is2D() ? 0 : m_box.getTiltFactorXZ() * Lz;
+    const float shift_yz = m_box.is2D() ? 0 : m_box.getTiltFactorYZ() * Lz;
+    // When both of a bin's images are equally far away, the closest one depends on the tilt,
+    // so that all the bins of its row are needed.
+    const bool split_z = !m_box.is2D() && periodic.z && 2 * bin_cut_z + 1 > int(m_width.z);
+    if (split_z && shift_yz != 0)
+    {
+        bin_cut_y = int(m_width.y);
+    }
+    const bool split_y = periodic.y && 2 * bin_cut_y + 1 > int(m_width.y);
+    if ((split_z && shift_xz != 0) || (split_y && shift_xy != 0))
+    {
+        bin_cut_x = int(m_width.x);
+    }
     const float r_max_sq = m_r_max * m_r_max;
     const float sigmasq = m_sigma * m_sigma;
     const float normalization_base = float(1.0) / std::sqrt(constants::TWO_PI * sigmasq);
@@ -108,8 +131,6 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
             const float value = (values != nullptr) ? values[idx] : 1.0F;
 
             // Find which bin the particle is in
-            const int bin_x = int((point.x + Lx / float(2.0)) / grid_size_x);
-            const int bin_y = int((point.y + Ly / float(2.0)) / grid_size_y);
             int bin_z = int((point.z + Lz / float(2.0)) / grid_size_z);
 
             // In 2D, only loop over the z=0 plane
@@ -118,8 +139,6 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                 bin_z = 0;
             }
 
-            const int last_x = last_bin(bin_x, bin_cut_x, m_width.x, periodic.x);
-            const int last_y = last_bin(bin_y, bin_cut_y, m_width.y, periodic.y);
             const int last_z = last_bin(bin_z, bin_cut_z, m_width.z, periodic.z);
 
             // Reject bins that are outside the box in aperiodic directions
@@ -133,6 +152,11 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                 const float dz = (grid_size_z * static_cast<float>(k)) + (grid_size_z / float(2.0)) - point.z
                     - (Lz / float(2.0));
 
+                const float box_z = box_index(k, m_width.z);
+                const float y = point.y - (box_z * shift_yz);
+                const int bin_y = int(std::floor((y + Ly / float(2.0)) / grid_size_y));
+                const int last_y = last_bin(bin_y, bin_cut_y, m_width.y, periodic.y);
+
                 for (int j = bin_y - bin_cut_y; j <= last_y; j++)
                 {
                     if (!periodic.y && (j < 0 || j >= int(m_width.y)))
@@ -140,7 +164,11 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                         continue;
                     }
                     const float dy = (grid_size_y * static_cast<float>(j)) + (grid_size_y / float(2.0))
-                        - point.y - (Ly / float(2.0));
+                        - y - (Ly / float(2.0));
+
+                    const float x = point.x - (box_z * shift_xz) - (box_index(j, m_width.y) * shift_xy);
+                    const int bin_x = int(std::floor((x + Lx / float(2.0)) / grid_size_x));
+                    const int last_x = last_bin(bin_x, bin_cut_x, m_width.x, periodic.x);
 
                     for (int i = bin_x - bin_cut_x; i <= last_x; i++)
                     {
@@ -149,7 +177,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                             continue;
                         }
                         const float dx = (grid_size_x * static_cast<float>(i)) + (grid_size_x / float(2.0))
-                            - point.x - (Lx / float(2.0));
+                            - x - (Lx / float(2.0));
 
                         // Calculate the distance from the particle to the grid cell
                         const vec3<float> delta = m_box.wrap(vec3<float>(dx, dy, dz));
@@ -165,9 +193,9 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
 
                             // Assure that out of range indices are corrected for storage
                             // in the array i.e. bin -1 is actually bin 29 for nbins = 30
-                            const auto ni = float((i + m_width.x) % m_width.x);
-                            const auto nj = float((j + m_width.y) % m_width.y);
-                            const auto nk = float((k + m_width.z) % m_width.z);
+                            const auto ni = wrap_bin(i, m_width.x);
+                            const auto nj = wrap_bin(j, m_width.y);
+                            const auto nk = wrap_bin(k, m_width.z);
 
                             // Store the gaussian contribution
                             local_bin_counts.local()(ni, nj, nk) += gaussian;
diff --git a/freud/density/SphereVoxelization.cc b/freud/density/SphereVoxelization.cc
index 1b4f0b5..20f6775 100644
--- a/freud/density/SphereVoxelization.cc
+++ b/freud/density/SphereVoxelization.cc
@@ -2,6 +2,7 @@
 // This file is from the freud project, released under the BSD 3-Clause License.
 
 #include <algorithm>
+#include <cmath>
 #include <cstddef>
 #include <memory>
 #include <stdexcept>
@@ -84,12 +85,35 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
         const int cut = int(m_r_max / grid_size) + 1;
         return is_periodic ? std::min(cut, int(width / 2)) : cut;
     };
-    const int bin_cut_x = bin_cut(grid_size_x, m_width.x, periodic.x);
-    const int bin_cut_y = bin_cut(grid_size_y, m_width.y, periodic.y);
+    int bin_cut_x = bin_cut(grid_size_x, m_width.x, periodic.x);
+    int bin_cut_y = bin_cut(grid_size_y, m_width.y, periodic.y);
     const int bin_cut_z = m_box.is2D() ? 0 : bin_cut(grid_size_z, m_width.z, periodic.z);
     const auto last_bin = [](int bin, int cut, unsigned int width, bool is_periodic) {
         return is_periodic ? std::min(bin + cut, bin - cut + int(width) - 1) : bin + cut;
     };
+    // In tilted boxes, images of a bin across y and z boundaries are shifted along x and y.
+    const auto box_index = [](int bin, unsigned int width) {
+        return std::floor(static_cast<float>(bin) / static_cast<float>(width));
+    };
+    const auto wrap_bin = [](int bin, unsigned int width) {
+        const int w = static_cast<int>(width);
+        return static_cast<unsigned int>(((bin % w) + w) % w);
+    };
+    const float shift_xy = m_box.getTiltFactorXY() * Ly;
+    const float shift_xz = m_box.is2D() ? 0 : m_box.getTiltFactorXZ() * Lz;
+    const float shift_yz = m_box.is2D() ? 0 : m_box.getTiltFactorYZ() * Lz;
+    // When both of a bin's images are equally far away, the closest one depends on the tilt,
+    // so that all the bins of its row are needed.
+    const bool split_z = !m_box.is2D() && periodic.z && 2 * bin_cut_z + 1 > int(m_width.z);
+    if (split_z && shift_yz != 0)
+    {
+        bin_cut_y = int(m_width.y);
+    }
+    const bool split_y = periodic.y && 2 * bin_cut_y + 1 > int(m_width.y);
+    if ((split_z && shift_xz != 0) || (split_y && shift_xy != 0))
+    {
+        bin_cut_x = int(m_width.x);
+    }
     const float r_max_sq = m_r_max * m_r_max;
 
     util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
@@ -97,14 +121,9 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
         for (size_t idx = begin; idx < end; ++idx)
         {
             const vec3<float> point = (*neighbor_query)[idx];
-            // Find which bin the particle is in
-            const int bin_x = int((point.x + Lx / float(2.0)) / grid_size_x);
-            const int bin_y = int((point.y + Ly / float(2.0)) / grid_size_y);
-            // In 2D, only loop over the z=0 plane
+            // Find which bin the particle is in. In 2D, only loop over the z=0 plane
             const int bin_z = m_box.is2D() ? 0 : int((point.z + Lz / float(2.0)) / grid_size_z);
 
-            const int last_x = last_bin(bin_x, bin_cut_x, m_width.x, periodic.x);
-            const int last_y = last_bin(bin_y, bin_cut_y, m_width.y, periodic.y);
             const int last_z = last_bin(bin_z, bin_cut_z, m_width.z, periodic.z);
 
             // Only evaluate over bins that are within the cutoff, rejecting bins
@@ -118,6 +137,11 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                 const float dz = (grid_size_z * static_cast<float>(k)) + (grid_size_z / float(2.0)) - point.z
                     - (Lz / float(2.0));
 
+                const float box_z = box_index(k, m_width.z);
+                const float y = point.y - (box_z * shift_yz);
+                const int bin_y = int(std::floor((y + Ly / float(2.0)) / grid_size_y));
+                const int last_y = last_bin(bin_y, bin_cut_y, m_width.y, periodic.y);
+
                 for (int j = bin_y - bin_cut_y; j <= last_y; j++)
                 {
                     if (!periodic.y && (j < 0 || j >= int(m_width.y)))
@@ -125,7 +149,11 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                         continue;
                     }
                     const float dy = (grid_size_y * static_cast<float>(j)) + (grid_size_y / float(2.0))
-                        - point.y - (Ly / float(2.0));
+                        - y - (Ly / float(2.0));
+
+                    const float x = point.x - (box_z * shift_xz) - (box_index(j, m_width.y) * shift_xy);
+                    const int bin_x = int(std::floor((x + Lx / float(2.0)) / grid_size_x));
+                    const int last_x = last_bin(bin_x, bin_cut_x, m_width.x, periodic.x);
 
                     for (int i = bin_x - bin_cut_x; i <= last_x; i++)
                     {
@@ -134,7 +162,7 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                             continue;
                         }
                         const float dx = ((grid_size_x * static_cast<float>(i)) + (grid_size_x / 2.0F)
-                                          - point.x - (Lx / float(2.0)));
+                                          - x - (Lx / float(2.0)));
 
                         // Calculate the distance from the particle to the grid cell
                         const vec3<float> delta = m_box.wrap(vec3<float>(dx, dy, dz));
@@ -146,9 +174,9 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                         {
                             // Assure that out of range indices are corrected for storage
                             // in the array i.e. bin -1 is actually bin 29 for nbins = 30
-                            const unsigned int ni = (i + m_width.x) % m_width.x;
-                            const unsigned int nj = (j + m_width.y) % m_width.y;
-                            const unsigned int nk = (k + m_width.z) % m_width.z;
+                            const unsigned int ni = wrap_bin(i, m_width.x);
+                            const unsigned int nj = wrap_bin(j, m_width.y);
+                            const unsigned int nk = wrap_bin(k, m_width.z);
 
                             // This array value could be written by multiple threads in parallel.
                             // This is only safe because all threads are writing the same value (1).
-- 
2.43.0


From 562399cf5b5e2b69daee2465f5f2c749a2b6f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:19 +0000
Subject: [PATCH 35/64] fix: use each point's own mass for the centers of mass
 of clusters

---
 freud/cluster/ClusterProperties.cc | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/freud/cluster/ClusterProperties.cc b/freud/cluster/ClusterProperties.cc
index 0274e3d..d083f44 100644
--- a/freud/cluster/ClusterProperties.cc
+++ b/freud/cluster/ClusterProperties.cc
@@ -46,6 +46,7 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
 
     // Create a vector to store cluster points, used to compute center of mass
     std::vector<std::vector<vec3<float>>> cluster_points(num_clusters, std::vector<vec3<float>>());
+    std::vector<std::vector<float>> cluster_point_masses(num_clusters, std::vector<float>());
 
     // Start by determining the center of mass of each cluster. Since we are
     // given an array of points, the easiest way to do this is to loop over
@@ -57,24 +58,16 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
         cluster_points[c].push_back((*nq)[i]);
         (*m_cluster_sizes)[c]++;
         float const mass = (masses != nullptr) ? masses[i] : float(1.0);
+        cluster_point_masses[c].push_back(mass);
         (*m_cluster_masses)[c] += mass;
     }
 
     // Now that we have located all of the cluster vectors, compute the centers
-    const float* cluster_point_masses = masses;
     for (unsigned int c = 0; c < num_clusters; c++)
     {
         (*m_cluster_centers)[c] = nq->getBox().centerOfMass(cluster_points[c].data(), (*m_cluster_sizes)[c]);
         (*m_cluster_centers_of_mass)[c] = nq->getBox().centerOfMass(
-            cluster_points[c].data(), (*m_cluster_sizes)[c], cluster_point_masses);
-        if (masses == nullptr)
-        {
-            cluster_point_masses = nullptr;
-        }
-        else
-        {
-            cluster_point_masses = cluster_point_masses + (*m_cluster_sizes)[c];
-        }
+            cluster_points[c].data(), (*m_cluster_sizes)[c], cluster_point_masses[c].data());
     }
 
     // Now that we have determined the centers of mass for each cluster, tally
-- 
2.43.0


From 1dcaed1008cf412449cece0e1e5dac82cfd918af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 36/64] fix: center of mass in aperiodic directions is the
 plain mean

---
 freud/box/Box.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 984be36..014950b 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -373,21 +373,29 @@ public:
         // https://en.wikipedia.org/wiki/Center_of_mass#Systems_with_periodic_boundary_conditions
         float total_mass(0);
         vec3<std::complex<float>> xi_mean;
+        vec3<float> fractional_mean;
 
         for (size_t i = 0; i < Nvecs; ++i)
         {
-            vec3<float> const phase(constants::TWO_PI * makeFractional(vecs[i]));
+            vec3<float> const fractional = makeFractional(vecs[i]);
+            vec3<float> const phase(constants::TWO_PI * fractional);
             vec3<std::complex<float>> const xi(std::polar(float(1.0), phase.x),
                                                std::polar(float(1.0), phase.y),
                                                std::polar(float(1.0), phase.z));
             float const mass = (masses != nullptr) ? masses[i] : float(1.0);
             total_mass += mass;
             xi_mean += std::complex<float>(mass, 0) * xi;
+            fractional_mean += mass * fractional;
         }
         xi_mean /= std::complex<float>(total_mass, 0);
 
-        return wrap(makeAbsolute(vec3<float>(std::arg(xi_mean.x), std::arg(xi_mean.y), std::arg(xi_mean.z))
-                                 / constants::TWO_PI));
+        // There are no periodic images in aperiodic directions
+        vec3<float> fraction
+            = vec3<float>(std::arg(xi_mean.x), std::arg(xi_mean.y), std::arg(xi_mean.z)) / constants::TWO_PI;
+        fraction.x = m_periodic.x ? fraction.x : fractional_mean.x / total_mass;
+        fraction.y = m_periodic.y ? fraction.y : fractional_mean.y / total_mass;
+        fraction.z = m_periodic.z ? fraction.z : fractional_mean.z / total_mass;
+        return wrap(makeAbsolute(fraction));
     }
 
     //! Subtract center of mass from vectors
-- 
2.43.0


From 0c4622f5a2cd0a88dd02e837f7498b5a4a7fa584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 37/64] fix: keep directions with a single bin in the shape of
 PMFTXY.bin_counts

---
 freud/pmft.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/freud/pmft.py b/freud/pmft.py
index 8f8592d..9f6b329 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -417,14 +417,6 @@ class PMFTXY(_PMFT):
         )
         return self
 
-    @_Compute._computed_property
-    def bin_counts(self):
-        """:class:`numpy.ndarray`: The bin counts in the histogram."""
-        # Currently the parent function returns a 3D array that must be
-        # squeezed due to the internal choices in the histogramming; this will
-        # be fixed in future changes.
-        return np.squeeze(super().bin_counts)
-
     def __repr__(self):
         bounds = self.bounds
         return ("freud.pmft.{cls}(x_max={x_max}, y_max={y_max}, bins=({bins}))").format(
-- 
2.43.0


From 534b565a129fc7459a2e363b2365b2f243080813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:34 +0000
Subject: [PATCH 38/64] fix: center PMFTXYZ at shiftvec, also when given a
 NeighborList

---
 freud/pmft.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/freud/pmft.py b/freud/pmft.py
index 9f6b329..841c43f 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -547,7 +547,17 @@ class PMFTXYZ(_PMFT):
         nq, nlist, qargs, query_points, num_query_points = self._preprocess_arguments(
             system, query_points, neighbors
         )
-        query_points = query_points - self.shiftvec.reshape(1, 3)
+        shiftvec = self.shiftvec.reshape(1, 3)
+        query_points = nq.box.wrap(query_points + shiftvec)
+        if isinstance(neighbors, freud.locality.NeighborList) and shiftvec.any():
+            nlist = freud.locality.NeighborList.from_arrays(
+                nlist.num_query_points,
+                nlist.num_points,
+                nlist.query_point_indices,
+                nlist.point_indices,
+                nlist.vectors - shiftvec,
+                nlist.weights,
+            )
 
         query_orientations = freud.util._convert_array(
             np.atleast_1d(query_orientations), shape=(num_query_points, 4)
-- 
2.43.0


From 6deb54e21d50f01a7c3d18fb678ccfe0d9fead17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:18 +0000
Subject: [PATCH 39/64] fix: factorials of RotationalAutocorrelation overflowed
 for l >= 10

---
 freud/order/RotationalAutocorrelation.cc | 47 ++++++++++++------------
 freud/order/RotationalAutocorrelation.h  |  8 ++--
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/freud/order/RotationalAutocorrelation.cc b/freud/order/RotationalAutocorrelation.cc
index 82cc4d8..c82fc92 100644
--- a/freud/order/RotationalAutocorrelation.cc
+++ b/freud/order/RotationalAutocorrelation.cc
@@ -23,13 +23,13 @@ namespace freud { namespace order {
 // serves as a micro-optimization since std::pow can be slow. We can take the
 // exponent to be an unsigned int since all the sums in the hyperspherical
 // harmonic below guarantee this.
-inline std::complex<float> cpow(std::complex<float> base, unsigned int p)
+inline std::complex<double> cpow(std::complex<double> base, unsigned int p)
 {
     if (p == 0)
     {
         return {1, 0};
     }
-    std::complex<float> val(base);
+    std::complex<double> val(base);
     for (unsigned int i = 1; i < p; i++)
     {
         val *= base;
@@ -37,21 +37,20 @@ inline std::complex<float> cpow(std::complex<float> base, unsigned int p)
     return val;
 }
 
-inline std::complex<float> RotationalAutocorrelation::hypersphere_harmonic(const std::complex<float> xi,
-                                                                           std::complex<float> zeta,
-                                                                           const unsigned int m1,
-                                                                           const unsigned int m2)
+inline std::complex<double> RotationalAutocorrelation::hypersphere_harmonic(const std::complex<double> xi,
+                                                                            std::complex<double> zeta,
+                                                                            const unsigned int m1,
+                                                                            const unsigned int m2)
 {
-    const std::complex<float> xi_conj = std::conj(xi);
-    const std::complex<float> zeta_conj = std::conj(zeta);
+    const std::complex<double> xi_conj = std::conj(xi);
+    const std::complex<double> zeta_conj = std::conj(zeta);
 
     // Doing a summation over non-negative exponents, which requires the additional inner conditional.
-    std::complex<float> sum_tracker(0, 0);
+    std::complex<double> sum_tracker(0, 0);
     for (unsigned int k = (m1 + m2 < m_l ? 0 : m1 + m2 - m_l); k <= std::min(m1, m2); k++)
     {
-        const float fact_product = static_cast<float>((*m_factorials)[k])
-            * static_cast<float>((*m_factorials)[m_l + k - m1 - m2])
-            * static_cast<float>((*m_factorials)[m1 - k]) * static_cast<float>((*m_factorials)[m2 - k]);
+        const double fact_product = (*m_factorials)[k] * (*m_factorials)[m_l + k - m1 - m2]
+            * (*m_factorials)[m1 - k] * (*m_factorials)[m2 - k];
         sum_tracker += cpow(xi_conj, k) * cpow(zeta, m2 - k) * cpow(zeta_conj, m1 - k)
             * cpow(-xi, m_l + k - m1 - m2) / fact_product;
     }
@@ -67,18 +66,17 @@ void RotationalAutocorrelation::compute(const quat<float>* ref_orientations, con
     // default quaternion constructor gives a unit quaternion. We will assume
     // the same iteration order here as in the loop below to save ourselves
     // from having to use a more expensive process (i.e. a map).
-    const std::complex<float> xi = std::complex<float>(0, 0);
-    const std::complex<float> zeta = std::complex<float>(0, 1);
-    std::vector<std::complex<float>> unit_harmonics;
-    std::vector<std::vector<float>> prefactors(m_l + 1, std::vector<float>(m_l + 1, float(0)));
+    const std::complex<double> xi = std::complex<double>(0, 0);
+    const std::complex<double> zeta = std::complex<double>(0, 1);
+    std::vector<std::complex<double>> unit_harmonics;
+    std::vector<std::vector<double>> prefactors(m_l + 1, std::vector<double>(m_l + 1, 0));
     for (unsigned int a = 0; a <= m_l; a++)
     {
         for (unsigned int b = 0; b <= m_l; b++)
         {
             unit_harmonics.push_back(std::conj(hypersphere_harmonic(xi, zeta, a, b)));
-            prefactors[a][b] = static_cast<float>((*m_factorials)[a] * (*m_factorials)[m_l - a]
-                                                  * (*m_factorials)[b] * (*m_factorials)[m_l - b])
-                / (static_cast<float>(m_l + 1));
+            prefactors[a][b] = (*m_factorials)[a] * (*m_factorials)[m_l - a] * (*m_factorials)[b]
+                * (*m_factorials)[m_l - b] / (m_l + 1);
         }
     }
 
@@ -88,22 +86,23 @@ void RotationalAutocorrelation::compute(const quat<float>* ref_orientations, con
         {
             // Transform the orientation quaternions into Xi/Zeta coordinates;
             const quat<float> qq_1 = conj(ref_orientations[i]) * orientations[i];
-            const std::complex<float> xi = std::complex<float>(qq_1.v.x, qq_1.v.y);
-            const std::complex<float> zeta = std::complex<float>(qq_1.v.z, qq_1.s);
+            const std::complex<double> xi = std::complex<double>(qq_1.v.x, qq_1.v.y);
+            const std::complex<double> zeta = std::complex<double>(qq_1.v.z, qq_1.s);
 
             // Loop through the valid quantum numbers.
-            (*m_RA_array)[i] = std::complex<float>(0, 0);
+            std::complex<double> total(0, 0);
             unsigned int uh_index = 0;
             for (unsigned int a = 0; a <= m_l; a++)
             {
                 for (unsigned int b = 0; b <= m_l; b++)
                 {
-                    const std::complex<float> combined_value
+                    const std::complex<double> combined_value
                         = unit_harmonics[uh_index] * hypersphere_harmonic(xi, zeta, a, b);
-                    (*m_RA_array)[i] += prefactors[a][b] * combined_value;
+                    total += prefactors[a][b] * combined_value;
                     uh_index += 1;
                 }
             }
+            (*m_RA_array)[i] = std::complex<float>(total);
         }
     });
 
diff --git a/freud/order/RotationalAutocorrelation.h b/freud/order/RotationalAutocorrelation.h
index e15f958..8a25aa7 100644
--- a/freud/order/RotationalAutocorrelation.h
+++ b/freud/order/RotationalAutocorrelation.h
@@ -56,7 +56,7 @@ public:
     {
         // For efficiency, we precompute all required factorials for use during
         // the per-particle computation.
-        m_factorials = std::make_shared<util::ManagedArray<unsigned int>>(m_l + 1);
+        m_factorials = std::make_shared<util::ManagedArray<double>>(m_l + 1);
         (*m_factorials)[0] = 1;
         for (unsigned int i = 1; i <= m_l; i++)
         {
@@ -116,14 +116,14 @@ private:
      *  method to access the cached factorial values for the class's value of
      *  m_l.
      */
-    std::complex<float> hypersphere_harmonic(const std::complex<float> xi, std::complex<float> zeta,
-                                             const unsigned int m1, const unsigned int m2);
+    std::complex<double> hypersphere_harmonic(const std::complex<double> xi, std::complex<double> zeta,
+                                              const unsigned int m1, const unsigned int m2);
 
     unsigned int m_l; //!< Order of the hyperspherical harmonic.
     float m_Ft {0};   //!< Real value of calculated RA function.
 
     std::shared_ptr<util::ManagedArray<std::complex<float>>> m_RA_array; //!< Array of RA values per particle
-    std::shared_ptr<util::ManagedArray<unsigned int>> m_factorials;      //!< Array of cached factorials
+    std::shared_ptr<util::ManagedArray<double>> m_factorials;            //!< Array of cached factorials
 };
 
 }; }; // end namespace freud::order
-- 
2.43.0


From 62e63f4b09192355b81cc935d7bf4cb10925a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:31 +0000
Subject: [PATCH 40/64] fix: Hexatic uses the bond vectors of its neighbors

---
 freud/order/HexaticTranslational.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freud/order/HexaticTranslational.cc b/freud/order/HexaticTranslational.cc
index b9be60e..887b306 100644
--- a/freud/order/HexaticTranslational.cc
+++ b/freud/order/HexaticTranslational.cc
@@ -36,12 +36,11 @@ void HexaticTranslational<T>::computeGeneral(Func func, const std::shared_ptr<lo
         points, points->getPoints(), Np, qargs, nlist,
         [&](size_t i, const std::shared_ptr<freud::locality::NeighborPerPointIterator>& ppiter) {
             float total_weight(0);
-            const vec3<float> ref((*points)[i]);
 
             for (freud::locality::NeighborBond nb = ppiter->next(); !ppiter->end(); nb = ppiter->next())
             {
                 // Compute vector from query_point to point
-                const vec3<float> delta = box.wrap((*points)[nb.getPointIdx()] - ref);
+                const vec3<float> delta(nb.getVector());
                 const float weight(m_weighted ? nb.getWeight() : 1.0);
 
                 // Compute psi for this vector
-- 
2.43.0


From ea1b0135f34e21cca80898f95e2c74b263191fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 41/64] fix: k_vectors of a rotated DiffractionPattern are
 those of the pattern

---
 freud/diffraction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 609818b..3bb4190 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -827,7 +827,9 @@ class DiffractionPattern(_Compute):
         k-vectors."""
         if not self._k_vectors_cached:
             self._k_vectors = (
-                rowan.rotate(self._view_orientation, self._k_vectors_orig)
+                rowan.rotate(
+                    rowan.conjugate(self._view_orientation), self._k_vectors_orig
+                )
                 * self._k_scale_factor
             )
             self._k_vectors_cached = True
-- 
2.43.0


From 0539ace8ae0c73476438dbc03381bb58c5399b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 42/64] fix: project the box vectors of a DiffractionPattern,
 not the rows of the box matrix

---
 freud/diffraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 3bb4190..ccebc00 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -589,7 +589,8 @@ class DiffractionPattern(_Compute):
                 Inverse shear matrix.
         """
         # Rotate the box matrix by the view orientation.
-        box_matrix = rowan.rotate(view_orientation, box.to_matrix())
+        # The box vectors are the columns of the box matrix.
+        box_matrix = rowan.rotate(view_orientation, box.to_matrix().T).T
 
         # Compute normals for each box face.
         # The area of the face is the length of the vector.
-- 
2.43.0


From 7e4b06b7632255ca926e90d4a16a43d15e506dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 43/64] fix: map lattice frequencies of a turned
 DiffractionPattern to its pixels

---
 freud/diffraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index ccebc00..5846e2d 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -655,8 +655,8 @@ class DiffractionPattern(_Compute):
         # Then shift using ss
         shear_matrix = np.array(
             [
-                [ss[1, 0], ss[0, 0], roll_shift],
-                [ss[1, 1], ss[0, 1], roll_shift],
+                [ss[0, 1], ss[1, 1], roll_shift],
+                [ss[0, 0], ss[1, 0], roll_shift],
                 [0, 0, 1],
             ]
         )
-- 
2.43.0


From d423ed79d8aef4db0c92e317312778884d7ad640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 44/64] fix: compute windowed MSDs from displacements in double
 precision

---
 freud/msd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freud/msd.py b/freud/msd.py
index 6f3e5af..294aef1 100644
--- a/freud/msd.py
+++ b/freud/msd.py
@@ -210,6 +210,11 @@ class MSD(_Compute):
             self._particle_msd = []
 
         if self.mode == "window":
+            # The terms below cancel, so compute them from displacements and in
+            # double precision.
+            positions = positions.astype(np.float64)
+            positions -= positions[[0], :, :]
+
             # First compute the first term r^2(k+m) - r^2(k)
             N = positions.shape[0]
             D = np.square(positions).sum(axis=2)
-- 
2.43.0


From 4a54cb41898250405e989120d969d805a1f18522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 45/64] fix: read tilted boxes of MDAnalysis, whose box vectors
 are rows

---
 freud/locality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/locality.py b/freud/locality.py
index 20b941c..e5a20db 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -321,7 +321,8 @@ class NeighborQuery:
             "MDAnalysis.coordinates.base.Timestep",
             "MDAnalysis.coordinates.timestep.Timestep",
         ):
-            system = (system.triclinic_dimensions, system.positions)
+            # The rows of MDAnalysis's matrix are the box vectors.
+            system = (system.triclinic_dimensions.T, system.positions)
 
         # GSD and HOOMD-blue 3 snapshot compatibility
         elif _match_class_path(
-- 
2.43.0


From 53059079d144fd5faca7e49b1d9a74d9a81bc90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 46/64] fix: accept every system in Interface and
 PeriodicBuffer

---
 freud/locality.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/freud/locality.py b/freud/locality.py
index e5a20db..49bdd25 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -799,11 +799,7 @@ def _make_default_nq(neighbor_query):
             :class:`_RawPoints` built from an inferred :code:`box` and
             :code:`points`.
     """
-    if not isinstance(neighbor_query, NeighborQuery):
-        nq = _RawPoints(*neighbor_query)
-    else:
-        nq = neighbor_query
-    return nq
+    return NeighborQuery.from_system(neighbor_query)
 
 
 def _make_default_nlist(system, neighbors, query_points=None):
-- 
2.43.0


From 7cbca0a81943e474a477a15cbe45550c3b97a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 47/64] fix: refuse to search for 0 neighbors, which crashed
 LinkCell

---
 freud/locality/NeighborQuery.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freud/locality/NeighborQuery.h b/freud/locality/NeighborQuery.h
index 148e52d..49da919 100644
--- a/freud/locality/NeighborQuery.h
+++ b/freud/locality/NeighborQuery.h
@@ -216,6 +216,10 @@ protected:
                 throw std::runtime_error("You must set num_neighbors in the query arguments when performing "
                                          "number of neighbor queries.");
             }
+            if (args.num_neighbors == 0)
+            {
+                throw std::invalid_argument("The num_neighbors query argument must be positive.");
+            }
             if (args.r_max == DEFAULT_R_MAX)
             {
                 args.r_max = std::numeric_limits<float>::infinity();
-- 
2.43.0


From 9b3005ca17acfda4ffd96afda244c99bb8120193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:05 +0000
Subject: [PATCH 48/64] fix: FilterRAD blocks neighbors by the vectors of the
 list it filters

The blocking angle was computed from the nearest image of the two points,
whatever image the bond goes to, while the distances were those of the bond.
---
 freud/locality/FilterRAD.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 131bc55..8088c32 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -43,8 +43,6 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     std::vector<unsigned int> unfilled_qps(sorted_nlist.getNumQueryPoints(),
                                            std::numeric_limits<unsigned int>::max());
 
-    const auto& points = nq->getPoints();
-    const auto& box = nq->getBox();
     const auto& sorted_neighbors = *sorted_nlist.getNeighbors();
     const auto& sorted_dist = *sorted_nlist.getDistances();
     const auto& sorted_vecs = *sorted_nlist.getVectors();
@@ -68,14 +66,14 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
             for (unsigned int j = 0; j < num_unfiltered_neighbors; j++)
             {
                 const auto first_neighbor_idx = sorted_neighbors(first_idx + j, 1);
-                const auto v1 = box.wrap(query_points[i] - points[first_neighbor_idx]);
+                const auto v1 = sorted_vecs(first_idx + j);
                 good_neighbor = true;
 
                 // loop over particles which may be blocking the neighbor j
                 for (unsigned int k = 0; k < j; k++)
                 {
                     const auto second_neighbor_idx = sorted_neighbors(first_idx + k, 1);
-                    const auto v2 = box.wrap(query_points[i] - points[second_neighbor_idx]);
+                    const auto v2 = sorted_vecs(first_idx + k);
                     const float first_neighbor_radius = points_radii[first_neighbor_idx];
                     const float second_neighbor_radius = points_radii[second_neighbor_idx];
                     const float first_neighbor_radius_sq = first_neighbor_radius * first_neighbor_radius;
-- 
2.43.0


From d5ef62e04008aac8a0384ebba53fd4f20cfebe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:00 +0000
Subject: [PATCH 49/64] fix: CellQuery refuses boxes that are not periodic, as
 the other finders do

It returned pairs across the faces of directions without images.
---
 freud/locality/CellQuery.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index c736a9f..bebe502 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -17,6 +17,13 @@ namespace freud::locality {
 std::shared_ptr<NeighborQueryIterator>
 CellQuery::query(const vec3<float>* query_points, unsigned int n_query_points, QueryArgs query_args) const
 {
+    // pair calculations using non-periodic boxes should fail
+    vec3<bool> const periodic = m_box.getPeriodic();
+    if (!(periodic.x && periodic.y && periodic.z))
+    {
+        throw std::domain_error("Pair queries in a non-periodic box are not implemented.");
+    }
+
     this->validateQueryArgs(query_args);
     // SAFETY: This lazy initialization can cause UB if `CellQuery.query` is
     // called in a parallel loop. This  never occurs as of writing this method,
-- 
2.43.0


From 49ced7083174b8855f83a23250ad15151d498550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:35 +0000
Subject: [PATCH 50/64] fix: PMFTXY.plot drew x along the vertical axis

---
 freud/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/plot.py b/freud/plot.py
index 1d81f80..bbd5e0f 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -361,7 +361,7 @@ def pmft_plot(pmft, ax=None, cmap="viridis"):
     cax = ax_divider.append_axes("right", size="7%", pad="10%")
 
     im = ax.imshow(
-        np.flipud(pmft_arr),
+        np.flipud(pmft_arr.T),
         extent=[xlims[0], xlims[1], ylims[0], ylims[1]],
         interpolation="nearest",
         cmap=cmap,
-- 
2.43.0


From 9b8bc64a992bc07478df00d48f6e8d2d941dbb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:35 +0000
Subject: [PATCH 51/64] fix: plots of boxes and systems ignored their title
 and, in 3D, other arguments

---
 freud/box.py      | 8 ++++----
 freud/locality.py | 2 +-
 freud/plot.py     | 8 ++++++--
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/freud/box.py b/freud/box.py
index 6b5ec40..0033c86 100644
--- a/freud/box.py
+++ b/freud/box.py
@@ -743,10 +743,10 @@ class Box:  # noqa: PLW1641
             image = [0, 0, 0]
         return freud.plot.box_plot(
             self,
-            title=title,
-            ax=ax,
-            image=image,
-            *args,  # noqa: B026 - it works
+            title,
+            ax,
+            image,
+            *args,
             **kwargs,
         )
 
diff --git a/freud/locality.py b/freud/locality.py
index 49bdd25..f6898d9 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -438,7 +438,7 @@ class NeighborQuery:
         """
         if not _HAS_MPL:
             raise ImportError(msg_mpl)
-        return freud.plot.system_plot(self, ax=ax, title=title, *args, **kwargs)  # noqa: B026 - it works
+        return freud.plot.system_plot(self, title, ax, *args, **kwargs)
 
 
 class NeighborList:
diff --git a/freud/plot.py b/freud/plot.py
index bbd5e0f..c1e0cf5 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -141,9 +141,9 @@ def box_plot(box, title=None, ax=None, image=None, *args, **kwargs):
             corners[[2, 6]],
             corners[[3, 7]],
         ]
+        color = kwargs.pop("color", "k")
         for path in paths:
-            color = kwargs.pop("color", "k")
-            ax.plot(path[:, 0], path[:, 1], path[:, 2], color=color)
+            ax.plot(path[:, 0], path[:, 1], path[:, 2], *args, color=color, **kwargs)
         ax.set_xlabel("$x$")
         ax.set_ylabel("$y$")
         ax.set_zlabel("$z$")
@@ -154,6 +154,8 @@ def box_plot(box, title=None, ax=None, image=None, *args, **kwargs):
         ]
         _set_3d_axes_equal(ax, limits)
 
+    if title is not None:
+        ax.set_title(title)
     return ax
 
 
@@ -204,6 +206,8 @@ def system_plot(system, title=None, ax=None, *args, **kwargs):
         ]
         _set_3d_axes_equal(ax, limits=limits)
 
+    if title is not None:
+        ax.set_title(title)
     return ax, sc
 
 
-- 
2.43.0


From 60f6216c2e9e299946e43d5ef380af6f78138f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:40 +0000
Subject: [PATCH 52/64] fix: DiffractionPattern's entries were those of the k
 vectors with x and y swapped

diffraction[i, j] belongs to k_vectors[i, j]; the plot showed k_y downwards.
---
 freud/diffraction.py | 4 ++--
 freud/plot.py        | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 5846e2d..d925a2d 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -655,8 +655,8 @@ class DiffractionPattern(_Compute):
         # Then shift using ss
         shear_matrix = np.array(
             [
-                [ss[0, 1], ss[1, 1], roll_shift],
                 [ss[0, 0], ss[1, 0], roll_shift],
+                [ss[0, 1], ss[1, 1], roll_shift],
                 [0, 0, 1],
             ]
         )
@@ -867,7 +867,7 @@ class DiffractionPattern(_Compute):
             vmax = 0.7 * self.N_points
         norm = matplotlib.colors.LogNorm(vmin=vmin, vmax=vmax)
         cmap = matplotlib.colormaps[cmap]
-        image = cmap(norm(np.clip(self.diffraction, vmin, vmax)))
+        image = cmap(norm(np.clip(self.diffraction.T, vmin, vmax)))
         return (image * 255).astype(np.uint8)
 
     def plot(self, ax=None, cmap="afmhot", vmin=None, vmax=None):
diff --git a/freud/plot.py b/freud/plot.py
index c1e0cf5..36bfc6c 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -553,7 +553,8 @@ def diffraction_plot(
     norm = matplotlib.colors.LogNorm(vmin=vmin, vmax=vmax)
     extent = (np.min(k_values), np.max(k_values), np.min(k_values), np.max(k_values))
     im = ax.imshow(
-        np.clip(diffraction, vmin, vmax),
+        np.clip(diffraction.T, vmin, vmax),
+        origin="lower",
         interpolation="nearest",
         cmap=cmap,
         norm=norm,
-- 
2.43.0


From 792c975168ac7cb5e1d63fc57ff7dfa5c63fdcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 53/64] fix: RotationalAutocorrelation accepts lists like every
 other compute

---
 freud/order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/order.py b/freud/order.py
index b6e014c..54728c6 100644
--- a/freud/order.py
+++ b/freud/order.py
@@ -858,6 +858,8 @@ class RotationalAutocorrelation(_Compute):
             orientations ((:math:`N_{orientations}`, 4) :class:`numpy.ndarray`):
                 Orientations for the frame of interest.
         """
+        ref_orientations = freud.util._convert_array(ref_orientations, shape=(None, 4))
+        orientations = freud.util._convert_array(orientations, shape=(None, 4))
         assert len(ref_orientations) == len(orientations), (
             "orientations and ref_orientations must have the same shape."
         )
-- 
2.43.0


From 6a1aac00afbe52d87b102d534b278635aea94de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:47 +0000
Subject: [PATCH 54/64] fix: Steinhardt ignored the vectors of its neighbors'
 bonds

---
 freud/order/Steinhardt.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freud/order/Steinhardt.cc b/freud/order/Steinhardt.cc
index c03ba47..cf8c8eb 100644
--- a/freud/order/Steinhardt.cc
+++ b/freud/order/Steinhardt.cc
@@ -137,7 +137,6 @@ void Steinhardt::baseCompute(const std::shared_ptr<freud::locality::NeighborList
         points, points->getPoints(), m_Np, qargs, nlist,
         [&](size_t i, const std::shared_ptr<freud::locality::NeighborPerPointIterator>& ppiter) {
             float total_weight(0);
-            const vec3<float> ref((*points)[i]);
             // Construct PointSPHEvaluator outside loop since the construction is costly.
             auto max_l = *std::max_element(m_ls.begin(), m_ls.end());
             fsph::PointSPHEvaluator<float> sph_eval(max_l);
@@ -152,7 +151,7 @@ void Steinhardt::baseCompute(const std::shared_ptr<freud::locality::NeighborList
 
             for (freud::locality::NeighborBond nb = ppiter->next(); !ppiter->end(); nb = ppiter->next())
             {
-                const vec3<float> delta = points->getBox().wrap((*points)[nb.getPointIdx()] - ref);
+                const vec3<float> delta = nb.getVector();
                 const float weight(m_weighted ? nb.getWeight() : float(1.0));
 
                 // phi is usually in range 0..2Pi, but
-- 
2.43.0


From 0afbb124659b928220445ba0e4d58f9423b389d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:44 +0000
Subject: [PATCH 55/64] fix: Steinhardt.ql was the averaged q_l when average is
 True

---
 freud/order/Steinhardt.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/freud/order/Steinhardt.h b/freud/order/Steinhardt.h
index 44367c9..4c0d7af 100644
--- a/freud/order/Steinhardt.h
+++ b/freud/order/Steinhardt.h
@@ -100,16 +100,16 @@ public:
         {
             return m_wli;
         }
-        return getQl();
+        if (m_average)
+        {
+            return m_qliAve;
+        }
+        return m_qli;
     }
 
     //! Get the last calculated ql for each l
     const std::shared_ptr<util::ManagedArray<float>>& getQl() const
     {
-        if (m_average)
-        {
-            return m_qliAve;
-        }
         return m_qli;
     }
 
-- 
2.43.0


From 33649b2aef882e82873e9dcbb9ad268b1270c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 56/64] fix: LocalDescriptors went over as many query points as
 the system has points

---
 freud/environment.py                  | 6 +++---
 freud/environment/LocalDescriptors.cc | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/freud/environment.py b/freud/environment.py
index 6a35274..ffe085d 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -453,8 +453,8 @@ class LocalDescriptors(_PairCompute):
                 Query points used to calculate the correlation function.  Uses
                 the system's points if :code:`None` (Default
                 value = :code:`None`).
-            orientations ((:math:`N_{points}`, 4) :class:`numpy.ndarray`):
-                Orientations associated with system points that are used to
+            orientations ((:math:`N_{query\_points}`, 4) :class:`numpy.ndarray`):
+                Orientations associated with query points that are used to
                 calculate bonds.
             neighbors (:class:`freud.locality.NeighborList` or dict, optional):
                 Either a :class:`NeighborList <freud.locality.NeighborList>` of
@@ -481,7 +481,7 @@ class LocalDescriptors(_PairCompute):
                 raise RuntimeError(msg)
 
             orientations = freud.util._convert_array(
-                orientations, shape=(nq.points.shape[0], 4)
+                orientations, shape=(num_query_points, 4)
             )
 
         self._cpp_obj.compute(
diff --git a/freud/environment/LocalDescriptors.cc b/freud/environment/LocalDescriptors.cc
index f37048d..0aa039a 100644
--- a/freud/environment/LocalDescriptors.cc
+++ b/freud/environment/LocalDescriptors.cc
@@ -48,7 +48,7 @@ void LocalDescriptors::compute(const std::shared_ptr<locality::NeighborQuery>& n
     m_sphArray = std::make_shared<util::ManagedArray<std::complex<float>>>(
         std::vector<size_t> {m_nlist->getNumBonds(), getSphWidth()});
 
-    util::forLoopWrapper(0, nq->getNPoints(), [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, n_query_points, [&](size_t begin, size_t end) {
         fsph::PointSPHEvaluator<float> sph_eval(m_l_max);
 
         for (size_t i = begin; i < end; ++i)
-- 
2.43.0


From 3669ce11a0e211387852af2ae3a7f2c0bb12f7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 57/64] fix: Nematic accepts lists like every other compute

---
 freud/order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/order.py b/freud/order.py
index 54728c6..79e651e 100644
--- a/freud/order.py
+++ b/freud/order.py
@@ -180,7 +180,7 @@ class Nematic(_Compute):
             (:math:`\\left(N_{particles}, 3 \\right)` :class:`numpy.ndarray`):
                 Orientation vectors for which to calculate the order parameter.
         """
-        if orientations.shape[1] == 4:
+        if np.shape(orientations)[1:] == (4,):
             msg = (
                 "In freud versions >=3.0.0, Nematic.compute() takes "
                 "3d orientation vectors instead of 4d quaternions."
-- 
2.43.0


From 6bcb883ad08f62bc1320ba7ff8bc85be16646c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:43 +0000
Subject: [PATCH 58/64] fix: the grid of the direct structure factor lost
 vectors in tilted boxes

---
 .../StaticStructureFactorDirect.cc            | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/freud/diffraction/StaticStructureFactorDirect.cc b/freud/diffraction/StaticStructureFactorDirect.cc
index 38a7584..18118da 100644
--- a/freud/diffraction/StaticStructureFactorDirect.cc
+++ b/freud/diffraction/StaticStructureFactorDirect.cc
@@ -244,10 +244,20 @@ std::pair<unsigned int, unsigned int>
 evaluate_quadratic_equation(float coef_a, float coef_b, float coef_c_min, float coef_c_max, unsigned int N_kz)
 {
     const auto b_over_2a = coef_b / (2 * coef_a);
-    const auto kz_min = static_cast<unsigned int>(
-        std::floor(-b_over_2a + std::sqrt(b_over_2a * b_over_2a - coef_c_min / coef_a)));
-    const auto kz_max = static_cast<unsigned int>(
-        std::ceil(-b_over_2a + std::sqrt(b_over_2a * b_over_2a - coef_c_max / coef_a)));
+    const auto discriminant_min = (b_over_2a * b_over_2a) - (coef_c_min / coef_a);
+    const auto discriminant_max = (b_over_2a * b_over_2a) - (coef_c_max / coef_a);
+    const auto root_max = -b_over_2a + std::sqrt(std::max(0.0F, discriminant_max));
+    if (discriminant_max < 0 || root_max < 0)
+    {
+        return {0, 0};
+    }
+    // Vectors shorter than k_min are those between the roots for k_min, so only
+    // when there is none before the lower one can we begin at the upper one.
+    const auto root_offset = std::sqrt(std::max(0.0F, discriminant_min));
+    const auto kz_min = (discriminant_min > 0 && -b_over_2a - root_offset < 0)
+        ? static_cast<unsigned int>(std::max(0.0F, std::floor(-b_over_2a + root_offset)))
+        : 0;
+    const auto kz_max = static_cast<unsigned int>(std::floor(root_max)) + 2;
     return {kz_min, std::min(kz_max, N_kz)};
 }
 
@@ -299,8 +309,8 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
         // Above the pruning distance, the grid of k points is sampled isotropically
         // at a lower density.
         const auto q_prune_distance = get_prune_distance2D(num_sampled_k_points, q_max, q_area);
-        const auto N_kx = static_cast<unsigned int>(std::ceil(q_max / dq_x));
-        const auto N_ky = static_cast<unsigned int>(std::ceil(q_max / dq_y));
+        const auto N_kx = static_cast<unsigned int>(std::floor(q_max * box_matrix.row(0).norm())) + 1;
+        const auto N_ky = static_cast<unsigned int>(std::floor(q_max * box_matrix.row(1).norm())) + 1;
         const auto bx = freud::constants::TWO_PI * vec3<float>(B(0, 0), B(0, 1), 0.0);
         const auto by = freud::constants::TWO_PI * vec3<float>(B(1, 0), B(1, 1), 0.0);
         // This is a 2D loop but we parallelize in 1D because we only need to seed
@@ -327,7 +337,7 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                 // ensure that we don't accidentally throw out valid k points in
                 // the range (k_min, k_max) due to rounding error.
                 const auto coef_a = dot(by, by);
-                const auto coef_b = -2 * dot(k_vec_x, by);
+                const auto coef_b = 2 * dot(k_vec_x, by);
                 const auto coef_c_min = dot(k_vec_x, k_vec_x) - k_min * k_min;
                 const auto coef_c_max = dot(k_vec_x, k_vec_x) - k_max * k_max;
                 auto [ky_min, ky_max]
@@ -366,9 +376,9 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
         const auto bx = freud::constants::TWO_PI * vec3<float>(B(0, 0), B(0, 1), B(0, 2));
         const auto by = freud::constants::TWO_PI * vec3<float>(B(1, 0), B(1, 1), B(1, 2));
         const auto bz = freud::constants::TWO_PI * vec3<float>(B(2, 0), B(2, 1), B(2, 2));
-        const auto N_kx = static_cast<unsigned int>(std::ceil(q_max / dq_x));
-        const auto N_ky = static_cast<unsigned int>(std::ceil(q_max / dq_y));
-        const auto N_kz = static_cast<unsigned int>(std::ceil(q_max / dq_z));
+        const auto N_kx = static_cast<unsigned int>(std::floor(q_max * box_matrix.row(0).norm())) + 1;
+        const auto N_ky = static_cast<unsigned int>(std::floor(q_max * box_matrix.row(1).norm())) + 1;
+        const auto N_kz = static_cast<unsigned int>(std::floor(q_max * box_matrix.row(2).norm())) + 1;
         const auto q_prune_distance_sq = q_prune_distance * q_prune_distance;
         // This is a 3D loop but we parallelize in 1D because we only need to seed
         // the random number generators once per block and there is no benefit of
@@ -396,7 +406,7 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                     // ensure that we don't accidentally throw out valid k points in
                     // the range (k_min, k_max) due to rounding error.
                     const auto coef_a = dot(bz, bz);
-                    const auto coef_b = -2 * dot(k_vec_xy, bz);
+                    const auto coef_b = 2 * dot(k_vec_xy, bz);
                     const auto coef_c_min = dot(k_vec_xy, k_vec_xy) - k_min * k_min;
                     const auto coef_c_max = dot(k_vec_xy, k_vec_xy) - k_max * k_max;
                     auto [kz_min, kz_max]
-- 
2.43.0


From 2ca0ccac0020b014554a0cbb49dd78eeb768f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:12 +0000
Subject: [PATCH 59/64] fix: point_environments kept the environments of
 earlier computations

---
 freud/environment/MatchEnv.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freud/environment/MatchEnv.cc b/freud/environment/MatchEnv.cc
index 153a9cd..e2da76c 100644
--- a/freud/environment/MatchEnv.cc
+++ b/freud/environment/MatchEnv.cc
@@ -532,6 +532,7 @@ void EnvironmentCluster::compute(const std::shared_ptr<freud::locality::Neighbor
     const std::shared_ptr<locality::NeighborList> env_nlist
         = locality::makeDefaultNlist(nq, env_nlist_arg, nq->getPoints(), nq->getNPoints(), env_qargs);
 
+    m_point_environments.clear();
     const unsigned int Np = nq->getNPoints();
     m_env_index = std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {Np});
     // m_env_index.prepare(Np);
@@ -656,6 +657,7 @@ void EnvironmentMotifMatch::compute(const std::shared_ptr<freud::locality::Neigh
     const std::shared_ptr<locality::NeighborList> nlist
         = locality::makeDefaultNlist(nq, nlist_arg, nq->getPoints(), nq->getNPoints(), qargs);
 
+    m_point_environments.clear();
     const unsigned int Np = nq->getNPoints();
     const float m_threshold_sq = threshold * threshold;
 
@@ -734,6 +736,7 @@ void EnvironmentRMSDMinimizer::compute(const std::shared_ptr<freud::locality::Ne
     const std::shared_ptr<locality::NeighborList> nlist
         = locality::makeDefaultNlist(nq, nlist_arg, nq->getPoints(), nq->getNPoints(), qargs);
 
+    m_point_environments.clear();
     const unsigned int Np = nq->getNPoints();
 
     // create a disjoint set where all particles belong in their own cluster.
-- 
2.43.0


From e5165476ea5f9eac5e82d6271ca9a2043e422014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:14 +0000
Subject: [PATCH 60/64] fix: comparing environments without neighbors did not
 end under registration

---
 freud/environment/MatchEnv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/environment/MatchEnv.cc b/freud/environment/MatchEnv.cc
index e2da76c..c6c9a6f 100644
--- a/freud/environment/MatchEnv.cc
+++ b/freud/environment/MatchEnv.cc
@@ -286,7 +286,7 @@ std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>> isSimilar(Environme
 
     // If the vector sets do not have equal numbers of vectors, just return
     // an empty map since the 1-1 bimapping will be too weird in this case.
-    if (e1.vecs.size() != e2.vecs.size())
+    if (e1.vecs.size() != e2.vecs.size() || e1.vecs.empty())
     {
         return std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>>(rotation, vec_map);
     }
@@ -421,7 +421,7 @@ std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>> minimizeRMSD(Enviro
     // If the vector sets do not have equal numbers of vectors, force the map
     // to be empty since it can never be 1-1.
     // Return the empty vec_map and the identity matrix, and minRMSD = -1.
-    if (e1.vecs.size() != e2.vecs.size())
+    if (e1.vecs.size() != e2.vecs.size() || e1.vecs.empty())
     {
         min_rmsd = -1.0;
         return std::pair<rotmat3<float>, BiMap<unsigned int, unsigned int>>(rotation, vec_map);
-- 
2.43.0


From e2f764a71575ff111136390d2d05eefb819e6721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:53 +0000
Subject: [PATCH 61/64] fix: computing a Voronoi diagram again changed the
 neighbor list obtained before

---
 freud/locality/Voronoi.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/locality/Voronoi.cc b/freud/locality/Voronoi.cc
index cf1638d..2a41f00 100644
--- a/freud/locality/Voronoi.cc
+++ b/freud/locality/Voronoi.cc
@@ -208,6 +208,8 @@ void Voronoi::compute(const std::shared_ptr<freud::locality::NeighborQuery>& nq)
 
     unsigned int const num_bonds = bonds.size();
 
+    // A new list, so that one obtained from an earlier computation stays as it is.
+    m_neighbor_list = std::make_shared<NeighborList>();
     m_neighbor_list->resize(num_bonds);
     m_neighbor_list->setNumBonds(num_bonds, n_points, n_points);
 
-- 
2.43.0


From e3ef1167963493e08c5419ac63dfc76202e42c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:17 +0000
Subject: [PATCH 62/64] fix: point_environments of the RMSD minimizer could not
 be read

---
 freud/environment/export-MatchEnv.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freud/environment/export-MatchEnv.cc b/freud/environment/export-MatchEnv.cc
index cdc6dd5..3c2c5fb 100644
--- a/freud/environment/export-MatchEnv.cc
+++ b/freud/environment/export-MatchEnv.cc
@@ -106,6 +106,11 @@ nb::object getPointEnvmm(const std::shared_ptr<EnvironmentMotifMatch>& env_cls)
     return convertVectorsToLists(env_cls->getPointEnvironments());
 }
 
+nb::object getPointEnvrmsd(const std::shared_ptr<EnvironmentRMSDMinimizer>& env_cls)
+{
+    return convertVectorsToLists(env_cls->getPointEnvironments());
+}
+
 }; // namespace wrap
 
 namespace detail {
@@ -142,6 +147,7 @@ void export_MatchEnv(nb::module_& module)
         .def(nb::init<>())
         .def("compute", &wrap::compute_env_rmsd_min, nb::arg("nq"), nb::arg("nlist").none(), nb::arg("qargs"),
              nb::arg("motif"), nb::arg("motif_size"), nb::arg("registration"))
+        .def("getPointEnvironments", &wrap::getPointEnvrmsd)
         .def("getRMSDs", &EnvironmentRMSDMinimizer::getRMSDs);
 }
 
-- 
2.43.0


From 66bcfc8bc4a0c64acd243e9a82bbfb5a2e3e9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:13 +0000
Subject: [PATCH 63/64] fix: use pyplot's get_cmap in voronoi_plot

matplotlib.cm.get_cmap was removed in matplotlib 3.9, so every Voronoi
plot failed with an AttributeError.
---
 freud/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freud/plot.py b/freud/plot.py
index 36bfc6c..bbecfb4 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -13,7 +13,6 @@ _HAS_MPL = find_spec("matplotlib") is not None
 if _HAS_MPL:
     import matplotlib.colors
     import matplotlib.pyplot as plt
-    from matplotlib import cm
     from matplotlib.backends.backend_agg import FigureCanvasAgg
     from matplotlib.collections import PatchCollection
     from matplotlib.colorbar import Colorbar
@@ -479,7 +478,7 @@ def voronoi_plot(voronoi, box, ax=None, color_by=None, cmap=None):
                 )
             cmap = "tab20"
 
-    cmap = cm.get_cmap(cmap, num_colors)
+    cmap = plt.get_cmap(cmap, num_colors)
     bounds = np.arange(np.min(colors), np.max(colors) + 1)
 
     patch_collection.set_array(np.array(colors) - 0.5)
-- 
2.43.0


From cd3604a2f32d513e7a2419d87af6320de96c20d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:13 +0000
Subject: [PATCH 64/64] fix: do not shift the areas shown by voronoi_plot

With color_by='area' every cell was coloured by its area minus 0.5, while
the colorbar is labelled with areas.
---
 freud/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/plot.py b/freud/plot.py
index bbecfb4..fb6d560 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -481,7 +481,9 @@ def voronoi_plot(voronoi, box, ax=None, color_by=None, cmap=None):
     cmap = plt.get_cmap(cmap, num_colors)
     bounds = np.arange(np.min(colors), np.max(colors) + 1)
 
-    patch_collection.set_array(np.array(colors) - 0.5)
+    # Shift discrete colors to the lower edges of their bins in the colormap
+    offset = 0 if color_by in continuous_colorby_options else 0.5
+    patch_collection.set_array(np.array(colors) - offset)
     patch_collection.set_cmap(cmap)
     patch_collection.set_clim(bounds[0] - 0.5, bounds[-1] + 0.5)
     ax.add_collection(patch_collection)
-- 
2.43.0

